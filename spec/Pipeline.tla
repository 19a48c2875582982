------------------------------- MODULE Pipeline -------------------------------
(* The mechanism inside a Fingerprinter, stage by stage, with samples and features as symbols: the     *)
(* staging buffer, the resampler as a block machine with memory, the ring of unframed samples, the     *)
(* circular smoothing buffer, the rolling integral image and the list of items.  One action per call.  *)
(* Ghost state keeps the session as the caller sees it (Session.tla) and the audio given, so that the  *)
(* laws of Session.tla and the locality of items become invariants.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS
  Buf, Native, MinRate, Latency, Slack,  \* as in Session
  Cfg,       \* the configuration [frame, overlap, nc, w]
  SmoothCap, \* capacity of the smoothing buffer
  ImageCap,  \* capacity of the integral image in rows
  Rates, Chans, Lens, \* arguments tried
  MaxFrames, \* bound on the frames of one session
  MaxStarts, \* bound on the number of starts
  Faults     \* set of design faults to plant (empty for the real design)

S == INSTANCE Session
ASSUME SmoothCap >= Cfg.nc   \* more frames to smooth over than it holds: ItemsAreWindows fails

VARIABLES
  staged,   \* mixed frames not yet passed on
  resamp,   \* <<>> or the resampler's state [r, pos, hist]: rate factor, frames seen, unread frames
  ring,     \* samples not yet framed
  sbuf, soff, ssize,  \* circular smoothing buffer, next slot, fill count (as in the code: starts at 1)
  rows,     \* rows added to the image since the last reset
  img,      \* slot -> the row number whose running total it holds (-1: nothing)
  feats,    \* ghost: the smoothed rows, by number; what a running total up to row k stands for
  fpr,      \* published items
  s,        \* ghost: session as the caller sees it
  audio,    \* ghost: frames given since the last successful start
  fresh,    \* next sample symbol
  starts,
  lastcall
stages == <<staged, resamp, ring, sbuf, soff, ssize, rows, img, feats, fpr>>
vars == <<staged, resamp, ring, sbuf, soff, ssize, rows, img, feats, fpr, s, audio, fresh, starts, lastcall>>

EmptyImg == [k \in 0 .. ImageCap - 1 |-> -1]
Init ==
  /\ staged = <<>> /\ resamp = <<>> /\ ring = <<>>
  /\ sbuf = [k \in 0 .. SmoothCap - 1 |-> <<>>] /\ soff = 0 /\ ssize = 1
  /\ rows = 0 /\ img = EmptyImg /\ feats = <<>> /\ fpr = <<>>
  /\ s = S!NewSession(Cfg) /\ audio = <<>> /\ fresh = 1 /\ starts = 0 /\ lastcall = "none"

St == [staged |-> staged, resamp |-> resamp, ring |-> ring, sbuf |-> sbuf, soff |-> soff, ssize |-> ssize,
       rows |-> rows, img |-> img, feats |-> feats, fpr |-> fpr]

(* ---- one function per stage: state record to state record ----------------------------------------- *)
(* FingerprintCalculator: one smoothed (and normalised) row *)
ImageArea(t, r1, r2) ==   \* rows r1 .. r2-1, as RollingIntegralImage::area reads them
  LET hi == t.img[(r2 - 1) % ImageCap]
      lo == IF r1 = 0 THEN -1 ELSE t.img[(r1 - 1) % ImageCap]
  IN IF hi < lo \/ hi >= Len(t.feats) THEN <<"garbage">> ELSE SubSeq(t.feats, lo + 2, hi + 1)
AddRow(t, row) ==
  LET u == [t EXCEPT !.feats = Append(@, row), !.img[t.rows % ImageCap] = t.rows, !.rows = @ + 1]
  IN IF u.rows >= Cfg.w
     THEN [u EXCEPT !.fpr = Append(@, ImageArea(u, u.rows - Cfg.w, u.rows))]
     ELSE u
(* ChromaFilter *)
Smooth(t, frame) ==
  LET u   == [t EXCEPT !.sbuf[t.soff] = frame, !.soff = (t.soff + 1) % SmoothCap]
      off == (u.soff + SmoothCap - Cfg.nc) % SmoothCap
  IN IF t.ssize >= Cfg.nc
     THEN AddRow(u, [j \in 1 .. Cfg.nc |-> u.sbuf[(off + j - 1) % SmoothCap]])
     ELSE [u EXCEPT !.ssize = @ + 1]
(* Fft *)
RECURSIVE Framing(_)
Framing(t) ==
  IF Len(t.ring) < Cfg.frame THEN t
  ELSE Framing(Smooth([t EXCEPT !.ring = SubSeq(@, S!Hop(Cfg) + 1, Len(@))], SubSeq(t.ring, 1, Cfg.frame)))
FftConsume(t, data) == Framing([t EXCEPT !.ring = @ \o data])
(* AudioProcessor::resample: output k (from 1) is the input frame at position k*f, available once      *)
(* Latency frames behind it are known; f = rate / Native is whole in this model *)
Convert(t, data) ==
  IF t.resamp = <<>> THEN FftConsume(t, data)
  ELSE LET z    == t.resamp[1]
           all  == z.hist \o data
           seen == z.pos + Len(all)
           k0   == z.out
           (* first and last output now possible *)
           K    == {k \in 1 .. (seen + 1) : k * z.f + Latency <= seen /\ k > k0}
           outs == [j \in 1 .. Cardinality(K) |-> all[(k0 + j) * z.f - z.pos]]
           kn   == k0 + Cardinality(K)
           keep == kn * z.f - z.pos    \* frames up to here will not be needed again
           drop == IF keep > Len(all) THEN Len(all) ELSE keep
       IN FftConsume([t EXCEPT !.resamp = <<[z EXCEPT !.out = kn, !.pos = z.pos + drop,
                                                      !.hist = SubSeq(all, drop + 1, Len(all))]>>], outs)
Pass(t) == Convert([t EXCEPT !.staged = <<>>], t.staged)
RECURSIVE Load(_, _)
Load(t, data) ==
  IF data = <<>> THEN t
  ELSE LET k == IF Len(data) < Buf - Len(t.staged) THEN Len(data) ELSE Buf - Len(t.staged)
           u == [t EXCEPT !.staged = @ \o SubSeq(data, 1, k)]
       IN Load(IF Len(u.staged) = Buf THEN Pass(u) ELSE u, SubSeq(data, k + 1, Len(data)))

(* reset of every stage; Faults leaves one of them out *)
ResetAll(t, rate) ==
  [t EXCEPT !.staged = IF "staging" \in Faults THEN @ ELSE <<>>,
            !.resamp = IF rate = Native THEN (IF "resampler" \in Faults THEN @ ELSE <<>>)
                       ELSE <<[f |-> rate \div Native, out |-> 0, pos |-> 0, hist |-> <<>>]>>,
            !.ring = IF "ring" \in Faults THEN @ ELSE <<>>,
            !.ssize = IF "smoothing" \in Faults THEN @ ELSE 1, !.soff = 0,
            !.rows = IF "image" \in Faults THEN @ ELSE 0,
            !.img = IF "image" \in Faults THEN @ ELSE EmptyImg,
            !.feats = IF "image" \in Faults THEN @ ELSE <<>>,
            !.fpr = IF "items" \in Faults THEN @ ELSE <<>>]

Become(t) ==
  /\ staged' = t.staged /\ resamp' = t.resamp /\ ring' = t.ring
  /\ sbuf' = t.sbuf /\ soff' = t.soff /\ ssize' = t.ssize
  /\ rows' = t.rows /\ img' = t.img /\ feats' = t.feats /\ fpr' = t.fpr

(* ---- calls ------------------------------------------------------------------------------------------ *)
Start(rate, ch) ==
  /\ starts < MaxStarts
  /\ starts' = starts + 1
  /\ s' = S!AfterStart(s, rate, ch)
  /\ IF S!StartOutcome(rate, ch) = "ok"
     THEN Become(ResetAll(St, rate)) /\ audio' = <<>> /\ lastcall' = "start"
     ELSE Become(IF "failedstart" \in Faults THEN [St EXCEPT !.staged = <<>>] ELSE St)
          /\ UNCHANGED audio /\ lastcall' = "refused"
  (* symbols of different sessions differ *)
  /\ fresh' = IF S!StartOutcome(rate, ch) = "ok" THEN 100 * starts' + 1 ELSE fresh

Consume(len) ==
  /\ s.ch > 0 /\ s.n + len <= MaxFrames
  /\ LET data == [j \in 1 .. len |-> fresh + j - 1]
     IN Become(Load(St, data)) /\ audio' = audio \o data
  /\ fresh' = fresh + len
  /\ s' = S!AfterConsume(s, len) /\ lastcall' = "consume" /\ UNCHANGED starts

(* a call that is not a whole number of frames panics at entry *)
Refused == /\ s.ch > 1 /\ lastcall' = "refused" /\ UNCHANGED <<s, audio, fresh, starts>> /\ UNCHANGED stages

Finish ==
  /\ s.ch > 0
  /\ Become(IF staged = <<>> THEN St
            ELSE IF "tail" \in Faults /\ resamp # <<>>   \* a last block converted behind the wrong history
            THEN Pass([St EXCEPT !.resamp[1].hist = [j \in DOMAIN @ |-> 0]])
            ELSE Pass(St))
  /\ s' = S!AfterFinish(s) /\ lastcall' = "finish" /\ UNCHANGED <<audio, fresh, starts>>

Next == \/ \E r \in Rates, c \in Chans : Start(r, c)
        \/ \E k \in Lens : Consume(k)
        \/ Refused
        \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what the caller sees ------------------------------------------------------------------------- *)
(* the samples at the internal rate behind the audio of this session, under the resampler of the model *)
Stream == IF s.rate = Native \/ s.rate = 0 THEN audio
          ELSE LET f == s.rate \div Native
               IN [k \in 1 .. S!Produced(s.rate, Len(audio)) |-> audio[k * f]]
(* item i (from 1) as a function of its own window *)
ItemOf(x, i) ==
  [row \in 1 .. Cfg.w |-> [j \in 1 .. Cfg.nc |->
     LET a == (i - 1 + row - 1 + j - 1) * S!Hop(Cfg) IN SubSeq(x, a + 1, a + Cfg.frame)]]

TypeOK == Len(staged) < Buf /\ Len(ring) < Cfg.frame
(* C25: whatever the history, each stage keeps a bounded number of samples or rows *)
Bounded ==
  /\ Len(staged) < Buf /\ Len(ring) < Cfg.frame
  /\ DOMAIN sbuf = 0 .. SmoothCap - 1 /\ DOMAIN img = 0 .. ImageCap - 1
  /\ \A k \in DOMAIN sbuf : Len(sbuf[k]) <= Cfg.frame
  /\ Len(resamp) <= 1 /\ (resamp # <<>> => Len(resamp[1].hist) < Latency + resamp[1].f)
(* C05, C04: number of visible items *)
CountLaw == S!VisibleOK(s, Len(fpr))
CompleteAfterFinish == lastcall = "finish" => Len(fpr) = S!Items(Cfg, S!Produced(s.rate, s.n))
(* C01, C02, C08, C11: every visible item is the function of its own window of this session's audio *)
ItemsAreWindows == \A i \in 1 .. Len(fpr) : fpr[i] = ItemOf(Stream, i)
EmptyAfterStart == lastcall = "start" => fpr = <<>>
(* C04: published items are final *)
AppendOnly == [][lastcall' # "start" => IsPrefix(fpr, fpr')]_vars
(* C06 *)
RefusedChangesNothing == [][lastcall' = "refused" => UNCHANGED stages /\ s' = s]_vars
(* C04: a finish with nothing new, or an empty consume, changes nothing *)
IdleCalls == [][lastcall' \in {"finish", "consume"} /\ s'.n = s.n /\ (lastcall' = "finish" => s.n = s.last)
                => UNCHANGED stages]_vars
==============================================================================
