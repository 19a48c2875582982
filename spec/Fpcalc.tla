-------------------------------- MODULE Fpcalc --------------------------------
(* The fpcalc program: which frames of the file each printed result is about (laws), and the loop over  *)
(* packets that gets there (state machine).  Lengths are in frames of the file.                          *)
EXTENDS Integers, Sequences, SequencesExt

Least(a, b) == IF a < b THEN a ELSE b

(* ---- laws ------------------------------------------------------------------------------------------- *)
(* frames processed: n in the file, limit (0: none) *)
Taken(n, limit) == IF limit = 0 THEN n ELSE Least(n, limit)
(* number of results; chunk = 0: one for everything; the first chunk is longer by `extra` *)
Results(t, chunk, extra) ==
  IF t = 0 THEN 0
  ELSE IF chunk = 0 \/ t <= chunk + extra THEN 1
  ELSE 1 + (t - extra - 1) \div chunk
(* result k ends with frame .. (exclusive) *)
EndOf(k, t, chunk, extra) == IF chunk = 0 THEN t ELSE Least(t, k * chunk + extra)
(* [from, to) in frames of the file; share: how many frames the result stands for *)
Law(n, limit, chunk, extra) ==
  LET t == Taken(n, limit) IN
  [k \in 1 .. Results(t, chunk, extra) |->
    LET from == IF k = 1 THEN 0 ELSE EndOf(k - 1, t, chunk, extra)
        to == EndOf(k, t, chunk, extra)
    IN [from |-> from, to |-> to, share |-> to - from - (IF k = 1 THEN extra ELSE 0)]]

(* ---- files ------------------------------------------------------------------------------------------ *)
(* Bytes in front of the audio, and of a frame, in the uncompressed forms used here.                     *)
HeadOf(form) == CASE form = "aiff" -> 54 [] form = "flac" -> 42 [] OTHER -> 44
Wide(form) == CASE form = "8" -> 1 [] form = "24" -> 3 [] form \in {"32", "f32"} -> 4 [] form = "f64" -> 8 [] OTHER -> 2
(* FLAC, verbatim: a packet of m frames that starts with frame v has a header of 4 bytes, the number v   *)
(* in the manner of UTF-8, its length, a checksum, one byte and 2 m per channel, and a checksum.         *)
NumBytes(v) == IF v < 128 THEN 1 ELSE IF v < 2048 THEN 2 ELSE IF v < 65536 THEN 3 ELSE IF v < 2097152 THEN 4 ELSE 5
PacketBytes(v, m, ch) == 4 + NumBytes(v) + 3 + ch * (1 + 2 * m) + 2
(* n frames in packets of the given sizes, again and again; packet [k, at, frames, end], end: in bytes of *)
(* the file; packet 0 is the header                                                                        *)
NextPacket(p, n, ch, sizes) ==
  LET at == p.at + p.frames
      m == Least(sizes[(p.k % Len(sizes)) + 1], n - at)
  IN [k |-> p.k + 1, at |-> at, frames |-> m, end |-> p.end + PacketBytes(at, m, ch)]
Walk(n, ch, sizes, Go(_)) ==
  LET most == Len(sizes) * (n \div FoldLeft(LAMBDA a, x : a + x, 0, sizes) + 1)
      step(p, j) == IF p.at + p.frames >= n THEN p
                    ELSE LET q == NextPacket(p, n, ch, sizes) IN IF Go(q) THEN q ELSE p
  IN FoldLeft(step, [k |-> 0, at |-> 0, frames |-> 0, end |-> HeadOf("flac")], [j \in 1 .. most |-> j])
(* the last packet within the first `bytes` bytes, and the one with a given frame *)
LastWithin(n, ch, sizes, bytes) == Walk(n, ch, sizes, LAMBDA q : q.end <= bytes)
WithFrame(n, ch, sizes, f) == Walk(n, ch, sizes, LAMBDA q : q.at <= f)
(* how many of its n frames are there if only the first `bytes` bytes of a file are: whole frames, whole *)
(* packets; -1 if not even the header is                                                                  *)
Present(form, n, ch, sizes, bytes) ==
  IF bytes < HeadOf(form) THEN -1
  ELSE IF form = "flac" THEN LET p == LastWithin(n, ch, sizes, bytes) IN p.at + p.frames
  ELSE Least(n, (bytes - HeadOf(form)) \div (Wide(form) * ch))
(* what a program that gives up at frame b has printed: results it could complete (a result that ends     *)
(* just there may be among them or not)                                                                   *)
Completed(law, b) == {Len(SelectSeq(law, LAMBDA w : w.to < b)), Len(SelectSeq(law, LAMBDA w : w.to <= b))}

(* ---- the loop ---------------------------------------------------------------------------------------- *)
CONSTANTS MaxPacket,    \* packets have 1 .. MaxPacket frames
          Faults        \* design faults planted

VARIABLES
  file,     \* frames left in the file
  pkt,      \* frames of the packet in hand not yet consumed: sequence of frame numbers
  last,     \* is it the last packet to be used
  taken,    \* frames taken from packets so far
  fed,      \* frames consumed by the fingerprinter since its start
  printed,  \* how many of them earlier results are about
  size,     \* frames of the current chunk
  first,    \* is it the first
  outs,     \* results: [from, to, share] with the frames themselves in fr
  par,      \* [n, limit, chunk, extra, overlap]
  pc
fvars == <<file, pkt, last, taken, fed, printed, size, first, outs, par, pc>>

Frames(a, k) == [j \in 1 .. k |-> a + j - 1]
Extra == IF par.chunk > 0 /\ par.overlap /\ (first \/ "extra_stays" \in Faults) THEN par.extra ELSE 0

FInit(P) ==
  /\ par \in P
  /\ file = par.n /\ pkt = <<>> /\ last = FALSE /\ taken = 0
  /\ fed = <<>> /\ printed = 0 /\ size = 0 /\ first = TRUE /\ outs = <<>> /\ pc = "read"

ReadPacket ==
  /\ pc = "read" /\ file > 0 /\ ~last
  /\ \E f \in 1 .. Least(MaxPacket, file) :
       LET rest == par.limit - taken
           use == IF par.limit = 0 THEN f ELSE Least(f, rest)
       IN /\ pkt' = Frames(par.n - file, use)
          /\ last' = (par.limit > 0 /\ f > rest)
          /\ taken' = taken + use
          /\ file' = file - f
          /\ pc' = IF use = 0 THEN "read" ELSE "feed"
  /\ UNCHANGED <<fed, printed, size, first, outs, par>>

Feed ==
  /\ pc = "feed" /\ pkt # <<>>
  /\ LET room == par.chunk + Extra - size
         part == IF par.chunk > 0 THEN Least(Len(pkt), room) ELSE Len(pkt)
         full == par.chunk > 0 /\ (IF "eager" \in Faults THEN Len(pkt) >= room ELSE Len(pkt) > room)
     IN /\ fed' = fed \o SubSeq(pkt, 1, part)
        /\ pkt' = IF "same_part" \in Faults THEN SubSeq(pkt, 1, Len(pkt) - part) ELSE SubSeq(pkt, part + 1, Len(pkt))
        /\ size' = size + part
        /\ pc' = IF full THEN "close" ELSE IF part = Len(pkt) THEN "read" ELSE "feed"
  /\ UNCHANGED <<file, last, taken, printed, first, outs, par>>

Result == [share |-> size - Extra, fr |-> SubSeq(fed, printed + 1, Len(fed))]
CloseChunk ==
  /\ pc = "close"
  /\ outs' = Append(outs, Result)
  /\ IF par.overlap /\ "restart" \notin Faults THEN printed' = Len(fed) /\ UNCHANGED fed ELSE fed' = <<>> /\ printed' = 0
  /\ first' = FALSE /\ size' = 0
  /\ pc' = IF pkt = <<>> THEN "read" ELSE "feed"
  /\ UNCHANGED <<file, pkt, last, taken, par>>

EndOfStream ==
  /\ pc = "read" /\ (file = 0 \/ last)
  /\ outs' = IF size > 0 \/ "empty_last" \in Faults THEN Append(outs, Result) ELSE outs
  /\ pc' = "done"
  /\ UNCHANGED <<file, pkt, last, taken, fed, printed, size, first, par>>

(* a packet of another track (subtitles, a second language): none of our business, be it sound or not *)
Foreign ==
  /\ pc = "read" /\ ~last
  /\ IF "any_track" \in Faults /\ fed # <<>> /\ Len(fed) < par.n
     THEN /\ pkt' = <<-1>> /\ pc' = "feed" /\ taken' = taken + 1
          /\ UNCHANGED <<file, last, fed, printed, size, first, outs, par>>
     ELSE UNCHANGED fvars
(* the file ends here, whatever its header says: it is as good as a file of what was there *)
Cut ==
  /\ pc = "read" /\ file > 0 /\ ~last
  /\ par' = [par EXCEPT !.n = @ - file] /\ file' = 0
  /\ UNCHANGED <<pkt, last, taken, fed, printed, size, first, outs, pc>>
(* the next packet cannot be decoded: give up, leaving what was printed *)
GiveUp ==
  /\ pc = "read" /\ file > 0 /\ ~last
  /\ pc' = "failed"
  /\ UNCHANGED <<file, pkt, last, taken, fed, printed, size, first, outs, par>>

FNext == ReadPacket \/ Foreign \/ Feed \/ CloseChunk \/ EndOfStream \/ Cut \/ GiveUp \/ (pc \in {"done", "failed"} /\ UNCHANGED fvars)

(* ---- what must hold ---------------------------------------------------------------------------------- *)
TheLaw == Law(par.n, par.limit, par.chunk, IF par.chunk > 0 /\ par.overlap THEN par.extra ELSE 0)
AsLaid == pc = "done" =>
  /\ Len(outs) = Len(TheLaw)
  /\ \A k \in DOMAIN outs : LET w == TheLaw[k] IN
       /\ outs[k].fr = Frames(w.from, w.to - w.from)
       /\ outs[k].share = w.share
(* with overlap one session goes through all of the stream *)
OneSession == pc = "done" /\ par.overlap => fed = Frames(0, Taken(par.n, par.limit))
(* after a failure: the results that were complete *)
AsFar == pc = "failed" =>
  LET b == par.n - file IN
  /\ Len(outs) \in Completed(TheLaw, b)
  /\ \A k \in DOMAIN outs : outs[k].fr = Frames(TheLaw[k].from, TheLaw[k].to - TheLaw[k].from) /\ outs[k].share = TheLaw[k].share
(* never ahead of the law *)
Prefixed == \A k \in DOMAIN outs : k <= Len(TheLaw) /\ Len(outs[k].fr) <= TheLaw[k].to - TheLaw[k].from
(* the laws themselves: results partition the frames, all but the last are full *)
Partition ==
  LET w == TheLaw  t == Taken(par.n, par.limit) IN
  /\ (t > 0) = (Len(w) > 0)
  /\ t > 0 => w[1].from = 0 /\ w[Len(w)].to = t
  /\ \A k \in DOMAIN w : /\ w[k].from < w[k].to
                         /\ k > 1 => w[k].from = w[k - 1].to
                         /\ k < Len(w) => w[k].share = par.chunk
                         /\ par.chunk > 0 => w[k].share <= par.chunk
==============================================================================
