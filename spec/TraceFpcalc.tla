------------------------------ MODULE TraceFpcalc ------------------------------
(* Recorded runs of the fpcalc program.  A run: the file (n frames, rate, ch), the options, the exit     *)
(* status, the results as printed, and lib: fingerprints the library gives for ranges of the same audio. *)
(* A printed fingerprint is raw ([upper, lower 16 bits] of each number, upper possibly negative) or the  *)
(* character codes of the base64 text.                                                                    *)
EXTENDS Codec, Session, Presets, Bitwise, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLE l

F == INSTANCE Fpcalc WITH MaxPacket <- 1, Faults <- {}, file <- 0, pkt <- <<>>, last <- FALSE, taken <- 0, fed <- <<>>,
       printed <- 0, size <- 0, first <- TRUE, outs <- <<>>, par <- <<>>, pc <- ""

Conf(r) == [frame |-> Frame(r.alg + 1), overlap |-> Overlap(r.alg + 1), nc |-> NCoef, w |-> Widest]
LimitOf(r) == IF r.limit < 0 THEN 120 ELSE r.limit
Chunked(r) == r.chunk > 0
Overlapped(r) == r.overlap = 1 /\ Chunked(r)
ExtraOf(r) == IF Overlapped(r) THEN MulDivRem(Delay(Conf(r)), r.rate, Native)[1] ELSE 0
Lay(r) == F!Law(r.n, LimitOf(r) * r.rate, r.chunk * r.rate, ExtraOf(r))

(* ---- times: pairs <<seconds, microseconds>> ----------------------------------------------------------- *)
TimeAt(frames, rate) == <<frames \div rate, MulDivRem(frames % rate, 1000000, rate)[1]>>
Plus(a, b) == LET u == a[2] + b[2] IN <<a[1] + b[1] + u \div 1000000, u % 1000000>>
AbsU(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == /\ Len(a) = 2 /\ AbsU(a[1] - b[1]) < 1800
                   /\ AbsU((a[1] - b[1]) * 1000000 + a[2] - b[2]) <= tol
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

Lag(r) == IF Overlapped(r) THEN TimeAt(Delay(Conf(r)), Native) ELSE <<0, 0>>
Duration(r, w) == Plus(TimeAt(w.share, r.rate), Lag(r))
DurationOK(r, x, w) ==
  CASE r.fmt = "plain" -> x.dur = <<>>
    [] r.fmt = "json" -> Near(x.dur, Duration(r, w), 5003)
    [] OTHER -> Near(x.dur, Duration(r, w), 3)
(* start of result k; -T: the clock, less the lag when chunks overlap *)
StampOK(r, x, k) ==
  LET shown == (r.fmt = "json" /\ Chunked(r)) \/ (r.fmt = "text" /\ r.ts = 1) IN
  IF ~shown THEN x.stamp = <<>>
  ELSE IF r.ts = 1 THEN Len(x.stamp) = 2 /\ Before(r.t0, Plus(x.stamp, Plus(Lag(r), <<0, 10000>>))) /\ Before(x.stamp, Plus(r.t1, <<0, 10000>>))
  ELSE Near(x.stamp, <<(k - 1) * r.chunk, 0>>, 5003)

(* ---- printed fingerprints -------------------------------------------------------------------------------- *)
Six(c) == CASE c >= 65 /\ c <= 90 -> c - 65
            [] c >= 97 /\ c <= 122 -> c - 71
            [] c >= 48 /\ c <= 57 -> c + 4
            [] c = 45 -> 62
            [] c = 95 -> 63
            [] OTHER -> -1
Base64OK(s) == Len(s) % 4 # 1 /\ \A j \in DOMAIN s : Six(s[j]) >= 0
Bytes(s) ==   \* leftover bits are zero
  LET n == (Len(s) * 3) \div 4
      v == TLCEval([j \in 1 .. Len(s) + 1 |-> IF j <= Len(s) THEN Six(s[j]) ELSE 0])
  IN [b \in 1 .. n |-> LET q == 4 * ((b - 1) \div 3)  m == (b - 1) % 3 IN
        IF m = 0 THEN v[q + 1] * 4 + v[q + 2] \div 16
        ELSE IF m = 1 THEN (v[q + 2] % 16) * 16 + v[q + 3] \div 4
        ELSE (v[q + 3] % 4) * 64 + v[q + 4]]
TailOK(s) == LET m == Len(s) % 4  z == Six(s[Len(s)]) IN (m = 2 => z % 16 = 0) /\ (m = 3 => z % 4 = 0)
Upper(it) == FoldLeft(LAMBDA a, b : IF b \in it THEN a + 2^(b - 17) ELSE a, 0, [j \in 1 .. 16 |-> 16 + j])
Lower(it) == FoldLeft(LAMBDA a, b : IF b \in it THEN a + 2^(b - 1) ELSE a, 0, [j \in 1 .. 16 |-> j])
(* [ok, items: <<upper, lower>>] *)
Read(r, x) ==
  IF x.form = "raw"
  THEN [ok |-> r.raw = 1 /\ \A j \in DOMAIN x.fp :
                 IF r.signed = 1 THEN x.fp[j][1] \in -32768 .. 32767 ELSE x.fp[j][1] \in 0 .. 65535,
        items |-> [j \in DOMAIN x.fp |-> <<x.fp[j][1] % 65536, x.fp[j][2]>>]]
  ELSE IF x.form # "base64" \/ ~Base64OK(x.fp) THEN [ok |-> FALSE, items |-> <<>>]
  ELSE LET d == Decode(TLCEval(Bytes(x.fp))) IN
       [ok |-> r.raw = 0 /\ TailOK(x.fp) /\ d.ok /\ d.id = PresetId(r.alg + 1),
        items |-> [j \in DOMAIN d.items |-> <<Upper(d.items[j]), Lower(d.items[j])>>]]
Lib(z) == [j \in DOMAIN z.hi |-> <<z.hi[j], z.lo[j]>>]

(* ---- judgements ------------------------------------------------------------------------------------------- *)
Layout(r) ==    \* as many results as laid out, each with its duration and start
  LET w == Lay(r) IN
  /\ r.status = 0 /\ r.form = 1
  /\ Len(r.results) = Len(w)
  /\ \A k \in DOMAIN w : DurationOK(r, r.results[k], w[k]) /\ StampOK(r, r.results[k], k)
EachOfItsFrames(r) ==
  LET w == Lay(r) IN
  /\ Len(r.lib) = Len(w)
  /\ \A k \in DOMAIN w : /\ r.lib[k].from = w[k].from /\ r.lib[k].to = w[k].to     \* (the driver's bookkeeping)
                         /\ LET f == Read(r, r.results[k]) IN f.ok /\ f.items = Lib(r.lib[k])
TogetherTheStream(r) ==
  LET w == Lay(r)
      fs == TLCEval([k \in DOMAIN w |-> Read(r, r.results[k])])
      all == TLCEval(FlattenSeq([k \in DOMAIN w |-> fs[k].items]))
      whole == Lib(r.lib[1])
      upto[k \in 0 .. Len(w)] == IF k = 0 THEN 0 ELSE upto[k - 1] + Len(fs[k].items)
  IN /\ r.lib[1].from = 0 /\ r.lib[1].to = w[Len(w)].to /\ Len(r.lib) = 1
     /\ \A k \in DOMAIN w : fs[k].ok
     /\ all = whole
     (* and every result has the items that are complete by its end *)
     /\ \A k \in DOMAIN w : upto[k] \in Items(Conf(r), ProducedLo(r.rate, w[k].to)) .. Items(Conf(r), ProducedHi(r.rate, w[k].to))

(* ---- damaged files: r.cut bytes of the file are there (-1: all), the packet at frame r.bad (-1: none) is broken ---- *)
There(r) == IF r.cut < 0 THEN r.n ELSE F!Present(r.file, r.n, r.ch, r.sizes, r.cut)
Refused(r) == r.status # 0 /\ r.form = 1 /\ r.results = <<>>
BrokenOff(r) ==
  LET w == Lay(r)
      m == Len(r.results)
      fs == TLCEval([k \in 1 .. m |-> Read(r, r.results[k])])
      all == TLCEval(FlattenSeq([k \in 1 .. m |-> fs[k].items]))
  IN /\ r.status # 0 /\ r.form = 1 /\ m \in F!Completed(w, r.bad)
     /\ \A k \in 1 .. m : fs[k].ok /\ DurationOK(r, r.results[k], w[k]) /\ StampOK(r, r.results[k], k)
     /\ IF Overlapped(r) THEN all = SubSeq(Lib(r.lib[1]), 1, Len(all))
        ELSE \A k \in 1 .. m : r.lib[k].from = w[k].from /\ r.lib[k].to = w[k].to /\ fs[k].items = Lib(r.lib[k])
AsFarAsItGoes(r) ==
  LET there == TLCEval(There(r)) IN
  IF there < 0 THEN Refused(r)
  ELSE LET z == TLCEval([r EXCEPT !.n = there])
           t == F!Taken(z.n, LimitOf(z) * z.rate)
           whole == Layout(z) /\ (IF Overlapped(z) THEN z.results = <<>> \/ TogetherTheStream(z) ELSE EachOfItsFrames(z))
       IN IF r.bad < 0 \/ r.bad > t THEN whole
          ELSE IF r.bad = t THEN whole \/ BrokenOff(r)
          ELSE BrokenOff(r)

RunOK(r) ==
  CASE PROP = "C20" -> Layout(r) /\ (~Overlapped(r) => EachOfItsFrames(r))
    [] PROP = "C21" -> Layout(r) /\ TogetherTheStream(r)
    [] PROP = "C24" -> IF r.ev = "refused" THEN r.status # 0 /\ r.printed = 0 ELSE AsFarAsItGoes(r)
    [] PROP = "C22" -> IF r.alg \in 0 .. 4
                       THEN /\ r.status = 0 /\ r.form = 1
                            /\ IF Overlapped(r) THEN TogetherTheStream(r) ELSE EachOfItsFrames(r)
                       ELSE r.status # 0 /\ r.results = <<>>

TInit == l = 0 /\ fpr = <<>> /\ i = 1 /\ bit = 0 /\ norm = <<>> /\ exc = <<>> /\ out = <<>>
TNext == l < Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
Accepted == l > 0 => RunOK(Trace[l])
==============================================================================
