------------------------------- MODULE Session -------------------------------
(* What a caller of Fingerprinter can rely on, at the level of calls: how long the fingerprint is      *)
(* after each call, which calls are refused, and what the fingerprint is a function of.                *)
(*                                                                                                      *)
(* The abstract state of one fingerprinter is a record                                                 *)
(*   cfg   its configuration [frame, overlap, nc, w]: frame size and overlap in samples, number of     *)
(*         smoothing coefficients, width of the widest classifier                                      *)
(*   rate, ch   sample rate and channel count of the current session (0: none started yet)             *)
(*   n     frames taken since the start                                                                *)
(*   last  value of n at the last finish (0 at the start): what is certainly not held back             *)
(* Pipeline.tla models the mechanism behind it and is checked against these laws.                      *)
EXTENDS Integers, Sequences

CONSTANTS
  Buf,      \* frames in the internal buffer
  Native,   \* internal sample rate
  MinRate,  \* rates up to this one are refused
  Latency,  \* input frames that the resampler needs behind the position of an output sample
  Slack     \* output samples by which floating point positions of the resampler may differ

Max2(a, b) == IF a > b THEN a ELSE b

(* ---- item positions ----------------------------------------------------------------------------- *)
Hop(c) == c.frame - c.overlap
Delay(c) == ((c.nc - 1) + (c.w - 1)) * Hop(c) + c.overlap
(* samples an item needs in all: it covers c.frame + (nc - 1 + w - 1) hops *)
Span(c) == Delay(c) + Hop(c)
(* items determined by the first m samples at the internal rate *)
Items(c, m) == IF m < Delay(c) THEN 0 ELSE (m - Delay(c)) \div Hop(c)

(* ---- sample rate conversion ---------------------------------------------------------------------- *)
(* <<quotient, remainder>> of a * q by p without leaving 32 bits (q + 2 p < 2^31) *)
RECURSIVE MulDivRem(_, _, _)
MulDivRem(a, q, p) ==
  IF a = 0 THEN <<0, 0>>
  ELSE LET h == MulDivRem(a \div 2, q, p)
           x == 2 * h[2] + (a % 2) * q
       IN <<2 * h[1] + x \div p, x % p>>

(* samples at the internal rate produced from n frames at rate r: output k (from 1) lies at input       *)
(* position k r / Native and needs Latency frames behind it *)
Produced(r, n) ==
  IF r = Native THEN n
  ELSE IF r >= 2^29 THEN 0
  ELSE IF n <= Latency THEN 0 ELSE MulDivRem(n - Latency, Native, r)[1]
ProducedLo(r, n) == IF r = Native THEN n ELSE Max2(0, Produced(r, n) - Slack)
ProducedHi(r, n) == IF r = Native THEN n ELSE Produced(r, n) + Slack

(* ---- transitions of the abstract state ------------------------------------------------------------ *)
NewSession(c) == [cfg |-> c, rate |-> 0, ch |-> 0, n |-> 0, last |-> 0]

(* outcome of start(rate, ch) in any state *)
StartOutcome(rate, ch) ==
  IF ch = 0 THEN "nochannels" ELSE IF rate <= MinRate THEN "ratetoolow" ELSE "ok"
AfterStart(s, rate, ch) ==
  IF StartOutcome(rate, ch) = "ok"
  THEN [s EXCEPT !.rate = rate, !.ch = ch, !.n = 0, !.last = 0]
  ELSE s
(* outcome of consume(k samples) *)
ConsumeOutcome(s, samples) == IF s.ch > 0 /\ samples % s.ch = 0 THEN "ok" ELSE "panic"
AfterConsume(s, frames) == [s EXCEPT !.n = @ + frames]
AfterFinish(s) == [s EXCEPT !.last = s.n]

(* ---- how many items are visible -------------------------------------------------------------------- *)
(* audio that has certainly been passed on: all of it up to the last finish, and all but one buffer *)
Passed(s) == Max2(s.last, s.n - Buf)
VisibleLo(s) == IF s.rate = 0 THEN 0 ELSE Items(s.cfg, ProducedLo(s.rate, Passed(s)))
VisibleHi(s) == IF s.rate = 0 THEN 0 ELSE Items(s.cfg, ProducedHi(s.rate, s.n))
VisibleOK(s, count) == VisibleLo(s) <= count /\ count <= VisibleHi(s)
==============================================================================
