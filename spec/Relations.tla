------------------------------- MODULE Relations -------------------------------
(* What two fingerprints must have in common, from what their audio has in common.                      *)
(*                                                                                                      *)
(* Audio is described as a sequence of runs [src, off, len, gain, neg]: samples off .. off+len-1 of a   *)
(* source, multiplied by 2^gain, negated if neg = 1.  Source 0 is audio that never exceeds amplitude     *)
(* `quiet` of the record.  Item i is a function of the samples in its window, and it does not change    *)
(* when the window is scaled by a power of two or negated, or when all of it is below the silence floor.*)
EXTENDS Integers, Sequences, SequencesExt, Tables, TLC

(* ---- windows ---------------------------------------------------------------------------------------- *)
Hop(c) == c.frame - c.overlap
Span(c) == c.frame + (c.nc - 1 + 15) * Hop(c)
Delay(c) == Span(c) - Hop(c)
Total(runs) == FoldLeft(LAMBDA a, r : a + r.len, 0, runs)
(* append a run, joining it to the last if it continues it *)
Push(w, r) ==
  IF r.len = 0 THEN w
  ELSE IF w # <<>> /\ LET z == w[Len(w)] IN z.src = r.src /\ z.gain = r.gain /\ z.neg = r.neg /\ z.off + z.len = r.off
       THEN [w EXCEPT ![Len(w)].len = @ + r.len]
       ELSE Append(w, r)
(* the runs of samples a .. b-1 *)
Clip(runs, a, b) ==
  LET step(acc, r) ==
        LET from == IF a > acc[1] THEN a - acc[1] ELSE 0
            to == IF b - acc[1] < r.len THEN b - acc[1] ELSE r.len
        IN <<acc[1] + r.len, IF to > from THEN Push(acc[2], [r EXCEPT !.off = @ + from, !.len = to - from]) ELSE acc[2]>>
  IN FoldLeft(step, <<0, <<>>>>, runs)[2]
(* gain and sign relative to the first run that is not quiet *)
Loud(w) == {k \in 1 .. Len(w) : w[k].src # 0}
Relative(w) ==
  LET lead == IF Loud(w) = {} THEN w[1] ELSE w[CHOOSE k \in Loud(w) : \A j \in Loud(w) : k <= j]
  IN [k \in 1 .. Len(w) |-> [w[k] EXCEPT !.gain = @ - lead.gain, !.neg = (@ + lead.neg) % 2]]
(* At q times the internal rate (q a power of two, so that positions are exact) an item is a function   *)
(* of the frames that its converted samples come from; the converter's filter reaches no further than    *)
(* Reach converted samples.  Conversion of a shifted stream is the shifted conversion, because output     *)
(* positions fall on the same phase of the input.                                                        *)
Reach == 300
Window(c, q, runs, i, scaled) ==
  LET m == IF q = 1 THEN 0 ELSE Reach
      w == Clip(runs, q * (i * Hop(c) - m), q * (i * Hop(c) + Span(c) + m))
  IN IF scaled THEN Relative(w) ELSE w
(* items whose window begins within the stream *)
Whole(c, q, i) == q = 1 \/ i * Hop(c) >= Reach

(* ---- silence ---------------------------------------------------------------------------------------- *)
(* A frame of N samples of amplitude at most a has, by Parseval's identity and since the squares of the *)
(* Hamming window add up to less than 0.4 N, band energies that add up to at most a^2 0.2 N^2; weighted  *)
(* with coefficients that add up to `csum` eighths they stay below 0.01 * 32767^2 if                     *)
Quiet(c, a) == ((c.csum * c.frame * c.frame) \div 40) * a * a < 10736742
(* items made of rows of zeros: every ratio is 1 *)
Level(t, r) == IF r < t[1] THEN 0 ELSE IF r < t[2] THEN 1 ELSE IF r < t[3] THEN 2 ELSE 3
Gray == <<0, 1, 3, 2>>
SilentField(preset, q) == Gray[1 + Level(ClassifiersOf(preset)[q].t, 65536)]
Half(preset, from) == FoldLeft(LAMBDA a, q : 4 * a + SilentField(preset, q), 0, [j \in 1 .. 8 |-> from + j])
SilentItem(preset) == <<Half(preset, 0), Half(preset, 8)>>
AllQuiet(w) == \A k \in 1 .. Len(w) : w[k].src = 0

(* ---- similarity ------------------------------------------------------------------------------------- *)
RECURSIVE PopSlow(_)
PopSlow(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopSlow(x \div 2)
PopTable == TLCEval([x \in 0 .. 255 |-> PopSlow(x)])
Pop16(x) == PopTable[x % 256] + PopTable[x \div 256]
==============================================================================
