------------------------------- MODULE MCMatcher -------------------------------
(* The matcher as a state machine, exhaustively: phase "align" picks the offset, "cut" walks the        *)
(* overlap, "done".  Two families of inputs: MODE "pairs" - all pairs of short fingerprints over three  *)
(* items (equal hash, different low bits / different hash); MODE "profiles" - all error profiles made   *)
(* of Blocks blocks with lengths and levels from the given sets.                                        *)
EXTENDS Matcher
CONSTANTS MODE, MaxLen, Blocks, BLens, Levels

Alphabet == {<<5, 0>>, <<5, 1048575>>, <<3077, 0>>}
Seqs(n) == UNION {[1 .. k -> Alphabet] : k \in 0 .. n}
BlockSeqs == [1 .. Blocks -> BLens \X Levels]
Expand(bs) == FlattenSeq([k \in 1 .. Len(bs) |-> [j \in 1 .. bs[k][1] |-> bs[k][2]]])

VARIABLES f1, f2, phase, off, b, g, i, st
vars == <<f1, f2, phase, off, b, g, i, st>>

Init == /\ IF MODE = "pairs"
           THEN /\ f1 \in Seqs(MaxLen) /\ f2 \in Seqs(MaxLen) /\ phase = "align" /\ b = <<>> /\ g = <<>>
           ELSE /\ f1 = <<>> /\ f2 = <<>> /\ phase = "cut"
                /\ \E bs \in BlockSeqs : b = Expand(bs)
                /\ g = Gradient(Smoothed(b))
        /\ off = 0 /\ i = 0 /\ st = Start0

Align == /\ phase = "align"
         /\ LET a == Alignment(f1, f2) IN
            IF a[1] THEN /\ phase' = "cut" /\ off' = a[2]
                         /\ b' = Profile(f1, f2, a[2]) /\ g' = Gradient(Smoothed(b'))
                    ELSE phase' = "none" /\ UNCHANGED <<off, b, g>>
         /\ UNCHANGED <<f1, f2, i, st>>
Step == /\ phase = "cut" /\ i < Len(b)
        /\ st' \in StepAt(Prefix(b), g, i, st)
        /\ i' = i + 1 /\ UNCHANGED <<f1, f2, phase, off, b, g>>
End == /\ phase = "cut" /\ i = Len(b)
       /\ \E x \in EndAt(Prefix(b), Len(b), st) : st' = [st EXCEPT !.segs = x, !.begin = Len(b)]
       /\ phase' = "done" /\ UNCHANGED <<f1, f2, off, b, g, i>>
Next == Align \/ Step \/ End

Segs == st.segs
SumOf(s) == LET P == Prefix(b) IN P[s.at + s.len + 1] - P[s.at + 1]
(* C15 *)
WellFormed == \A k \in 1 .. Len(Segs) :
  /\ Segs[k].len > 0 /\ Segs[k].at >= 0 /\ Segs[k].at + Segs[k].len <= Len(b)
  /\ k > 1 => Segs[k - 1].at + Segs[k - 1].len <= Segs[k].at
  /\ Segs[k].sum = SumOf(Segs[k]) /\ Segs[k].sum < KeepBelow * Segs[k].len
InBoth == phase \in {"cut", "done"} /\ MODE = "pairs" =>
  \A k \in 1 .. Len(Segs) : /\ Off1(off) + Segs[k].at + Segs[k].len <= Len(f1)
                            /\ Off2(off) + Segs[k].at + Segs[k].len <= Len(f2)
(* C14 *)
AlignedWhenPossible == phase = "none" => \A d \in Offsets(f1, f2) : Coincidences(f1, f2, d) < 2
BestOffset == phase \in {"cut", "done"} /\ MODE = "pairs" =>
  /\ \A d \in Offsets(f1, f2) : Coincidences(f1, f2, d) <= Coincidences(f1, f2, off)
  /\ \A d \in Offsets(f1, f2) : d > off => Coincidences(f1, f2, d) < Coincidences(f1, f2, off)
(* C17 *)
Identity == phase = "done" /\ MODE = "pairs" /\ f1 = f2 /\ Len(f1) >= 2 =>
  off = 0 /\ Segs = << [at |-> 0, len |-> Len(f1), sum |-> 0] >>
IdentityMatches == phase = "none" => ~(f1 = f2 /\ Len(f1) >= 2)
(* C16: nothing that matches well is dropped: an item outside all segments lies in a stretch whose mean *)
(* is at least the limit; and bad stretches separate                                                    *)
NoGoodPieceDropped == phase = "done" =>
  LET ends == [k \in 0 .. Len(Segs) |-> IF k = 0 THEN 0 ELSE Segs[k].at + Segs[k].len]
  IN \A k \in 0 .. Len(Segs) :
       LET from == ends[k]  to == IF k = Len(Segs) THEN Len(b) ELSE Segs[k + 1].at
       IN from < to => Prefix(b)[to + 1] - Prefix(b)[from + 1] >= KeepBelow * (to - from)
JoinedWhenClose == phase = "done" =>
  \A k \in 2 .. Len(Segs) : Touch(Segs[k - 1], Segs[k]) => Segs[k].sum # Segs[k - 1].sum \/ Segs[k].len # Segs[k - 1].len
(* the functional form used on traces is this machine *)
SameAsOutcomes == phase = "done" => Segs \in Outcomes(b) /\ Explained(b, Segs)
(* number of cuts is visible in the state for coverage *)
Gaps == phase = "cut" => st.last < i
==============================================================================
