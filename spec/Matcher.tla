-------------------------------- MODULE Matcher --------------------------------
(* match_fingerprints: alignment by coincidences, bit-error profile, smoothing, cutting at gradient     *)
(* peaks, keeping and joining of pieces.  All arithmetic is exact: the smoothed profile has the common *)
(* denominator 15*15*17 = 3825 and its gradient 7650, so that the threshold 0.15 lies strictly between *)
(* two values.  The implementation computes in floating point; where two exact values are equal and    *)
(* only rounding decides, the specification allows both outcomes.                                       *)
(* An item is a pair <<h, l>>: its top 12 and its low 20 bits.  Positions count from 0.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

RealWidths == <<15, 15, 17>>
CONSTANTS TooLong, Widths, GradNum, GradDen, KeepBelow, JoinNum, JoinDen
(* real values: 524286, <<15, 15, 17>>, 3/20 (=0.15), 10, 7/10 *)

(* ---- bit errors ----------------------------------------------------------------------------------- *)
RECURSIVE PopSlow(_)
PopSlow(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopSlow(x \div 2)
PopTable == TLCEval([x \in 0 .. 1023 |-> PopSlow(x)])
Pop(x) == PopTable[x % 1024] + PopTable[x \div 1024]       \* x < 2^20
BitErrors(a, b) == Pop(a[1] ^^ b[1]) + Pop(a[2] ^^ b[2])

(* ---- alignment -------------------------------------------------------------------------------------- *)
(* a relative offset d pairs item i of the first with item i - d of the second *)
Lo(d) == IF d > 0 THEN d ELSE 0
Coincidences(f1, f2, d) ==
  LET hi == IF Len(f1) < Len(f2) + d THEN Len(f1) ELSE Len(f2) + d
  IN Cardinality({i \in Lo(d) .. hi - 1 : f1[i + 1][1] = f2[i - d + 1][1]})
Offsets(f1, f2) == 1 - Len(f2) .. Len(f1) - 1
OffsetSeq(f1, f2) == IF Len(f1) + Len(f2) = 0 THEN <<>> ELSE [k \in 1 .. Len(f1) + Len(f2) - 1 |-> k - Len(f2)]
(* The same counts another way, for fingerprints with long runs of items of one hash: two runs [a, b) and  *)
(* [c, e) of the same hash coincide at offset d in as many places as [a, b) and [c + d, e + d) share.     *)
HashRuns(f) ==
  LET add(acc, i) == IF acc # <<>> /\ acc[Len(acc)][1] = f[i][1] THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2], i>>]
                     ELSE Append(acc, <<f[i][1], i - 1, i>>)
  IN FoldLeft(add, <<>>, [i \in 1 .. Len(f) |-> i])
Shared(x, y, d) ==
  LET hi == IF x[3] < y[3] + d THEN x[3] ELSE y[3] + d
      lo == IF x[2] > y[2] + d THEN x[2] ELSE y[2] + d
  IN IF x[1] = y[1] /\ hi > lo THEN hi - lo ELSE 0
RunPairs(r1, r2) == {p \in (DOMAIN r1) \X (DOMAIN r2) : r1[p[1]][1] = r2[p[2]][1]}
ByRuns(r1, r2, pairs, d) ==
  FoldLeft(LAMBDA acc, p : acc + Shared(r1[p[1]], r2[p[2]], d), 0, pairs)
Counts(f1, f2) ==
  LET r1 == TLCEval(HashRuns(f1))  r2 == TLCEval(HashRuns(f2)) IN
  IF Len(r1) * Len(r2) > 64 * 64 THEN TLCEval([d \in Offsets(f1, f2) |-> Coincidences(f1, f2, d)])
  ELSE LET pairs == TLCEval(SetToSeq(RunPairs(r1, r2)))
       IN TLCEval([d \in Offsets(f1, f2) |-> ByRuns(r1, r2, pairs, d)])
(* <<found, offset>>: most coincidences (at least two), the largest offset among equals *)
Alignment(f1, f2) ==
  LET c == Counts(f1, f2)
      best(acc, d) == IF c[d] > 1 /\ (~acc[1] \/ c[d] >= acc[3]) THEN <<TRUE, d, c[d]>> ELSE acc
      r == FoldLeft(best, <<FALSE, 0, 0>>, OffsetSeq(f1, f2))
  IN <<r[1], r[2]>>
(* offsets with as many coincidences as the best one *)
BestOffsets(f1, f2) ==
  LET c == Counts(f1, f2)
      m == FoldLeft(LAMBDA a, d : IF c[d] > a THEN c[d] ELSE a, 0, OffsetSeq(f1, f2))
  IN IF m < 2 THEN {} ELSE {d \in Offsets(f1, f2) : c[d] = m}

Off1(d) == IF d > 0 THEN d ELSE 0
Off2(d) == IF d < 0 THEN -d ELSE 0
Overlap(f1, f2, d) ==
  LET a == Len(f1) - Off1(d)  b == Len(f2) - Off2(d) IN IF a < b THEN a ELSE b
Profile(f1, f2, d) ==
  TLCEval([i \in 1 .. Overlap(f1, f2, d) |-> BitErrors(f1[Off1(d) + i], f2[Off2(d) + i])])

(* ---- smoothing: three box passes with mirrored ends (each end sample repeated once) ------------- *)
Mirror(k, n) == LET m == k % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m     \* k any integer, from 0
RECURSIVE SumBox(_, _, _, _)
SumBox(x, n, from, count) ==
  IF count = 0 THEN 0 ELSE x[Mirror(from, n) + 1] + SumBox(x, n, from + 1, count - 1)
(* running sums: the window of output i starts at i - w \div 2 *)
RECURSIVE BoxRun(_, _, _, _, _)
BoxRun(x, n, w, i, acc) ==
  IF i = n THEN acc
  ELSE LET s == acc[Len(acc)]
           t == s + x[Mirror(i - w \div 2 + w - 1, n) + 1] - x[Mirror(i - w \div 2 - 1, n) + 1]
       IN BoxRun(x, n, w, i + 1, Append(acc, t))
Box(x, w) == IF x = <<>> THEN <<>> ELSE BoxRun(x, Len(x), w, 1, <<SumBox(x, Len(x), -(w \div 2), w)>>)
RECURSIVE Boxes(_, _)
Boxes(x, ws) == IF ws = <<>> THEN x ELSE Boxes(TLCEval(Box(x, Head(ws))), Tail(ws))
Smoothed(b) == Boxes(b, Widths)
Den == FoldLeft(LAMBDA a, w : a * w, 1, Widths)

Abs(x) == IF x < 0 THEN -x ELSE x
(* absolute gradient, numerator over 2 * Den *)
Gradient(x) ==
  LET n == Len(x) IN
  TLCEval([i \in 1 .. n |->
    IF n = 1 THEN 0
    ELSE IF i = 1 THEN 2 * Abs(x[2] - x[1])
    ELSE IF i = n THEN 2 * Abs(x[n] - x[n - 1])
    ELSE Abs(x[i + 1] - x[i - 1])])
Steep(g) == g * GradDen > GradNum * 2 * Den

(* can position i (from 0) be a peak; must it *)
PeakMay(g, i)  == i > 0 /\ i < Len(g) - 1 /\ Steep(g[i + 1]) /\ g[i + 1] >= g[i] /\ g[i + 1] >= g[i + 2]
PeakMust(g, i) == PeakMay(g, i) /\ g[i + 1] > g[i] /\ g[i + 1] > g[i + 2]

(* ---- pieces ------------------------------------------------------------------------------------------ *)
Prefix(b) == LET add(acc, x) == Append(acc, acc[Len(acc)] + x) IN TLCEval(FoldLeft(add, <<0>>, b))
(* a segment is [at, len, sum]: position along the overlap, items, bit errors *)
Piece(P, from, to) == [at |-> from, len |-> to - from, sum |-> P[to + 1] - P[from + 1]]
Kept(pc) == pc.len > 0 /\ pc.sum < KeepBelow * pc.len
(* compare the scores sum/len of two segments: is their distance below 7/10 *)
Dist(a, c) == Abs(a.sum * c.len - c.sum * a.len) * JoinDen
Limit(a, c) == JoinNum * a.len * c.len
Touch(a, c) == a.at + a.len = c.at
Join(a, c) == [at |-> a.at, len |-> a.len + c.len, sum |-> a.sum + c.sum]
(* the ways of adding a kept piece to a list of segments (two only when the distance is exactly 7/10) *)
Add(segs, pc) ==
  IF segs = <<>> THEN {Append(segs, pc)}
  ELSE LET z == segs[Len(segs)]
           joined == [segs EXCEPT ![Len(segs)] = Join(z, pc)]
       IN IF ~Touch(z, pc) THEN {Append(segs, pc)}
          ELSE IF Dist(z, pc) < Limit(z, pc) THEN {joined}
          ELSE IF Dist(z, pc) = Limit(z, pc) THEN {joined, Append(segs, pc)}
          ELSE {Append(segs, pc)}
Close(segs, pc) == IF Kept(pc) THEN Add(segs, pc) ELSE {segs}

(* ---- the cutting as a state machine over positions -------------------------------------------------- *)
(* a state: [last: position of the last peak or -9, begin: start of the open piece, segs]               *)
Start0 == [last |-> -9, begin |-> 0, segs |-> <<>>]
StepAt(P, g, i, st) ==
  LET cut == {[last |-> i, begin |-> i, segs |-> x] : x \in Close(st.segs, Piece(P, st.begin, i))}
      free == st.last + 1 < i
  IN IF free /\ PeakMust(g, i) THEN cut
     ELSE IF free /\ PeakMay(g, i) THEN cut \cup {st}
     ELSE {st}
EndAt(P, n, st) == Close(st.segs, Piece(P, st.begin, n))

(* Could `segs` still become `want`?  All but its last segment are final. *)
Towards(segs, want) ==
  LET k == Len(segs) IN
  /\ k <= Len(want)
  /\ k > 1 => SubSeq(segs, 1, k - 1) = SubSeq(want, 1, k - 1)
  /\ k > 0 => segs[k].at = want[k].at /\ segs[k].len <= want[k].len
RECURSIVE Walk(_, _, _, _, _, _, _)
(* prune: drop states that cannot become `want` *)
Walk(P, g, n, i, S, prune, want) ==
  IF i = n THEN {x \in UNION {EndAt(P, n, st) : st \in S} : prune => x = want}
  ELSE Walk(P, g, n, i + 1,
            IF PeakMay(g, i)
            THEN TLCEval({st \in UNION {StepAt(P, g, i, s0) : s0 \in S} : prune => Towards(st.segs, want)})
            ELSE S,
            prune, want)
(* every result the specification allows for an error profile *)
Outcomes(b) == Walk(Prefix(b), Gradient(Smoothed(b)), Len(b), 0, {Start0}, FALSE, <<>>)
(* is `want` one of them (other branches are dropped on the way) *)
Explained(b, want) == Walk(Prefix(b), Gradient(Smoothed(b)), Len(b), 0, {Start0}, TRUE, want) # {}

(* ---- the whole function ------------------------------------------------------------------------------ *)
Outcome(n1, n2) == IF n1 >= TooLong THEN "long0" ELSE IF n2 >= TooLong THEN "long1" ELSE "ok"
==============================================================================
