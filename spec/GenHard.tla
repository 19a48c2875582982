-------------------------------- MODULE GenHard --------------------------------
(* A search, on the specification, for error profiles at the corners of the cutting: peaks as close as     *)
(* possible, gradients just above and just below the threshold, peaks next to the ends, pieces and pairs   *)
(* of pieces exactly at and next to the limits.  Prints each find.           *)
EXTENDS Matcher, Rnd, Json, IOUtils
Seed == atoi(IOEnv.SEED)
Tries == atoi(IOEnv.TRIES)
VARIABLE k
X(kk, j) == LcgN((Seed + 131 * kk + 8191 * j) % 65537, 4)
Rr(kk, j, m) == Below(X(kk, j), m)
Two(kk) == (Seed * 7 + kk \div 65537) % 1000
(* steps of 0..32 bits with noise of several sizes *)
Prof(kk) ==
  LET n == 3 + Rr(kk, 1, 58)
      d == Draws(X(kk, 2 + Two(kk)), 2 * n + 2, <<>>)
      x == Below(d[2 * n + 1], n)  y == Below(d[2 * n + 2], n)
      lo == Rr(kk, 3, 12)  hi == 12 + Rr(kk, 4, 21)
      amp == <<1, 2, 4, 12, 33>>[1 + Rr(kk, 5, 5)]
      base(i) == IF Rr(kk, 6, 3) = 0 THEN (IF (i < x) # (i < y) THEN hi ELSE lo) ELSE IF i < x THEN lo ELSE hi
      clip(v) == IF v < 0 THEN 0 ELSE IF v > 32 THEN 32 ELSE v
  IN CASE kk % 4 = 0 -> [i \in 1 .. n |-> IF Below(d[i], 2) = 0 THEN 0 ELSE 32]
       [] kk % 4 = 1 -> [i \in 1 .. n |-> IF (IF i > x THEN i - x ELSE x - i) < 12
                                          THEN (IF Below(d[i], 2) = 0 THEN 0 ELSE 32) ELSE base(i)]
       [] OTHER -> [i \in 1 .. n |-> clip(base(i) + Below(d[i], amp) - amp \div 2)]
Musts(g) == SelectSeq([i \in 1 .. Len(g) |-> i - 1], LAMBDA i : PeakMust(g, i))
(* pieces between the certain peaks, when nothing is left to rounding *)
Certain(g) == \A i \in 0 .. Len(g) - 1 : PeakMay(g, i) => PeakMust(g, i)
Pieces(b, m) ==
  LET P == Prefix(b)
      ends == Append(m, Len(b))
  IN [j \in 1 .. Len(ends) |-> Piece(P, IF j = 1 THEN 0 ELSE ends[j - 1], ends[j])]
Goals(b) ==
  LET g == Gradient(Smoothed(b))
      n == Len(g)
      m == Musts(g)
      (* twice the limit 3/20 over 2 * Den *)
      off(i) == g[i + 1] * GradDen - GradNum * 2 * Den
      gap(q) == \E j \in 1 .. Len(m) - 1 : m[j + 1] - m[j] = q
      top(i) == i > 0 /\ i < n - 1 /\ g[i + 1] > g[i] /\ g[i + 1] > g[i + 2]
      ps == Pieces(b, m)
  IN (IF gap(2) THEN {"apart2"} ELSE {}) \cup (IF gap(3) THEN {"apart3"} ELSE {})
     \cup (IF \E i \in 0 .. n - 1 : top(i) /\ off(i) > 0 /\ off(i) <= 400 THEN {"above"} ELSE {})
     \cup (IF \E i \in 0 .. n - 1 : top(i) /\ off(i) < 0 /\ off(i) >= -400 THEN {"below"} ELSE {})
     \cup (IF \E j \in 1 .. Len(m) : m[j] = 1 \/ m[j] = n - 2 THEN {"edge"} ELSE {})
     \cup (IF n > 2 /\ Steep(g[1]) /\ g[1] > g[2] THEN {"first"} ELSE {})
     \cup (IF n > 2 /\ Steep(g[n]) /\ g[n] > g[n - 1] THEN {"last"} ELSE {})
     \cup (IF \E i \in 1 .. n - 2 : Steep(g[i + 1]) /\ g[i + 1] = g[i + 2] /\ (i = 1 \/ g[i] < g[i + 1])
                                    /\ i + 2 < n /\ g[i + 3] < g[i + 2] THEN {"plateau"} ELSE {})
     \cup (IF Certain(g) /\ Len(m) > 0 THEN
             (IF \E j \in DOMAIN ps : ps[j].sum = KeepBelow * ps[j].len THEN {"atkeep"} ELSE {})
             \cup (IF \E j \in DOMAIN ps : ps[j].sum = KeepBelow * ps[j].len - 1 THEN {"underkeep"} ELSE {})
             \cup (IF \E j \in 1 .. Len(ps) - 1 : /\ Kept(ps[j]) /\ Kept(ps[j + 1])
                        /\ LET x == Dist(ps[j], ps[j + 1]) - Limit(ps[j], ps[j + 1])
                           IN x <= 0 /\ x > -(ps[j].len + ps[j + 1].len) * JoinDen THEN {"underjoin"} ELSE {})
             \cup (IF \E j \in 1 .. Len(ps) - 1 : /\ Kept(ps[j]) /\ Kept(ps[j + 1])
                        /\ LET x == Dist(ps[j], ps[j + 1]) - Limit(ps[j], ps[j + 1])
                           IN x > 0 /\ x <= (ps[j].len + ps[j + 1].len) * JoinDen THEN {"overjoin"} ELSE {})
             \cup (IF Len(m) >= 3 THEN {"three"} ELSE {})
             \cup (IF \E j \in 1 .. Len(ps) - 2 : Kept(ps[j]) /\ Kept(ps[j + 1]) /\ Kept(ps[j + 2]) THEN {"chain"} ELSE {})
           ELSE {})
Alignable(b) == Cardinality({i \in DOMAIN b : b[i] <= 20}) >= 3
Init == k \in 1 .. 64
Next == k + 64 <= Tries /\ k' = k + 64
Report ==
  LET b == TLCEval(Prof(k)) IN
  Alignable(b) => LET gs == Goals(b) IN gs # {} => PrintT(<<"HARD", ToJson([goals |-> SetToSeq(gs), b |-> b])>>)
==============================================================================
