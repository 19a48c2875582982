------------------------------ MODULE TraceMatcher ------------------------------
(* Records of real match_fingerprints calls.  PROP selects the judgement. *)
EXTENDS Matcher, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLE l

F1(r) == TLCEval([k \in 1 .. r.n1 |-> <<r.h1[k], r.l1[k]>>])
F2(r) == TLCEval([k \in 1 .. r.n2 |-> <<r.h2[k], r.l2[k]>>])

Aligned(r) ==   \* C14
  LET a == Alignment(F1(r), F2(r)) IN
  IF a[1] THEN \A k \in DOMAIN r.segs : r.segs[k].o1 - r.segs[k].o2 = a[2]
  ELSE r.segs = <<>>

Shape(r) ==   \* C15
  LET f1 == F1(r)  f2 == F2(r) IN
  \A k \in DOMAIN r.segs :
    LET s == r.segs[k]
        errs == [i \in 1 .. s.len |-> BitErrors(f1[s.o1 + i], f2[s.o2 + i])]
    IN /\ s.len > 0 /\ s.o1 >= 0 /\ s.o2 >= 0
       /\ s.o1 + s.len <= r.n1 /\ s.o2 + s.len <= r.n2
       /\ k > 1 => r.segs[k - 1].o1 + r.segs[k - 1].len <= s.o1 /\ r.segs[k - 1].o2 + r.segs[k - 1].len <= s.o2
       /\ s.err <= 1
       /\ s.sum = FoldLeft(LAMBDA x, y : x + y, 0, errs)
       /\ s.sum < KeepBelow * s.len

Cut(r) ==   \* C16
  LET f1 == F1(r)  f2 == F2(r)  a == Alignment(f1, f2) IN
  IF ~a[1] THEN r.segs = <<>>
  ELSE LET d == a[2]
           want == [k \in DOMAIN r.segs |-> [at |-> r.segs[k].o1 - Off1(d), len |-> r.segs[k].len, sum |-> r.segs[k].sum]]
       IN /\ \A k \in DOMAIN r.segs : r.segs[k].o1 - r.segs[k].o2 = d /\ r.segs[k].err <= 1
          /\ Explained(Profile(f1, f2, d), want)

(* C17: if one fingerprint is a stretch of the other and the alignment is unique, that stretch and only  *)
(* that stretch is reported with score 0                                                                *)
IsStretch(small, big, at) == \A k \in 1 .. Len(small) : small[k] = big[at + k]
Recognised(r) ==
  LET f1 == F1(r)  f2 == F2(r)
      best == BestOffsets(f1, f2)
      one(o1, o2, len) == /\ Len(r.segs) = 1
                          /\ r.segs[1].o1 = o1 /\ r.segs[1].o2 = o2 /\ r.segs[1].len = len
                          /\ r.segs[1].sum = 0 /\ r.segs[1].err = 0
  IN IF r.n1 = r.n2 /\ f1 = f2 THEN (r.n1 >= 2 => one(0, 0, r.n1))
     ELSE IF Cardinality(best) # 1 THEN TRUE
     ELSE LET d == CHOOSE x \in best : TRUE IN
          IF r.n2 < r.n1 /\ r.n2 >= 2 /\ d >= 0 /\ d + r.n2 <= r.n1 /\ IsStretch(f2, f1, d) THEN one(d, 0, r.n2)
          ELSE IF r.n1 < r.n2 /\ r.n1 >= 2 /\ d <= 0 /\ r.n1 - d <= r.n2 /\ IsStretch(f1, f2, -d) THEN one(0, -d, r.n1)
          ELSE TRUE

(* C18; long inputs whose last `tail` items coincide and no others: *)
Limits(r) ==
  /\ r.res = Outcome(r.n1, r.n2)
  /\ r.res # "ok" => r.segs = <<>>
  /\ r.res = "ok" /\ r.tail >= 60 /\ r.tail <= r.n1 /\ r.tail <= r.n2 =>
       (* a segment reaches the end of both, and all of them are on that alignment *)
       /\ Len(r.segs) > 0
       /\ \A k \in DOMAIN r.segs : r.segs[k].o1 - r.segs[k].o2 = r.n1 - r.n2
       /\ LET z == r.segs[Len(r.segs)] IN z.o1 + z.len = r.n1
  /\ r.res = "ok" /\ r.tail = 0 => r.segs = <<>>

(* ---- long fingerprints ------------------------------------------------------------------------------ *)
(* The record does not carry the items but how they were made: at the relative offset d the items differ *)
(* by RUNS, a list of <<length, bits>>, and `same`, `above`, `below` are the coincidences there, at the  *)
(* best larger and at the best smaller offset.  A run longer than 2 * Margin is cut out of the middle:   *)
(* smoothing reaches 47 items and a gradient one more, so nothing happens there.                         *)
Margin == 60
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Starts(ls) == [k \in 1 .. Len(ls) + 1 |-> FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(ls, 1, k - 1))]
LongAt(r) == Starts([k \in DOMAIN r.runs |-> r.runs[k][1]])
Small(len) == IF len > 2 * Margin THEN 2 * Margin ELSE len
SmallAt(r) == Starts([k \in DOMAIN r.runs |-> Small(r.runs[k][1])])
SmallProfile(r) ==
  FoldLeft(LAMBDA acc, x : acc \o [k \in 1 .. Small(x[1]) |-> x[2]], <<>>, r.runs)
LongSize(r) == LongAt(r)[Len(r.runs) + 1]
(* bit errors of the items [from, to) of the overlap *)
LongErrors(r, from, to) ==
  LET at == LongAt(r)
      part(k) == LET a == IF at[k] > from THEN at[k] ELSE from
                     c == IF at[k + 1] < to THEN at[k + 1] ELSE to
                 IN IF c > a THEN (c - a) * r.runs[k][2] ELSE 0
  IN Sum([k \in DOMAIN r.runs |-> part(k)])
(* where a position of the overlap is in the small profile; -1: in the middle of a run *)
Shrunk(r, x) ==
  LET at == LongAt(r)  sm == SmallAt(r)  n == LongSize(r)
      run == IF x = n THEN Len(r.runs) ELSE CHOOSE k \in DOMAIN r.runs : at[k] <= x /\ x < at[k + 1]
  IN IF x < 0 \/ x > n THEN -1
     ELSE IF x - at[run] <= Margin THEN sm[run] + (x - at[run])
     ELSE IF at[run + 1] - x <= Margin THEN sm[run + 1] - (at[run + 1] - x)
     ELSE -1
Decided(r) == r.same > 1 /\ r.same > r.above /\ r.same >= r.below

LongAligned(r) == Decided(r) => \A k \in DOMAIN r.segs : r.segs[k].o1 - r.segs[k].o2 = r.d
LongShape(r) ==
  \A k \in DOMAIN r.segs :
    LET s == r.segs[k]  at == s.o1 - Off1(r.d) IN
    /\ s.len > 0 /\ s.o1 >= 0 /\ s.o2 >= 0 /\ s.o1 <= r.n1 - s.len /\ s.o2 <= r.n2 - s.len
    /\ k > 1 => r.segs[k - 1].o1 + r.segs[k - 1].len <= s.o1 /\ r.segs[k - 1].o2 + r.segs[k - 1].len <= s.o2
    /\ s.err <= 1
    /\ s.sum < KeepBelow * s.len
    /\ s.o1 - s.o2 = r.d => s.sum = LongErrors(r, at, at + s.len)
(* the specification's segments are those of the small profile: runs differ by so much that each step is cut and *)
(* never joined again, and whether a piece is kept does not depend on its length;                        *)
(* or there is one step, which is too small for a cut or not, between two runs both kept or both dropped *)
Plain(r) == \A k \in 1 .. Len(r.runs) - 1 : Abs(r.runs[k][2] - r.runs[k + 1][2]) >= 4 /\ r.runs[k][1] > 2 * Margin
Flat(r) == Len(r.runs) = 2 /\ (r.runs[1][2] < KeepBelow <=> r.runs[2][2] < KeepBelow) /\ \A k \in 1 .. 2 : r.runs[k][1] > 2 * Margin
LongCut(r) ==
  Decided(r) /\ (Plain(r) \/ Flat(r)) =>
    LET b == TLCEval(SmallProfile(r))
        P == Prefix(b)
        cut(s) == LET x == Shrunk(r, s.o1 - Off1(r.d))  y == Shrunk(r, s.o1 - Off1(r.d) + s.len) IN
                  IF x < 0 \/ y <= x THEN [at |-> -1, len |-> 0, sum |-> 0]
                  ELSE Piece(P, x, y)
    IN /\ \A k \in DOMAIN r.segs : r.segs[k].o1 - r.segs[k].o2 = r.d
       /\ Explained(b, [k \in DOMAIN r.segs |-> cut(r.segs[k])])
LongRecognised(r) ==
  LET n == LongSize(r) IN
  Decided(r) /\ (r.same > r.below \/ r.n1 = r.n2) /\ n >= 2 /\ (n = r.n1 \/ n = r.n2) /\ (\A k \in DOMAIN r.runs : r.runs[k][2] = 0) =>
    /\ Len(r.segs) = 1
    /\ r.segs[1].o1 = Off1(r.d) /\ r.segs[1].o2 = Off2(r.d) /\ r.segs[1].len = n
    /\ r.segs[1].sum = 0 /\ r.segs[1].err = 0

RecOK(r) ==
  CASE r.ev = "match" -> /\ r.res = "ok"
                         /\ PROP = "C14" => Aligned(r)
                         /\ PROP = "C15" => Shape(r)
                         /\ PROP = "C16" => Cut(r)
                         /\ PROP = "C17" => Recognised(r)
    [] r.ev = "matchlong" -> /\ r.res = "ok"
                             /\ PROP = "C14" => LongAligned(r)
                             /\ PROP = "C15" => LongShape(r)
                             /\ PROP = "C16" => LongCut(r)
                             /\ PROP = "C17" => LongRecognised(r)
    [] r.ev = "matchlen" -> Limits(r)

TInit == l = 0
TNext == l < Len(Trace) /\ l' = l + 1
Accepted == l > 0 => RecOK(Trace[l])
==============================================================================
