--------------------------------- MODULE Times ---------------------------------
(* Positions of items as times, and how the compare program prints them.  An item lasts hop / 11025     *)
(* seconds.  Times are pairs <<seconds, microseconds>>.                                                  *)
EXTENDS Integers, Sequences, TLC

Native == 11025
(* k items, k * hop < 2^31 *)
TimeOf(k, hop) == LET t == k * hop IN <<t \div Native, ((t % Native) * 40000) \div 441>>
Plus(a, b) == LET u == a[2] + b[2] IN <<a[1] + b[1] + u \div 1000000, u % 1000000>>
(* the implementation computes in single precision: three roundings of 2^-24 each, below 0.2 us per second *)
Tol(t) == t[1] \div 5 + 3
AbsU(x) == IF x < 0 THEN -x ELSE x
(* |a - b| <= tol microseconds, for times that differ by less than half an hour *)
Near(a, b, tol) == /\ AbsU(a[1] - b[1]) < 1800
                   /\ AbsU((a[1] - b[1]) * 1000000 + a[2] - b[2]) <= tol
SameTime(a, b) == Near(a, b, Tol(b))

(* [o1, o2, len] -> start1, end1, start2, end2, duration *)
SegmentTimes(s, hop) ==
  LET d == TimeOf(s.len, hop)
      a == TimeOf(s.o1, hop)
      b == TimeOf(s.o2, hop)
  IN <<a, Plus(a, d), b, Plus(b, d), d>>

(* ---- print ------------------------------------------------------------------------------------------ *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
(* H:MM:SS.cc of a number of hundredths *)
Clock(c) ==
  LET s == c \div 100 IN
  ToString(s \div 3600) \o ":" \o Pad2((s % 3600) \div 60) \o ":" \o Pad2(s % 60) \o "." \o Pad2(c % 100)
(* hundredths nearest to a time: several where the tolerance reaches over a half *)
Hundredths(t) == t[1] * 100 + (t[2] - Tol(t) + 5000) \div 10000 .. t[1] * 100 + (t[2] + Tol(t) + 5000) \div 10000
Clocks(t) == {Clock(c) : c \in Hundredths(t)}
(* sum / len to two decimals *)
Decimals(q) == ToString(q \div 100) \o "." \o Pad2(q % 100)
Scores(sum, len) ==
  LET x == 200 * sum  q == (x + len) \div (2 * len) IN
  IF (x + len) % (2 * len) = 0 THEN {Decimals(q), Decimals(q - 1)} ELSE {Decimals(q)}
(* the cells of the k-th row for a segment *)
RowOK(row, k, s, hop) ==
  LET t == SegmentTimes(s, hop) IN
  /\ Len(row) = 7
  /\ row[1] = ToString(k)
  /\ \A j \in 1 .. 5 : row[j + 1] \in Clocks(t[j])
  /\ row[7] \in Scores(s.sum, s.len)
==============================================================================
