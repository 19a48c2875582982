-------------------------------- MODULE MCTimes --------------------------------
(* Sanity of Times: times are additive and monotone, the clock is read back, tolerances stay far below  *)
(* an item.                                                                                              *)
EXTENDS Times, FiniteSets
CONSTANTS Hops, Counts, Centis
VARIABLES k, hop, c
Init == k \in Counts /\ hop \in Hops /\ c \in Centis
Next == UNCHANGED <<k, hop, c>>
Micro(t) == t[1] * 1000000 + t[2]      \* only for small times
Additive == LET a == TimeOf(k, hop)  b == TimeOf(k + 1, hop)  d == TimeOf(1, hop)
            IN Near(b, Plus(a, d), 2)
Truth == LET t == TimeOf(k, hop) IN /\ t[1] * Native <= k * hop /\ k * hop < (t[1] + 1) * Native
                                    /\ t[2] \in 0 .. 999999
Sharp == k < 524286 => 2 * Tol(TimeOf(k, hop)) < Micro(TimeOf(1, hop)) \/ hop < 600
Rounded == LET t == TimeOf(k, hop)  H == Hundredths(t) IN
             /\ \E x \in H : AbsU((x - t[1] * 100) * 10000 - t[2]) <= 5000
             /\ t[1] < 7200 => Cardinality(H) <= 2
ClockInjective == Clock(c) # Clock(c + 1) /\ Clock(c) # Clock(c + 6000) /\ Clock(c) # Clock(c + 360000)
==============================================================================
