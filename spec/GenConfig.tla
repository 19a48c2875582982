-------------------------------- MODULE GenConfig --------------------------------
(* Builder call sequences: orders, repetitions, values that only make sense together with a later call. *)
EXTENDS Config, Rnd, Json, IOUtils, TLC
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
X(k, j) == LcgN((Seed + 401 * k + 7919 * j) % 65537, 4)
Rr(k, j, m) == Below(X(k, j), m)

Frames == <<4096, 3000, 2732, 2731, 2048, 1500, 1024, 1000, 640, 333, 256, 100, 65, 64>>
Overlaps == <<0, 1, 50, 64, 100, 255, 500, 999, 1024, 2000, 2730, 2731, 3000, 4000>>
Coefs(k, j) == LET n == 1 + Rr(k, j + 900, 13) IN [q \in 1 .. n |-> Rr(k, j + 910 + q, 8) + (IF q = 1 THEN 1 ELSE 0)]
OneCall(k, j) ==
  CASE Rr(k, j, 16) \in {0, 1, 2, 3} -> [op |-> "frame", v |-> Frames[1 + Rr(k, j + 100, 14)]]
    [] Rr(k, j, 16) \in {4, 5, 6, 7} -> [op |-> "overlap", v |-> Overlaps[1 + Rr(k, j + 200, 14)]]
    [] Rr(k, j, 16) \in {8, 9} -> [op |-> "coefs", v |-> Coefs(k, j)]
    [] Rr(k, j, 16) \in {10, 11} -> [op |-> "interp", v |-> Rr(k, j + 300, 2)]
    [] Rr(k, j, 16) \in {12, 13, 14} -> [op |-> "id", v |-> Rr(k, j + 400, 256)]
    [] OTHER -> [op |-> "silence", v |-> Rr(k, j + 500, 100)]
(* a configuration that cannot be used is mended by one more call *)
Mend(p, calls, k) ==
  LET c == Build(p, calls) IN
  IF Usable(c) THEN calls
  ELSE IF k % 2 = 0 THEN Append(calls, [op |-> "overlap", v |-> c.frame \div (2 + (k % 5))])
  ELSE Append(calls, [op |-> "frame", v |-> c.overlap + 1 + Rr(k, 800, 90)])
(* the same in the fewest calls and in a fixed order *)
Canonical(c) == << [op |-> "id", v |-> c.id], [op |-> "frame", v |-> c.frame], [op |-> "overlap", v |-> c.overlap],
                   [op |-> "coefs", v |-> c.coefs], [op |-> "interp", v |-> c.interp] >>
                \o (IF c.silence >= 0 THEN << [op |-> "silence", v |-> c.silence] >> ELSE <<>>)
Case(k) ==
  LET p == 1 + (k % 5)
      n == Rr(k, 1, 8)
      calls == Mend(p, [j \in 1 .. n |-> OneCall(k, 10 * j)], k)
      c == Build(p, calls)
  IN [preset |-> p, calls |-> calls, base |-> c.cls, canon |-> Canonical(c), hop |-> CHop(c), delay |-> CDelay(c)]
VARIABLE done
GInit == done = FALSE
GNext == ~done /\ ndJsonSerialize(IOEnv.OUT, [k \in 1 .. Count |-> Case(k)]) /\ done' = TRUE
=============================================================================
