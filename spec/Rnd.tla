--------------------------------- MODULE Rnd ---------------------------------
(* Deterministic pseudo-random numbers (Lehmer-style generator modulo the Fermat prime 65537), so that *)
(* generated behaviours depend on the seed handed in through the environment and on nothing else.      *)
EXTENDS Integers, Sequences
Lcg(x) == (75 * x + 74) % 65537
RECURSIVE LcgN(_, _)
LcgN(x, k) == IF k = 0 THEN x ELSE LcgN(Lcg(x), k - 1)
(* a number below m (m <= 4096) drawn from generator state x *)
Below(x, m) == (x \div 3) % m
(* n generator states, starting after x *)
RECURSIVE Draws(_, _, _)
Draws(x, n, acc) == IF n = 0 THEN acc ELSE LET y == Lcg(x) IN Draws(y, n - 1, Append(acc, y))
==============================================================================
