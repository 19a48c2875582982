------------------------------- MODULE GenMatcher -------------------------------
(* Pairs of fingerprints for the real matcher, built around the structure of the specification: an      *)
(* aligned core with a block-wise error profile, surrounded by unrelated items; ties of the alignment;  *)
(* excerpts; short arbitrary pairs.                                                                      *)
EXTENDS Integers, Sequences, SequencesExt, Rnd, Json, IOUtils, TLC, Bitwise

Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)

X(k, j) == LcgN((Seed + 257 * k + 8191 * j) % 65537, 4)     \* j-th random state of case k
Rr(k, j, m) == Below(X(k, j), m)

(* unrelated items *)
Junk(k, j, n) == LET d == Draws(X(k, j), 2 * n, <<>>) IN
                 [i \in 1 .. n |-> <<Below(d[2 * i], 4096), d[2 * i - 1] * 15>>]
(* core items: hashes mostly distinct; PERIOD > 0 repeats them *)
Core(k, n, period) == LET d == Draws(X(k, 50), n, <<>>) IN
                 [i \in 1 .. n |-> <<(IF period = 0 THEN i * 37 + k ELSE (i % period) * 11) % 4096, d[i] * 15>>]
(* an item with e errors: in the low bits while they last (the hash still coincides), then in the hash *)
RECURSIVE LowBits(_, _, _)
LowBits(e, from, acc) == IF e = 0 THEN acc ELSE LowBits(e - 1, from + 1, acc + 2^((from * 7) % 20))
Flip(it, e, r) ==
  LET low == IF e > 20 THEN 20 ELSE e
      hb == e - low
  IN <<it[1] ^^ (2^hb - 1), it[2] ^^ LowBits(low, r, 0)>>
(* error level of position i: block levels with jitter, in tenths *)
BlockLens(k, m) == [j \in 1 .. m |-> 1 + Rr(k, 100 + j, IF k % 3 = 0 THEN 12 ELSE IF k % 3 = 1 THEN 35 ELSE 70)]
BlockLvl(k, m) ==
  LET base == Rr(k, 7, 60) IN
  [j \in 1 .. m |->
    CASE k % 5 = 0 -> <<0, 160, 20, 140, 300>>[1 + Rr(k, 200 + j, 5)]
      [] k % 5 = 1 -> 85 + Rr(k, 200 + j, 30)                 \* around the keep limit
      [] k % 5 = 2 -> base + 4 * Rr(k, 200 + j, 10)           \* steps around the join distance
      [] k % 5 = 3 -> <<0, 7, 14, 110, 60, 67>>[1 + Rr(k, 200 + j, 6)]
      [] OTHER -> 10 * Rr(k, 200 + j, 33)]
Levels(k) ==
  LET m == 1 + Rr(k, 9, 6)
      ls == BlockLens(k, m)  vs == BlockLvl(k, m)
  IN FlattenSeq([j \in 1 .. m |-> [q \in 1 .. ls[j] |-> vs[j]]])
Dither(k, lv) ==
  LET d == Draws(X(k, 60), Len(lv), <<>>) IN
  [i \in 1 .. Len(lv) |-> LET x == lv[i] \div 10 + (IF Below(d[i], 10) < lv[i] % 10 THEN 1 ELSE 0)
                          IN IF k % 2 = 0 THEN x ELSE IF x = 0 \/ x > 30 THEN x ELSE x - 1 + (2 * (i % 2))]
Blocks(k) ==
  LET lv == Dither(k, Levels(k))
      n  == Len(lv)
      core == Core(k, n, IF k % 7 = 6 THEN 5 + Rr(k, 11, 40) ELSE 0)
      copy == [i \in 1 .. n |-> Flip(core[i], lv[i], i + k)]
      a == Rr(k, 1, 30)  b == Rr(k, 2, 30)
      c == Rr(k, 3, 12)  d == Rr(k, 4, 12)
  IN [kind |-> "blocks", a |-> Junk(k, 1, a) \o core \o Junk(k, 2, c), b |-> Junk(k, 3, b) \o copy \o Junk(k, 4, d)]

(* short arbitrary pairs over few items *)
Small(k) ==
  LET alpha == << <<5, 0>>, <<5, 1048575>>, <<3077, 0>>, <<5, 31>>, <<9, 77>> >>
      w(j, n) == LET d == Draws(X(k, j), n, <<>>) IN [i \in 1 .. n |-> alpha[1 + Below(d[i], 2 + (k % 4))]]
  IN [kind |-> "small", a |-> w(1, Rr(k, 3, 14)), b |-> w(2, Rr(k, 4, 14))]

(* excerpts and the thing itself; hashes distinct or repeating *)
Excerpt(k) ==
  LET n == 1 + Rr(k, 1, 90)
      f == Core(k, n, IF k % 4 = 3 THEN 3 + Rr(k, 2, 60) ELSE 0)
      at == Rr(k, 3, n)
      len == 1 + Rr(k, 4, n - at)
      e == IF k % 5 = 0 THEN f ELSE SubSeq(f, at + 1, at + len)
  IN IF k % 2 = 0 THEN [kind |-> "excerpt", a |-> f, b |-> e] ELSE [kind |-> "excerpt", a |-> e, b |-> f]

(* two alignments with equally many coincidences *)
Tie(k) ==
  LET n == 2 + Rr(k, 1, 20)
      f == Core(k, n, 0)
      gap == Rr(k, 2, 15)
      g == f \o Junk(k, 5, gap) \o f
      z == Junk(k, 6, Rr(k, 3, 9)) \o f \o Junk(k, 7, Rr(k, 4, 9))
  IN IF k % 3 = 0 THEN [kind |-> "tie", a |-> g, b |-> z]
     ELSE IF k % 3 = 1 THEN [kind |-> "tie", a |-> z, b |-> g]
     ELSE [kind |-> "tie", a |-> [i \in 1 .. n |-> f[1]], b |-> [i \in 1 .. 1 + Rr(k, 8, 30) |-> f[1]]]

(* profiles found by GenHard, exactly: nothing around them *)
HardFile == ndJsonDeserialize(IOEnv.HARD)
Hard(j) ==
  LET b == HardFile[j].b
      core == Core(j, Len(b), 0)
  IN [kind |-> "hard", a |-> core, b |-> [i \in 1 .. Len(b) |-> Flip(core[i], b[i], i + j)]]

(* few items, each many times over: recordings that are constant, silent or periodic for minutes *)
RunLens == <<1, 2, 3, 40, 300, 999, 1000, 1001, 1002, 1400, 1700>>
RunOf(k, j) ==
  LET n == RunLens[1 + Rr(k, j, 11)]
      h == <<5, 77, 5, 3000>>[1 + Rr(k, j + 1, 4)]
      p == 1 + Rr(k, j + 2, 3)
  IN [i \in 1 .. n |-> <<h + (IF k % 3 = 0 THEN i % p ELSE 0), 4096 * Rr(k, j + 3, 200)>>]
Runs(k) ==
  LET a == FlattenSeq([q \in 1 .. 1 + Rr(k, 1, 3) |-> RunOf(k, 10 * q)])
      at == Rr(k, 2, Len(a))
      part == SubSeq(a, at + 1, at + 1 + Rr(k, 3, Len(a) - at))
      noisy == [i \in 1 .. Len(part) |-> Flip(part[i], ((i \div 200) % 3) + (5 * (k % 2)), k)]
  IN CASE k % 4 = 0 -> [kind |-> "runs", a |-> a, b |-> a]
       [] k % 4 = 1 -> [kind |-> "runs", a |-> a, b |-> part \o RunOf(k, 90)]
       [] k % 4 = 2 -> [kind |-> "runs", a |-> RunOf(k, 90) \o noisy, b |-> a]
       [] OTHER -> [kind |-> "runs", a |-> a, b |-> RunOf(k, 50) \o RunOf(k, 60)]
RunCount == atoi(IOEnv.RUNS)

Cases == [k \in 1 .. Count |->
  CASE k % 10 \in {0, 1, 2, 3, 4} -> Blocks(k)
    [] k % 10 \in {5, 6} -> Small(k)
    [] k % 10 \in {7, 8} -> Excerpt(k)
    [] OTHER -> Tie(k)]

VARIABLE done
GInit == done = FALSE
GNext == ~done /\ ndJsonSerialize(IOEnv.OUT, Cases \o [j \in 1 .. Len(HardFile) |-> Hard(j)] \o [k \in 1 .. RunCount |-> Runs(k)]) /\ done' = TRUE
==============================================================================
