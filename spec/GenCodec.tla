------------------------------- MODULE GenCodec -------------------------------
(* Inputs for the real compressor, derived from the encoder's state graph: one fingerprint per         *)
(* transition (last bit p) -> (next bit q or end), fingerprints of every length modulo 8 of both code  *)
(* streams, and pseudo-random ones.                                                                    *)
EXTENDS Codec, Rnd, Json, IOUtils, TLC

Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
MaxItems == atoi(IOEnv.MAXITEMS)

(* ids: all values of the byte get their turn *)
Id(k) == (k * 37) % 256

Edges == {<<p, q>> \in (0 .. W) \X (1 .. W + 1) : p < q}
EdgeItem(e) == {b \in {e[1], e[2]} : b \in Bit}
EdgeSeq == SetToSeq(Edges)
(* three transitions per fingerprint so that each is exercised after a non-zero predecessor as well *)
EdgeCase(k) ==
  LET a == EdgeItem(EdgeSeq[k])
      x == Lcg(Lcg(Seed + k))
      noise == {b \in Bit : Below(LcgN(x, b), 4) = 0}
  IN <<a, XorItem(a, noise), XorItem(XorItem(a, noise), a)>>

(* a random item with density 1/m *)
RItem(x, m) == LET d == Draws(x, W, <<>>) IN {b \in Bit : Below(d[b], m) = 0}
RCase(k) ==
  LET x0 == LcgN(Seed + 131 * k, 3)
      n  == Below(x0, MaxItems + 1)
      m  == 1 + Below(Lcg(x0), 24)
      ds == Draws(LcgN(x0, 2), n, <<>>)
  IN [j \in 1 .. n |-> RItem((ds[j] + 977 * j) % 65537, IF Below(ds[j], 5) = 0 THEN 2 ELSE m)]
(* runs of equal items (zero differences), alternations, single bits *)
SCase(k) ==
  LET n == k % 41
  IN CASE (k \div 41) % 4 = 0 -> [j \in 1 .. n |-> {}]
       [] (k \div 41) % 4 = 1 -> [j \in 1 .. n |-> {32}]
       [] (k \div 41) % 4 = 2 -> [j \in 1 .. n |-> IF j % 2 = 0 THEN {} ELSE Bit]
       [] OTHER -> [j \in 1 .. n |-> {1 + ((j * 13) % W), 1 + ((j * 7) % W)}]

Ser(its) == [j \in DOMAIN its |-> SortBits(its[j])]
Cases ==
  [k \in 1 .. Len(EdgeSeq) |-> [id |-> Id(k), items |-> Ser(EdgeCase(k))]]
  \o [k \in 1 .. 164 |-> [id |-> Id(k + 100), items |-> Ser(SCase(k))]]
  \o [k \in 1 .. Count |-> [id |-> Id(k + 50), items |-> Ser(RCase(k))]]

VARIABLE done
GInit == done = FALSE /\ fpr = <<>> /\ i = 1 /\ bit = 0 /\ norm = <<>> /\ exc = <<>> /\ out = <<>>
GNext == ~done /\ ndJsonSerialize(IOEnv.OUT, Cases) /\ done' = TRUE /\ UNCHANGED vars
==============================================================================
