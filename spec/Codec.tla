-------------------------------- MODULE Codec --------------------------------
(* The AcoustID wire format: what FingerprintCompressor::compress writes and what any reader of the    *)
(* format gets back.  An item is the set of its set bits, numbered 1..W from the least significant.    *)
(*                                                                                                      *)
(*   header   id, item count as 24-bit big-endian                                                       *)
(*   normal   for every item XOR its predecessor: the gaps between successive set bits as NB-bit codes, *)
(*            gaps of MaxN = 2^NB - 1 and more as MaxN, ended by the code 0                             *)
(*   excess   for every code MaxN: gap - MaxN as an EB-bit code                                         *)
(* Codes are packed least significant bit first into bytes; unused bits are zero.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS W, NB, EB          \* item width and the two code widths; 32, 3, 5 in the real format

MaxN == 2^NB - 1
ASSUME WidthsFit == W - MaxN < 2^EB   \* or an excess gap could not be written down

Bit == 1 .. W
XorItem(a, b) == (a \ b) \cup (b \ a)
SortBits(s) == SetToSortSeq(s, LAMBDA x, y : x < y)

CeilDiv(a, b) == (a + b - 1) \div b

(* ---- writing: code by code --------------------------------------------------------------------- *)
NormalCode(gap) == IF gap >= MaxN THEN MaxN ELSE gap
HasExcess(gap)  == gap >= MaxN
ExcessCode(gap) == gap - MaxN

(* closed form for one item difference d and for a whole fingerprint *)
GapsOf(d) == LET s == SortBits(d) IN [k \in 1 .. Len(s) |-> IF k = 1 THEN s[1] ELSE s[k] - s[k - 1]]
NormalOf(d) == Append([k \in DOMAIN GapsOf(d) |-> NormalCode(GapsOf(d)[k])], 0)
ExcessOf(d) == LET g == SelectSeq(GapsOf(d), HasExcess) IN [k \in DOMAIN g |-> ExcessCode(g[k])]

Diff(items, i) == XorItem(items[i], IF i = 1 THEN {} ELSE items[i - 1])
NormalAll(items) == FlattenSeq([i \in 1 .. Len(items) |-> NormalOf(Diff(items, i))])
ExcessAll(items) == FlattenSeq([i \in 1 .. Len(items) |-> ExcessOf(Diff(items, i))])

(* bytes of a sequence of `width`-bit codes *)
PackBit(codes, width, t) ==
  IF t < Len(codes) * width THEN (codes[t \div width + 1] \div 2^(t % width)) % 2 ELSE 0
Pack(codes, width) ==
  [k \in 1 .. CeilDiv(Len(codes) * width, 8) |->
     LET b(j) == PackBit(codes, width, 8 * (k - 1) + j)
     IN b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7)]

Header(id, count) == <<id, (count \div 65536) % 256, (count \div 256) % 256, count % 256>>

Wire(id, items) ==
  Header(id, Len(items)) \o Pack(NormalAll(items), NB) \o Pack(ExcessAll(items), EB)

WireLength(normals, excesses) == 4 + CeilDiv(NB * normals, 8) + CeilDiv(EB * excesses, 8)

(* ---- reading ------------------------------------------------------------------------------------ *)
(* the k-th (from 0) `width`-bit code of the bit stream starting at byte `from` (1-based) *)
ReadBit(bytes, from, t) == (bytes[from + t \div 8] \div 2^(t % 8)) % 2
RECURSIVE ReadCode(_, _, _, _, _)
ReadCode(bytes, from, width, k, j) ==
  IF j = width THEN 0
  ELSE ReadBit(bytes, from, k * width + j) * 2^j + ReadCode(bytes, from, width, k, j + 1)
CodesFrom(bytes, from, width) ==
  LET n == (8 * (Len(bytes) - from + 1)) \div width
  IN [k \in 1 .. (IF n > 0 THEN n ELSE 0) |-> ReadCode(bytes, from, width, k - 1, 0)]

Bad(why) == [ok |-> FALSE, id |-> 0, items |-> <<>>, why |-> why]

(* positions of the first `count` zeros of a code sequence *)
Zeros(codes) == SelectSeq([k \in 1 .. Len(codes) |-> IF codes[k] = 0 THEN k ELSE 0], LAMBDA k : k > 0)

Decode(bytes) ==
  IF Len(bytes) < 4 THEN Bad("short header")
  ELSE
  LET count == bytes[2] * 65536 + bytes[3] * 256 + bytes[4]
      norm  == CodesFrom(bytes, 5, NB)
      zeros == Zeros(norm)
  IN IF Len(zeros) < count THEN Bad("too few items")
     ELSE
     LET a     == IF count = 0 THEN 0 ELSE zeros[count]
         from2 == 5 + CeilDiv(a * NB, 8)
         exc   == CodesFrom(bytes, from2, EB)
         b     == Cardinality({k \in 1 .. a : norm[k] = MaxN})
     IN IF Len(exc) < b THEN Bad("too few excess codes")
        ELSE
        LET step(st, code) ==
              IF code = 0
              THEN LET it == XorItem(st.prev, st.cur)
                   IN [st EXCEPT !.items = Append(@, it), !.prev = it, !.cur = {}, !.last = 0]
              ELSE LET gap == code + (IF code = MaxN THEN exc[st.e + 1] ELSE 0)
                       at  == st.last + gap
                   IN [st EXCEPT !.cur = @ \cup {at}, !.last = at, !.e = @ + (IF code = MaxN THEN 1 ELSE 0),
                                 !.fits = @ /\ at <= W]
            end == FoldLeft(step, [items |-> <<>>, prev |-> {}, cur |-> {}, last |-> 0, e |-> 0, fits |-> TRUE],
                            SubSeq(norm, 1, a))
        IN IF ~end.fits THEN Bad("bit position out of range")
           ELSE [ok |-> TRUE, id |-> bytes[1], items |-> end.items, why |-> ""]

(* ---- the encoder as a state machine: one action per code written -------------------------------- *)
VARIABLES
  fpr,       \* the fingerprint being written
  i,         \* item in progress (Len(fpr)+1: all written)
  bit,       \* last set bit already coded for it
  norm, exc, \* codes written so far
  out        \* the bytes, once packed
vars == <<fpr, i, bit, norm, exc, out>>

Rest == {b \in Diff(fpr, i) : b > bit}
NextBit == CHOOSE b \in Rest : \A c \in Rest : b <= c

EncInit(X) == /\ fpr \in X
              /\ i = 1 /\ bit = 0 /\ norm = <<>> /\ exc = <<>> /\ out = <<>>

EmitNormal ==
  /\ i <= Len(fpr) /\ Rest # {} /\ ~HasExcess(NextBit - bit)
  /\ norm' = Append(norm, NextBit - bit) /\ bit' = NextBit
  /\ UNCHANGED <<fpr, i, exc, out>>

EmitExcess ==
  /\ i <= Len(fpr) /\ Rest # {} /\ HasExcess(NextBit - bit)
  /\ norm' = Append(norm, MaxN) /\ exc' = Append(exc, ExcessCode(NextBit - bit)) /\ bit' = NextBit
  /\ UNCHANGED <<fpr, i, out>>

EndItem ==
  /\ i <= Len(fpr) /\ Rest = {}
  /\ norm' = Append(norm, 0) /\ i' = i + 1 /\ bit' = 0
  /\ UNCHANGED <<fpr, exc, out>>

PackAll ==
  /\ i = Len(fpr) + 1 /\ out = <<>>
  /\ out' = Header(7, Len(fpr)) \o Pack(norm, NB) \o Pack(exc, EB)
  /\ UNCHANGED <<fpr, i, bit, norm, exc>>

EncNext == EmitNormal \/ EmitExcess \/ EndItem \/ PackAll

(* ---- properties of the format ------------------------------------------------------------------- *)
CodesInRange == /\ \A k \in DOMAIN norm : norm[k] \in 0 .. MaxN
                /\ \A k \in DOMAIN exc : exc[k] \in 0 .. 2^EB - 1
                /\ Len(exc) = Cardinality({k \in DOMAIN norm : norm[k] = MaxN})
(* the codes written so far are exactly those of the finished items and of the bits passed *)
Progress ==
  LET zeros == Cardinality({k \in DOMAIN norm : norm[k] = 0}) IN zeros = i - 1
Finished == out # <<>>
Lossless == Finished => Decode(out) = [ok |-> TRUE, id |-> 7, items |-> fpr, why |-> ""]
ClosedForm == Finished => out = Wire(7, fpr)
LengthLaw == Finished => Len(out) = WireLength(Len(norm), Len(exc))
BytesOK == \A k \in DOMAIN out : out[k] \in 0 .. 255
==============================================================================
