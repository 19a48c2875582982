-------------------------------- MODULE Signal --------------------------------
(* The numeric chain from samples at the internal rate to items, in fixed point.                       *)
(*                                                                                                      *)
(*   frame of N samples -> Hamming window -> energy of each bin -> 12 bands (octave folded, semitone    *)
(*   wide, starting at A) -> weighted sum over consecutive frames -> unit length or zero -> 16 rows ->  *)
(*   16 classifiers -> item                                                                             *)
(*                                                                                                      *)
(* All quantities are integers of at most 31 bits with explicit powers of two.  The implementation      *)
(* computes in double precision; the error of the model is accounted for by Tol: where the compared     *)
(* ratio is closer than that to a threshold, both codes are possible, and where a frame is that close   *)
(* to the silence floor its row is unknown.                                                             *)
EXTENDS Integers, Sequences, SequencesExt, Tables, TLC

CONSTANTS N,        \* frame size
          TolInv,   \* the relative tolerance of ratios is 1 / TolInv
          FloorInv  \* and that of the silence floor

P2 == TLCEval([k \in 0 .. 30 |-> 2^k])
Min2(a, b) == IF a < b THEN a ELSE b
AbsS(x) == IF x < 0 THEN -x ELSE x
(* least k with x < 2^k, by halving the interval *)
Bits(x) == IF x = 0 THEN 0
           ELSE LET a == IF x >= 65536 THEN 16 ELSE 0
                    b == IF x >= P2[a + 8] THEN a + 8 ELSE a
                    c == IF x >= P2[b + 4] THEN b + 4 ELSE b
                    d == IF x >= P2[c + 2] THEN c + 2 ELSE c
                IN IF d < 30 /\ x >= P2[d + 1] THEN d + 2 ELSE d + 1
(* x * 2^k, rounded, for any integer k; 0 when it vanishes *)
Shift(x, k) == IF k >= 0 THEN x * P2[k] ELSE IF k < -30 THEN 0 ELSE (x \div P2[-k - 1] + 1) \div 2
MaxOf(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, s)
(* <<quotient, remainder>> of a q by p, for a < 2^30 and q + 2 p < 2^31: bits of a from the top *)
MulDivS(a, q, p) ==
  LET n == Bits(a)
      step(h, i) == LET x == 2 * h[2] + ((a \div P2[n - i]) % 2) * q
                    IN <<2 * h[1] + x \div p, x % p>>
  IN FoldLeft(step, <<0, 0>>, [i \in 1 .. n |-> i])
RECURSIVE Newton(_, _)
Newton(s, x) == LET y == (x + s \div x) \div 2 IN IF y >= x THEN x ELSE Newton(s, y)
Isqrt(s) == IF s = 0 THEN 0 ELSE Newton(s, 2^16 - 1)

(* ---- trigonometry ------------------------------------------------------------------------------------ *)
Cos4096(j) ==   \* 2^20 cos(2 pi j / 4096), 0 <= j <= 4096
  IF j <= 1024 THEN Quarter[j + 1] ELSE IF j <= 2048 THEN -Quarter[2049 - j]
  ELSE IF j <= 3072 THEN -Quarter[j - 2047] ELSE Quarter[4097 - j]
CosTurn(j, m) ==   \* 2^20 cos(2 pi j / m), 0 <= j < m
  LET q == (j * 4096) \div m  r == (j * 4096) % m
  IN Cos4096(q) + ((Cos4096(q + 1) - Cos4096(q)) * r) \div m
CosN == TLCEval([j \in 0 .. N - 1 |-> LET c == CosTurn(j, N) IN <<c \div 128, c % 128>>])    \* 2^13, 2^20
SinN == TLCEval([j \in 0 .. N - 1 |-> LET c == CosTurn((4 * j + 3 * N) % (4 * N), 4 * N) IN <<c \div 128, c % 128>>])
(* bits kept below the unit of the windowed samples when they are summed *)
Below1 == IF N <= 256 THEN 4 ELSE 0
(* Hamming window, 2^14 *)
WinN == TLCEval([i \in 0 .. N - 1 |-> (566231 - (CosTurn(i % (N - 1), N - 1) * 46) \div 100 + 32) \div 64])

(* ---- frame -> energies ------------------------------------------------------------------------------- *)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
MinBin == LET b == RoundDiv(28 * N, 11025) IN IF b < 1 THEN 1 ELSE b
EndBin == Min2(RoundDiv(3520 * N, 11025), N \div 2)      \* first bin that is not used
BinSeq == TLCEval([i \in 1 .. EndBin - MinBin |-> MinBin + i - 1])

(* A frame is given by its non-zero samples: a sequence of <<i, x>>, 0 <= i < N. *)
(* energy of bin k: <<m, e>> for m 2^e, in units of squared samples *)
Energy(xw, s, k) ==
  LET times(x, c) == (x * c[1] + (x * c[2]) \div 128 + P2[12 - Below1]) \div P2[13 - Below1]
      step(acc, p) == LET a == (k * p[1]) % N
                      IN <<acc[1] + times(p[2], CosN[a]), acc[2] + times(p[2], SinN[a])>>
      c == FoldLeft(step, <<0, 0>>, xw)
      re == AbsS(c[1])  im == AbsS(c[2])
      d == Bits(IF re > im THEN re ELSE im)
      g == IF d > 15 THEN d - 15 ELSE 0
      a == Min2(32767, Shift(re, -g))  b == Min2(32767, Shift(im, -g))
  IN <<a * a + b * b, 2 * g - 2 * s - 4 - 2 * Below1>>
Windowed(frame, s) == TLCEval([i \in 1 .. Len(frame) |->
  <<frame[i][1], (frame[i][2] * P2[s] * WinN[frame[i][1]] + 2048) \div 4096>>])
Spectrum(frame) ==   \* sequence over BinSeq of energies
  LET m == MaxOf([i \in 1 .. Len(frame) |-> AbsS(frame[i][2])])
      s == IF m = 0 THEN 0 ELSE IF Bits(m) >= 15 THEN 0 ELSE 15 - Bits(m)
      xw == Windowed(frame, s)
  IN IF m = 0 THEN <<>> ELSE TLCEval([i \in 1 .. Len(BinSeq) |-> Energy(xw, s, BinSeq[i])])

(* ---- energies -> bands ------------------------------------------------------------------------------- *)
(* note (0..11, 0 = A) and 2^16 * fraction of the semitone of bin k: 12 log2(f / 27.5 Hz); within an   *)
(* eighth of a semitone (a factor of 1 + h, h = 0.00722) the logarithm exceeds the chord by u (1 - u) h / 2 *)
Octave(n, d) ==
  LET up == CHOOSE u \in 0 .. 20 : n * P2[u] >= d /\ (u = 0 \/ n * P2[u - 1] < d)
      m == n * P2[up]
      dn == CHOOSE u \in 0 .. 20 : m < 2 * d * P2[u] /\ (u = 0 \/ m >= d * P2[u])
  IN <<m, d * P2[dn]>>
Find(m) == CHOOSE j \in 0 .. 95 : Scale96[j + 1] <= m /\ m < Scale96[j + 2]
NoteOf(k) ==
  LET r == Octave(k * 4410, 11 * N)
      m == MulDivS(r[1], 2^20, r[2])[1]
      j == Find(m)
      d == Scale96[j + 2] - Scale96[j + 1]
      u == MulDivS(2 * (m - Scale96[j + 1]) + 1, 4096, d)[1]
  IN [note |-> j \div 8,
      frac |-> (j % 8) * 8192 + u + (u * (8192 - u)) \div 2269053,
      near |-> \E q \in 0 .. 12 : AbsT(m - Scale96[8 * q + 1]) <= 1]
NotesDef == [i \in 1 .. Len(BinSeq) |-> NoteOf(BinSeq[i])]
ASSUME TLCSet(41, NotesDef)          \* computed once; TLC does not keep this constant by itself
Notes == TLCGet(41)
(* no bin so close to the edge of a band that rounding would decide *)
WellPlaced == \A i \in 1 .. Len(BinSeq) : ~Notes[i].near
(* a bin spread over two bands: fraction f < 1/2 leans to the band below, > 1/2 to the one above *)
Share(f) == IF f < 32768 THEN 32768 + f ELSE IF f > 32768 THEN 98304 - f ELSE 65536
Other(n, f) == IF f < 32768 THEN (n + 11) % 12 ELSE IF f > 32768 THEN (n + 1) % 12 ELSE n
(* [b: 12 bands, e]: values b 2^e *)
Chroma(spec, interp) ==
  IF spec = <<>> THEN [b |-> [k \in 1 .. 12 |-> 0], e |-> 0]
  ELSE LET top == FoldLeft(LAMBDA a, x : IF x[1] > 0 /\ x[2] + Bits(x[1]) > a THEN x[2] + Bits(x[1]) ELSE a, -1000, spec)
           E == top - 20
           add(b, i) ==
             LET x == spec[i]  n == Notes[i].note  f == Notes[i].frac IN
             IF ~interp THEN [b EXCEPT ![n + 1] = @ + Shift(x[1], x[2] - E)]
             ELSE LET v == Shift(x[1], x[2] - E - 3)    \* < 2^17
                      mine == (v * (Share(f) \div 8)) \div 1024 + (v * (Share(f) % 8)) \div 8192
                      o == Other(n, f)
                      b1 == [b EXCEPT ![n + 1] = @ + mine]
                  IN [b1 EXCEPT ![o + 1] = @ + v * 8 - mine]
       IN IF top = -1000 THEN [b |-> [k \in 1 .. 12 |-> 0], e |-> 0]
          ELSE [b |-> FoldLeft(add, [k \in 1 .. 12 |-> 0], [i \in 1 .. Len(spec) |-> i]), e |-> E]

(* ---- bands -> row ------------------------------------------------------------------------------------- *)
(* coefs: numerators over 8.  frames: as many chroma vectors, oldest first. *)
Zero12 == [k \in 1 .. 12 |-> 0]
Unknown == [k \in 1 .. 12 |-> -1]
FloorSq == 10736743      \* 0.01 * 32767^2
Row(frames, coefs) ==
  LET nz == {j \in 1 .. Len(frames) : MaxOf(frames[j].b) > 0}
      top == FoldLeft(LAMBDA a, j : IF j \in nz /\ frames[j].e + Bits(MaxOf(frames[j].b)) > a
                                    THEN frames[j].e + Bits(MaxOf(frames[j].b)) ELSE a,
                      -1000, [j \in 1 .. Len(frames) |-> j])
      E == top - 24
      at(k) == FoldLeft(LAMBDA a, j : IF j \in nz THEN a + coefs[j] * Shift(frames[j].b[k], frames[j].e - E) ELSE a,
                        0, [j \in 1 .. Len(frames) |-> j])
      V == TLCEval([k \in 1 .. 12 |-> at(k)])
      d == Bits(MaxOf(V)) - 13
      u == [k \in 1 .. 12 |-> Shift(V[k], -d)]
      s == FoldLeft(LAMBDA a, x : a + x * x, 0, u)
      n == Isqrt(s)
      (* the root with four more bits *)
      n16 == 16 * n + ((s - n * n) * 8) \div n
      (* the length in squared samples is n 2^g *)
      g == d + E - 3
      slack == FloorSq \div FloorInv
      len == IF g > 12 THEN 2^30 ELSE Shift(n, g)      \* n >= 2^12
  IN IF nz = {} \/ MaxOf(V) = 0 THEN Zero12
     ELSE IF len < FloorSq - slack THEN Zero12
     ELSE IF len <= FloorSq + slack THEN Unknown
     ELSE TLCEval([k \in 1 .. 12 |-> MulDivS(Shift(V[k], 4 - d), 65536, n16)[1]])    \* 2^16

(* ---- rows -> item ------------------------------------------------------------------------------------- *)
(* sum over rows r0+1 .. r1 of bands c0+1 .. c1 *)
Area(rows, r0, c0, r1, c1) ==
  LET rowsum(a, r) == LET R == rows[r] IN FoldLeft(LAMBDA s, c : s + R[c], a, [j \in 1 .. c1 - c0 |-> c0 + j])
  IN IF r1 <= r0 \/ c1 <= c0 THEN 0 ELSE FoldLeft(rowsum, 0, [j \in 1 .. r1 - r0 |-> r0 + j])
(* <<a, b>> of a classifier *)
Areas(rows, c) ==
  LET y == c.y  h == c.h  w == c.w
      A(r0, c0, r1, c1) == Area(rows, r0, c0, r1, c1)
      h2 == h \div 2  w2 == w \div 2  h3 == h \div 3  w3 == w \div 3
  IN CASE c.kind = 0 -> <<A(0, y, w, y + h), 0>>
       [] c.kind = 1 -> <<A(0, y + h2, w, y + h), A(0, y, w, y + h2)>>
       [] c.kind = 2 -> <<A(w2, y, w, y + h), A(0, y, w2, y + h)>>
       [] c.kind = 3 -> <<A(0, y + h2, w2, y + h) + A(w2, y, w, y + h2), A(0, y, w2, y + h2) + A(w2, y + h2, w, y + h)>>
       [] c.kind = 4 -> <<A(0, y + h3, w, y + 2 * h3), A(0, y, w, y + h3) + A(0, y + 2 * h3, w, y + h)>>
       [] c.kind = 5 -> <<A(w3, y, 2 * w3, y + h), A(0, y, w3, y + h) + A(2 * w3, y, w, y + h)>>
(* 2^16 (1 + a) / (1 + b) *)
Ratio(ab) == MulDivS(65536 + ab[1], 65536, 65536 + ab[2])[1]
Level(t, r) == IF r < t[1] THEN 0 ELSE IF r < t[2] THEN 1 ELSE IF r < t[3] THEN 2 ELSE 3
(* lowest and highest possible level *)
Levels(rows, c) == LET r == Ratio(Areas(rows, c))  s == r \div TolInv + 2
                   IN <<Level(c.t, r - s), Level(c.t, r + s)>>
GrayCode == <<0, 1, 3, 2>>
UnGray(g) == IF g = 3 THEN 2 ELSE IF g = 2 THEN 3 ELSE g
(* the two bits of classifier q (1..16) in an item given by its upper and lower 16 bits *)
Field(hi, lo, q) == IF q <= 8 THEN (hi \div 4^(8 - q)) % 4 ELSE (lo \div 4^(16 - q)) % 4
Known(rows) == \A r \in 1 .. Len(rows) : rows[r] # Unknown
(* classifiers whose bits in the item the model does not allow *)
Wrong(rows, cs, hi, lo) ==
  IF ~Known(rows) THEN {}
  ELSE {q \in 1 .. 16 : LET lv == Levels(rows, cs[q])  v == UnGray(Field(hi, lo, q)) IN v < lv[1] \/ v > lv[2]}
==============================================================================
