----------------------------- MODULE TraceRelations -----------------------------
(* Pairs of real fingerprints a, b (items as upper and lower 16 bits) with the runs of their audio.     *)
(* q: the rate of both streams in units of the internal one (same, scaled).                              *)
(*   same   items a[i+s] and b[i], for the shifts s given, whose windows are equal must be equal         *)
(*   scaled the same up to a common gain and sign                                                        *)
(*   quiet  every item of a whose window is quiet is the silent item                                     *)
(*   close  a and b are the same audio sampled at rate r and at the internal rate                        *)
(*   endless  a: the last items of a source given over and over at rate q, all but `skip` items; its length  *)
(*          is `period` hops (at the internal rate), `times` of them; b: three times the same                *)
(*   id     a and b differ in the algorithm id only                                                     *)
(*   lead   a: a stream with a quiet lead under removal of leading silence; b: the stream without the    *)
(*          lead, keep: with it, both without removal                                                    *)
(* A record also says how many items its maker expects to be compared (at least); fewer is an error of  *)
(* the maker and rejected too.                                                                           *)
EXTENDS Relations, Json, IOUtils, Bitwise, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Items(f) == Len(f.hi)
Same(r, scaled) ==
  LET c == r.c
      q == r.q
      wb == TLCEval([i \in 1 .. Items(r.b) |-> Window(c, q, r.b.runs, i - 1, scaled)])
      good(s) == LET lo == IF s < 0 THEN -s ELSE 0
                     hi == IF Items(r.a) - s < Items(r.b) THEN Items(r.a) - s ELSE Items(r.b)
                 IN {i \in lo .. hi - 1 : (s = 0 \/ (Whole(c, q, i) /\ Whole(c, q, i + s))) /\ Window(c, q, r.a.runs, i + s, scaled) = wb[i + 1]}
      pairs(s) == {i \in good(s) : ~(r.a.runs = r.b.runs /\ s = 0)}
      check(acc, s) == LET p == TLCEval(pairs(s)) IN
         <<acc[1] + Cardinality(p), acc[2] /\ \A i \in p : r.a.hi[i + s + 1] = r.b.hi[i + 1] /\ r.a.lo[i + s + 1] = r.b.lo[i + 1]>>
      res == FoldLeft(check, <<0, TRUE>>, r.shifts)
  IN res[2] /\ res[1] >= r.atleast
QuietOK(r) ==
  LET c == r.c
      it == SilentItem(r.preset)
      q == TLCEval({i \in 1 .. Items(r.a) : AllQuiet(Window(c, 1, r.a.runs, i - 1, FALSE))})
  IN /\ Quiet(c, r.amp)
     /\ Cardinality(q) >= r.atleast
     /\ \A i \in q : r.a.hi[i] = it[1] /\ r.a.lo[i] = it[2]
(* bit errors: none above 10 of 32; on average below 1/20 (below 1/100 where the rate is near the internal one) *)
Close(r) ==
  LET n == IF Items(r.a) < Items(r.b) THEN Items(r.a) ELSE Items(r.b)
      e == TLCEval([i \in 1 .. n |-> Pop16(r.a.hi[i] ^^ r.b.hi[i]) + Pop16(r.a.lo[i] ^^ r.b.lo[i])])
      sum == FoldLeft(LAMBDA a, x : a + x, 0, e)
      limit == IF r.rate >= 8000 /\ r.rate <= 16000 THEN 100 ELSE 20
  IN /\ n >= r.atleast /\ Items(r.a) - Items(r.b) \in -1 .. 1
     /\ \A i \in 1 .. n : e[i] <= 10
     /\ sum * limit <= 32 * n
Endless(r) ==
  LET b == r.b
      at(k) == 2 * r.period + ((r.a.skip + k - 1) % r.period) + 1
      back == (Delay(r.c) + (IF r.q = 1 THEN 0 ELSE Reach)) \div Hop(r.c) + 1
      (* items there are in all *)
      n == r.a.skip + Items(r.a)
      m == r.times * r.period - Delay(r.c) \div Hop(r.c)
  IN /\ Delay(r.c) % Hop(r.c) = 0
     /\ IF r.q = 1 THEN n = m ELSE n \in m - 2 .. m
     /\ Items(r.a) >= r.atleast
     /\ \A k \in 1 .. Items(r.a) : r.a.hi[k] = b.hi[at(k)] /\ r.a.lo[k] = b.lo[at(k)]
Equal(a, b) == a.hi = b.hi /\ a.lo = b.lo
(* the same audio but for a fraction of an item at the front: few bits differ *)
Alike(a, b) ==
  LET n == IF Items(a) < Items(b) THEN Items(a) ELSE Items(b)
      e == TLCEval([i \in 1 .. n |-> Pop16(a.hi[i] ^^ b.hi[i]) + Pop16(a.lo[i] ^^ b.lo[i])])
  IN Items(a) - Items(b) \in -1 .. 1 /\ FoldLeft(LAMBDA x, y : x + y, 0, e) * 10 <= 32 * n
Lead(r) ==
  /\ Items(r.a) >= r.atleast
  /\ \/ Alike(r.a, r.b)
     (* the recorded finding: nothing is removed *)
     \/ IOEnv.KNOWN = "silence-removal" /\ r.lead > 0 /\ Equal(r.a, r.keep)
RecOK(r) == /\ r.ok = 1
            /\ CASE r.kind = "same" -> Same(r, FALSE)
                 [] r.kind = "scaled" -> Same(r, TRUE)
                 [] r.kind = "quiet" -> QuietOK(r)
                 [] r.kind = "close" -> Close(r)
                 [] r.kind = "endless" -> Endless(r)
                 [] r.kind = "id" -> Items(r.a) >= r.atleast /\ Equal(r.a, r.b)
                 [] r.kind = "lead" -> Lead(r)

TInit == l = 0
TNext == l < Len(Trace) /\ l' = l + 1
Accepted == l > 0 => RecOK(Trace[l])
==============================================================================
