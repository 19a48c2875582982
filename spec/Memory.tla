-------------------------------- MODULE Memory --------------------------------
(* What a fingerprinter may keep.  The mechanism (Pipeline!Bounded) holds a bounded number of samples    *)
(* and rows whatever the history; so the bytes in use are those of a fingerprinter that has just been    *)
(* warmed up with the same configurations, rates and channels, and those of the items it publishes.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Give   \* bytes of leeway

(* history so far: [formats: what it was started with, peak: most items published at once] *)
NewHistory == [formats |-> {}, peak |-> 0]
Started(h, cfg, rate, ch) == [h EXCEPT !.formats = @ \cup {<<cfg, rate, ch>>}]
Published(h, n) == [h EXCEPT !.peak = IF n > @ THEN n ELSE @]

RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
(* warm: format -> bytes of a warmed-up fingerprinter.  Lists may have twice the room
they need. *)
Allowed(h, warm) == 2 * Total(warm, h.formats) + 8 * h.peak + Give
==============================================================================
