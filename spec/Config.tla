--------------------------------- MODULE Config ---------------------------------
(* Configurations: a published preset and any sequence of builder calls.  A call sets its own field and *)
(* nothing else, whatever was called before; what a configuration says about itself (id, delay, item    *)
(* duration, sample rate) and what a fingerprinter does with it depend on the resulting record only.    *)
EXTENDS Integers, Sequences, SequencesExt, Presets

Published(k) ==
  [cls |-> IF k = 4 \/ k = 5 THEN 2 ELSE k, id |-> PresetId(k), frame |-> Frame(k), overlap |-> Overlap(k),
   coefs |-> <<2, 6, 8, 6, 2>>, interp |-> IF k = 3 THEN 1 ELSE 0, silence |-> IF k = 4 THEN 50 ELSE -1]
(* a call [op, v]; coefficients in eighths *)
Apply(c, call) ==
  CASE call.op = "id" -> [c EXCEPT !.id = call.v]
    [] call.op = "frame" -> [c EXCEPT !.frame = call.v]
    [] call.op = "overlap" -> [c EXCEPT !.overlap = call.v]
    [] call.op = "coefs" -> [c EXCEPT !.coefs = call.v]
    [] call.op = "interp" -> [c EXCEPT !.interp = call.v]
    [] call.op = "silence" -> [c EXCEPT !.silence = call.v]
Build(k, calls) == FoldLeft(Apply, Published(k), calls)

CHop(c) == c.frame - c.overlap
CWidest == 16                       \* in every table of classifiers
CDelay(c) == (Len(c.coefs) - 1 + CWidest - 1) * CHop(c) + c.overlap
CItems(c, n) == IF n < CDelay(c) THEN 0 ELSE (n - CDelay(c)) \div CHop(c)
(* all that a fingerprint depends on *)
Sound(c) == [c EXCEPT !.id = 0]
Usable(c) == c.frame > c.overlap
=============================================================================
