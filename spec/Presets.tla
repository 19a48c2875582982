------------------------------- MODULE Presets -------------------------------
(* The published configurations. *)
EXTENDS Integers, Sequences
Frame(k)   == IF k = 5 THEN 2048 ELSE 4096
Overlap(k) == IF k = 5 THEN 1024 ELSE 4096 - 4096 \div 3
NCoef == 5
Widest == 16
PresetId(k) == k - 1
(* a configuration as the traces write it: preset number, and 0 or an override for the rest *)
Resolve(c) ==
  [frame |-> IF c.fs = 0 THEN Frame(c.preset) ELSE c.fs,
   overlap |-> IF c.ov < 0 THEN Overlap(c.preset) ELSE c.ov,
   nc |-> IF c.nc = 0 THEN NCoef ELSE c.nc,
   w |-> Widest]
==============================================================================
