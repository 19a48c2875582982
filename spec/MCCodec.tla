------------------------------- MODULE MCCodec -------------------------------
(* Exhaustive instance: every fingerprint of at most MaxLen items of W bits. *)
EXTENDS Codec
CONSTANT MaxLen
AllItems == UNION {[1 .. n -> SUBSET Bit] : n \in 0 .. MaxLen}
Init == EncInit(AllItems)
Next == EncNext
Spec == Init /\ [][Next]_vars
==============================================================================
