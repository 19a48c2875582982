------------------------------- MODULE MCFpcalc -------------------------------
EXTENDS Fpcalc
CONSTANTS MaxN, MaxLimit, MaxChunk, MaxExtra
Params == [n : 0 .. MaxN, limit : 0 .. MaxLimit, chunk : 0 .. MaxChunk, extra : 0 .. MaxExtra, overlap : BOOLEAN]
Used == {p \in Params : (~p.overlap \/ p.chunk = 0) => p.extra = 0}
Init == FInit(Used)
(* the numbers of Fpcalc keep the invariant proved in ChunksProof for all sizes *)
E0 == IF par.chunk > 0 /\ par.overlap THEN par.extra ELSE 0
Numbers == INSTANCE ChunksProof WITH
  Limit <- par.limit, Chunk <- par.chunk, Delay <- par.extra, Overlap <- par.overlap, Fault <- "none",
  pkt <- Len(pkt), fed <- taken - Len(pkt), from <- taken - Len(pkt) - Len(fed), start <- taken - Len(pkt) - size,
  k <- Len(outs), mark <- E0 + Len(outs) * par.chunk, good <- TRUE, pc <- (IF pc = "failed" THEN "read" ELSE pc)
Numbered == Numbers!Inv /\ Numbers!Laws
==============================================================================
