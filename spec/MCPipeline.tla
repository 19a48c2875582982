------------------------------ MODULE MCPipeline ------------------------------
(* Small instances of Pipeline: shape k of the configuration. *)
EXTENDS Pipeline
CONSTANT Shape
CfgV == CASE Shape = 1 -> [frame |-> 3, overlap |-> 1, nc |-> 2, w |-> 2]
          [] Shape = 2 -> [frame |-> 2, overlap |-> 1, nc |-> 3, w |-> 3]
          [] Shape = 3 -> [frame |-> 4, overlap |-> 3, nc |-> 1, w |-> 3]
          [] Shape = 4 -> [frame |-> 5, overlap |-> 0, nc |-> 2, w |-> 1]
          [] Shape = 5 -> [frame |-> 4, overlap |-> 2, nc |-> 3, w |-> 4]
(* the counts of Pipeline keep the invariant proved in CountsProof for all sizes *)
Counts == INSTANCE CountsProof WITH
  Frame <- Cfg.frame, Overlap <- Cfg.overlap, Nc <- Cfg.nc, W <- Cfg.w, Fault <- "none",
  n <- s.n, last <- s.last, pend <- 0, staged <- Len(staged), ring <- Len(ring),
  frames <- (s.n - Len(staged) - Len(ring)) \div S!Hop(Cfg), items <- Len(fpr), pc <- "idle"
Counted == s.rate = Native => Counts!Inv /\ Counts!Laws
==============================================================================
