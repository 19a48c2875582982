------------------------------ MODULE TraceSignal ------------------------------
(* Recorded fingerprints of generated audio against the chain of Signal, one frame per step.           *)
(* A record: frame, overlap, coefs (eighths), interp, preset, len, x: non-zero samples <<pos, value>>,  *)
(* hi / lo: the items the implementation gave.                                                           *)
EXTENDS Signal, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME WellPlaced

VARIABLES l,     \* records done
          pos,   \* start of the next frame
          ptr,   \* first entry of x not before pos
          chrom, \* last chroma vectors, oldest first, at most one per coefficient
          rows,  \* last rows, at most 16
          k      \* items produced
vars == <<l, pos, ptr, chrom, rows, k>>

R == Trace[l + 1]
Push(s, x, cap) == IF Len(s) < cap THEN Append(s, x) ELSE Append(Tail(s), x)
RECURSIVE Skip(_, _, _)
Skip(x, i, lim) == IF i > Len(x) \/ x[i][1] >= lim THEN i ELSE Skip(x, i + 1, lim)

Frame(end) == LET f == SubSeq(R.x, ptr, end - 1) IN TLCEval([i \in 1 .. Len(f) |-> <<f[i][1] - pos, f[i][2]>>])

SFrame ==
  /\ l < Len(Trace) /\ pos + N <= R.len
  /\ LET end == Skip(R.x, ptr, pos + N)
         hop == R.frame - R.overlap
     IN /\ chrom' = Push(chrom, Chroma(Spectrum(Frame(end)), R.interp = 1), Len(R.coefs))
        /\ rows' = IF Len(chrom') = Len(R.coefs) THEN Push(rows, Row(chrom', R.coefs), 16) ELSE rows
        /\ pos' = pos + hop
        /\ ptr' = Skip(R.x, ptr, pos + hop)
        /\ IF Len(chrom') = Len(R.coefs) /\ Len(rows') = 16
           THEN /\ k' = k + 1
                /\ k' <= Len(R.hi)
                /\ Wrong(rows', ClassifiersOf(R.preset), R.hi[k + 1], R.lo[k + 1]) = {}
           ELSE k' = k
  /\ l' = l

SDone == /\ l < Len(Trace) /\ pos + N > R.len
         /\ k = Len(R.hi)
         /\ l' = l + 1 /\ pos' = 0 /\ ptr' = 1 /\ chrom' = <<>> /\ rows' = <<>> /\ k' = 0
SEnd == l = Len(Trace) /\ UNCHANGED vars

SInit == l = 0 /\ pos = 0 /\ ptr = 1 /\ chrom = <<>> /\ rows = <<>> /\ k = 0
SNext == SFrame \/ SDone \/ SEnd
==============================================================================
