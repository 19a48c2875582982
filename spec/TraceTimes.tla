------------------------------- MODULE TraceTimes -------------------------------
(* segtime: the times a Segment reports.  rows: what the compare program printed for two files, and the  *)
(* segments the library finds in their fingerprints.                                                     *)
EXTENDS Times, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RecOK(r) ==
  CASE r.ev = "segtime" -> LET want == SegmentTimes([o1 |-> r.o1, o2 |-> r.o2, len |-> r.len], r.hop)
                           IN \A j \in 1 .. 5 : SameTime(r.us[j], want[j])
    [] r.ev = "rows" -> /\ r.status = 0
                        /\ Len(r.rows) = Len(r.segs)
                        /\ \A k \in DOMAIN r.segs : RowOK(r.rows[k], k, r.segs[k], r.hop)

TInit == l = 0
TNext == l < Len(Trace) /\ l' = l + 1
Accepted == l > 0 => RecOK(Trace[l])
==============================================================================
