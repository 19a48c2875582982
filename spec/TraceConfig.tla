------------------------------ MODULE TraceConfig ------------------------------
(* Real configurations built by the calls recorded: what they say of themselves, and the fingerprints    *)
(* made with them.  runs: [n, items, id, twin]: frames given, items made, the fingerprint (equal numbers *)
(* are equal fingerprints), and the fingerprint under the canonical construction of the same record.     *)
EXTENDS Config, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Near(a, b, d) == a - b <= d /\ b - a <= d
RecOK(r) ==
  LET c == Build(r.preset, r.calls) IN
  /\ r.res = "ok"
  /\ r.id = c.id /\ r.rate = 11025 /\ r.delay = CDelay(c)
  /\ LET exact == (CHop(c) \div 441) * 40000000 + (((CHop(c) % 441) * 4000000) \div 441) * 10
     IN Near(r.durnano, exact, 20 + exact \div 8000000)
  /\ \A k \in DOMAIN r.runs :
       /\ r.runs[k].id = r.runs[k].twin
       /\ c.silence < 0 => r.runs[k].items = CItems(c, r.runs[k].n)
TInit == l = 0
TNext == l < Len(Trace) /\ l' = l + 1
Accepted == l > 0 => RecOK(Trace[l])
=============================================================================
