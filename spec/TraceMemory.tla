------------------------------ MODULE TraceMemory ------------------------------
(* Recorded histories with the bytes in use after every call.  A record with tag "warm" measures one     *)
(* format of its configuration; the others are judged.                                                   *)
EXTENDS Memory, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j, h, warm
vars == <<l, j, h, warm>>

Empty == [x \in {} |-> 0]
TInit == l = 0 /\ j = 0 /\ h = NewHistory /\ warm = Empty
Good(rate, ch) == ch > 0 /\ rate > 1000
After(g, cfg, o) ==
  LET g1 == IF o.op = "s" /\ Good(o.a, o.b) THEN Started(g, cfg, o.a, o.b)
            ELSE IF o.op = "r" THEN Started(g, cfg, o.a, 1) ELSE IF o.op = "d" THEN NewHistory ELSE g
  IN Published(g1, o.items)
Measured(r) ==   \* a warm record starts once
  LET f == CHOOSE k \in DOMAIN r.ops : r.ops[k].op = "s"
      top == CHOOSE k \in DOMAIN r.ops : \A i \in DOMAIN r.ops : r.ops[i].live <= r.ops[k].live
  IN (<<r.cfg, r.ops[f].a, r.ops[f].b>> :> r.ops[top].live) @@ warm
Done == l' = l + 1 /\ j' = 0 /\ h' = NewHistory
TNext ==
  \/ l = Len(Trace) /\ UNCHANGED vars
  \/ /\ l < Len(Trace)
     /\ LET r == Trace[l + 1] IN
        /\ r.res = "ok"
        /\ IF r.tag = "warm" THEN Done /\ warm' = Measured(r)
           ELSE IF j = Len(r.ops) THEN Done /\ UNCHANGED warm
           ELSE LET o == r.ops[j + 1]  g == After(h, r.cfg, o) IN
                /\ o.live <= (IF o.op = "d" THEN Give ELSE Allowed(g, warm))
                /\ h' = g /\ j' = j + 1 /\ UNCHANGED <<l, warm>>
==============================================================================
