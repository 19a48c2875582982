----------------------------- MODULE TraceSession -----------------------------
(* Recorded histories of real Fingerprinter calls as behaviours of Session.                             *)
(*                                                                                                      *)
(* Every record carries what the real object showed after the call: n items, id (identity of the item  *)
(* sequence, 0 = empty), pre (identity of its part as long as the previous observation), tid / mid     *)
(* (identity shown by a fresh instance given the same calls since the last successful start, as is /   *)
(* as mono averages) and, after finish, cid (one uninterrupted mono run over the same audio) and aid   *)
(* (the same run finished every 10007 frames).                                                          *)
(*                                                                                                      *)
(* PROP selects the judgement; the abstract state is tracked in full in every case.  A record the      *)
(* specification does not allow leaves TLC without a successor.                                         *)
EXTENDS Session, Presets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES l,     \* records consumed
          inst,  \* slot -> [s: abstract session, cnt, id: last observation, runs: audio as source ranges]
          cfgs,  \* configurations of this history
          known  \* <<cfg, rate, runs>> -> identity of its fingerprint
tvars == <<l, inst, cfgs, known>>

R == Trace[l + 1]
Has(p) == p \in DOMAIN inst
I == inst[R.p]

Upd(x) == [p \in DOMAIN inst \cup {R.p} |-> IF p = R.p THEN x ELSE inst[p]]
Judge(props, cond) == PROP \in props => cond

Same(x) == R.n = x.cnt /\ R.id = x.id
Twin == R.id = R.tid

(* consecutive ranges of one source are one range *)
AddRun(runs, r) ==
  IF r[3] = 0 THEN runs
  ELSE IF runs # <<>> /\ runs[Len(runs)][1] = r[1] /\ runs[Len(runs)][2] + runs[Len(runs)][3] = r[2]
       THEN [runs EXCEPT ![Len(runs)] = <<r[1], @[2], @[3] + r[3]>>]
       ELSE Append(runs, r)

IsEvent(e) == l < Len(Trace) /\ R.ev = e /\ l' = l + 1

TReset == /\ IsEvent("reset")
          /\ cfgs' = [k \in 1 .. Len(R.cfgs) |-> Resolve(R.cfgs[k])]
          /\ inst' = <<>> /\ known' = <<>>

TNew == /\ IsEvent("new")
        /\ R.res = "ok" /\ R.n = 0 /\ R.id = 0
        /\ inst' = Upd([s |-> NewSession(cfgs[R.cfg]), cfg |-> R.cfg, cnt |-> 0, id |-> 0, runs |-> <<>>])
        /\ UNCHANGED <<cfgs, known>>

TStartOk ==
  /\ IsEvent("start") /\ Has(R.p) /\ StartOutcome(R.rate, R.ch) = "ok"
  /\ R.res = "ok"
  /\ Judge({"C01", "C23"}, R.n = 0 /\ R.id = 0 /\ Twin)
  /\ inst' = Upd([I EXCEPT !.s = AfterStart(@, R.rate, R.ch), !.cnt = R.n, !.id = R.id, !.runs = <<>>])
  /\ UNCHANGED <<cfgs, known>>

TStartRefused ==
  /\ IsEvent("start") /\ Has(R.p) /\ StartOutcome(R.rate, R.ch) # "ok"
  /\ Judge({"C06"}, R.res = StartOutcome(R.rate, R.ch) /\ Same(I))
  /\ inst' = Upd([I EXCEPT !.cnt = R.n, !.id = R.id])
  /\ UNCHANGED <<cfgs, known>>

TBad ==   \* consume of a partial frame: panics, takes nothing
  /\ IsEvent("bad") /\ Has(R.p)
  /\ Judge({"C06"}, R.res = "panic" /\ Same(I))
  /\ inst' = Upd([I EXCEPT !.cnt = R.n, !.id = R.id])
  /\ UNCHANGED <<cfgs, known>>

TConsume ==
  /\ IsEvent("consume") /\ Has(R.p)
  /\ R.res = "ok"
  /\ LET s2 == AfterConsume(I.s, R.len) IN
     /\ Judge({"C01", "C23", "C06"}, Twin)
     /\ Judge({"C03"}, R.id = R.mid)
     /\ Judge({"C04"}, /\ R.pre = I.id /\ R.n >= I.cnt
                       /\ VisibleOK(s2, R.n)
                       /\ R.len = 0 => Same(I))
     /\ inst' = Upd([I EXCEPT !.s = s2, !.cnt = R.n, !.id = R.id,
                              !.runs = AddRun(@, <<R.src, R.off, R.len>>)])
  /\ UNCHANGED <<cfgs, known>>

TFinish ==
  /\ IsEvent("finish") /\ Has(R.p)
  /\ R.res = "ok"
  /\ LET s2  == AfterFinish(I.s)
         key == <<I.cfg, I.s.rate, I.runs>>
         whole == I.s.rate # 0
     IN
     /\ R.runs = I.runs        \* the driver and the specification agree on the audio
     /\ Judge({"C01", "C23", "C06"}, Twin)
     /\ Judge({"C03"}, R.id = R.mid /\ (whole => R.id = R.cid))
     /\ Judge({"C02"}, whole => R.id = R.cid /\ R.n = R.cn /\ R.aid = R.cid)
     /\ Judge({"C04"}, /\ R.pre = I.id /\ R.n >= I.cnt
                       /\ VisibleOK(s2, R.n)
                       /\ I.s.n = I.s.last => Same(I))
     /\ Judge({"C05"}, I.s.rate = Native => R.n = Items(I.s.cfg, I.s.n))
     /\ Judge({"C11"}, I.s.rate # Native => VisibleOK(s2, R.n))
     (* the same audio always gives the same items, within and across sessions and instances *)
     /\ Judge({"C01", "C02", "C23"}, whole /\ key \in DOMAIN known => R.id = known[key])
     /\ known' = IF whole /\ key \notin DOMAIN known
                 THEN [k \in DOMAIN known \cup {key} |-> IF k = key THEN R.id ELSE known[k]] ELSE known
     /\ inst' = Upd([I EXCEPT !.s = s2, !.cnt = R.n, !.id = R.id])
  /\ UNCHANGED cfgs

TRead ==
  /\ IsEvent("read") /\ Has(R.p)
  /\ Judge({"C04"}, Same(I))
  /\ Judge({"C01", "C23", "C06"}, I.s.rate # 0 => Twin)
  /\ inst' = Upd([I EXCEPT !.cnt = R.n, !.id = R.id])
  /\ UNCHANGED <<cfgs, known>>

(* facts about a configuration: preset k as published, or derived from its options *)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
TCfgInfo ==
  /\ IsEvent("cfginfo")
  /\ LET c == Resolve(R.conf) IN
     Judge({"C05"}, /\ R.delay = Delay(c)
                    /\ R.rate = Native
                    /\ R.conf.id >= 0 => R.id = R.conf.id
                    /\ R.conf.id = -1 => R.id = PresetId(R.conf.preset)
                    (* hop / 11025 seconds in units of 10^-9 s, as a 32-bit float: 24 significant bits *)
                    /\ LET exact == MulDivRem(Hop(c), 40000000, 441)[1] IN Near(R.durnano, exact, 20 + exact \div 8000000))
  /\ UNCHANGED <<inst, cfgs, known>>

(* the same work alone and on several threads at once *)
TThreads ==
  /\ IsEvent("threads")
  /\ Judge({"C23"}, \A k \in DOMAIN R.pairs : R.pairs[k][1] = R.pairs[k][2] /\ R.pairs[k][1] >= 0)
  /\ UNCHANGED <<inst, cfgs, known>>
(* the same fingerprint in two processes, as hashes of the item sequences *)
TProcs ==
  /\ IsEvent("procs")
  /\ Judge({"C23"}, \A k \in DOMAIN R.hashes : R.hashes[k] = R.hashes[1])
  /\ UNCHANGED <<inst, cfgs, known>>

TDone == l = Len(Trace) /\ UNCHANGED tvars

TInit == l = 0 /\ inst = <<>> /\ cfgs = <<>> /\ known = <<>>
TNext == TReset \/ TNew \/ TStartOk \/ TStartRefused \/ TBad \/ TConsume \/ TFinish \/ TRead
         \/ TCfgInfo \/ TThreads \/ TProcs \/ TDone
==============================================================================
