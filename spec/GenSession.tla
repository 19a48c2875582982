------------------------------ MODULE GenSession ------------------------------
(* Behaviours of several fingerprinters at the level of Session, with the real constants, for replay   *)
(* into the real API.  TLC -simulate walks this machine; lengths are chosen relative to the abstract   *)
(* state (edges of the buffer, of a frame, of the next item).  PROFILE weighs the kinds of calls.       *)
EXTENDS Session, Presets, Json, IOUtils, TLC

PROFILE == IOEnv.PROFILE
MaxOps == atoi(IOEnv.OPS)
SrcLen == 400000
MaxN == atoi(IOEnv.MAXN)

Cfgs ==   \* configurations in play, as the harness writes them
  CASE PROFILE = "count" ->
        << [preset |-> 1, fs |-> 0, ov |-> -1, nc |-> 0], [preset |-> 5, fs |-> 0, ov |-> -1, nc |-> 0],
           [preset |-> 2, fs |-> 256, ov |-> 64, nc |-> 1], [preset |-> 3, fs |-> 300, ov |-> 280, nc |-> 11],
           [preset |-> 4, fs |-> 64, ov |-> 0, nc |-> 3], [preset |-> 5, fs |-> 1000, ov |-> 333, nc |-> 2] >>
    [] PROFILE = "mix" ->
        << [preset |-> 2, fs |-> 32768, ov |-> 24576, nc |-> 1], [preset |-> 2, fs |-> 0, ov |-> -1, nc |-> 0],
           [preset |-> 1, fs |-> 16384, ov |-> 12288, nc |-> 2] >>
    [] OTHER ->
        << [preset |-> 2, fs |-> 0, ov |-> -1, nc |-> 0], [preset |-> 5, fs |-> 0, ov |-> -1, nc |-> 0],
           [preset |-> 1, fs |-> 0, ov |-> -1, nc |-> 0], [preset |-> 3, fs |-> 1024, ov |-> 512, nc |-> 4],
           [preset |-> 2, fs |-> 64, ov |-> 56, nc |-> 1], [preset |-> 1, fs |-> 200, ov |-> 180, nc |-> 2] >>
NSlots == IF PROFILE = "many" THEN 3 ELSE 1
Rates == CASE PROFILE \in {"count", "native"} -> <<11025>>
           [] PROFILE = "rates" -> <<1001, 2000, 4000, 8000, 11024, 11026, 12000, 16000, 22050, 32000, 44100, 48000,
                                     96000, 192000, 384000>>
           [] PROFILE = "mix" -> <<11025, 11025, 11025, 22050>>
           [] OTHER -> <<11025, 11025, 44100, 8000, 48000, 11026, 16000, 11025>>
Chans == CASE PROFILE = "mix" -> <<2, 3, 4, 5, 2, 1, 8, 3, 2, 17>>
           [] OTHER -> <<1, 2, 1, 3>>
Kinds == CASE PROFILE = "restart" -> <<"start", "again", "again", "consume", "consume", "consume", "consume", "finish", "read">>
           [] PROFILE = "split" -> <<"consume", "consume", "pour", "dribble", "dribble", "consume", "finish">>
           [] PROFILE = "native" -> <<"consume", "consume", "dribble", "pour", "finish", "consume", "consume">>
           [] PROFILE = "reject" -> <<"badstart", "bad", "bad", "consume", "consume", "finish", "start", "consume">>
           [] PROFILE = "many" -> <<"start", "consume", "consume", "consume", "finish", "consume", "read">>
           [] PROFILE = "count" -> <<"consume", "consume", "consume", "finish", "start">>
           [] PROFILE = "append" -> <<"consume", "consume", "consume", "finish", "read", "consume", "finish", "dribble">>
           [] PROFILE = "mix" -> <<"consume", "consume", "pour", "pour", "pour", "finish", "consume", "start">>
           [] OTHER -> <<"consume", "consume", "consume", "finish", "consume", "consume", "start">>

VARIABLES st,    \* slot -> abstract session
          cf,    \* slot -> index into Cfgs
          pos,   \* slot -> next sample of the source
          h,     \* the calls so far
          pc     \* where the walk is: k = "new", "pick", "do" (slot p, kind op), "end", "gone"
gvars == <<st, cf, pos, h, pc>>

At(x) == [k |-> x, p |-> 0, op |-> "", w |-> 0]
Slots == 1 .. NSlots
GInit == /\ st = [p \in Slots |-> NewSession(Resolve(Cfgs[1]))] /\ cf = [p \in Slots |-> 0]
         /\ pos = [p \in Slots |-> 0] /\ h = <<>> /\ pc = At("new")

Emit(op) == h' = Append(h, op)

(* every slot is created and started before the walk *)
Create(p, k, r, c) ==
  /\ cf[p] = 0
  /\ cf' = [cf EXCEPT ![p] = k]
  /\ st' = [st EXCEPT ![p] = AfterStart(NewSession(Resolve(Cfgs[k])), r, c)]
  /\ h' = h \o << [op |-> "new", p |-> p, cfg |-> k], [op |-> "start", p |-> p, rate |-> r, ch |-> c] >>
  /\ pc' = IF \A q \in Slots : cf'[q] # 0 THEN At("pick") ELSE At("new")
  /\ UNCHANGED pos

Pick == /\ pc.k = "pick" /\ Len(h) < MaxOps
        /\ \E p \in Slots, k \in 1 .. Len(Kinds) : pc' = [k |-> "do", p |-> p, op |-> Kinds[k], w |-> k]
        /\ UNCHANGED <<st, cf, pos, h>>

(* lengths worth trying in state s *)
Staged(s) == (s.n - s.last) % Buf
ToItem(s) == IF s.rate # Native THEN 0
             ELSE LET need == IF s.n < Span(s.cfg) THEN Span(s.cfg)
                              ELSE Delay(s.cfg) + (Items(s.cfg, s.n) + 1) * Hop(s.cfg)
                  IN need - s.n
Lengths(s) ==
  {0, 1, 2, 7, 1365, 4095, 4096, 10007, Buf - 1, Buf, Buf + 1, 2 * Buf + 5, 70001}
  \cup {Max2(0, Buf - Staged(s) + d) : d \in {-1, 0, 1}}
  \cup {Max2(0, ToItem(s) + d) : d \in {-1, 0, 0}}
  \cup {Max2(0, ToItem(s) + 3 * Hop(s.cfg) + d) : d \in {-1, 0}}
Room(p) == SrcLen - pos[p]
Fits(p, len) == len <= Room(p) /\ st[p].n + len <= MaxN

DoStart(p) == \E r \in 1 .. Len(Rates), c \in 1 .. Len(Chans), o \in {0, 777, 40000} :
  /\ st' = [st EXCEPT ![p] = AfterStart(@, Rates[r], Chans[c])]
  /\ pos' = [pos EXCEPT ![p] = o]
  /\ Emit([op |-> "start", p |-> p, rate |-> Rates[r], ch |-> Chans[c]]) /\ UNCHANGED cf
(* once more at the same rate *)
DoAgain(p) == \E c \in 1 .. Len(Chans), o \in {0, 777, 40000} :
  /\ st' = [st EXCEPT ![p] = AfterStart(@, @.rate, Chans[c])]
  /\ pos' = [pos EXCEPT ![p] = o]
  /\ Emit([op |-> "start", p |-> p, rate |-> st[p].rate, ch |-> Chans[c]]) /\ UNCHANGED cf
DoBadStart(p) == \E r \in {0, 1, 999, 1000, 1001, 11025, 44100}, c \in {0, 1, 2} :
  /\ StartOutcome(r, c) # "ok"
  /\ Emit([op |-> "start", p |-> p, rate |-> r, ch |-> c]) /\ UNCHANGED <<st, cf, pos>>
DoBad(p) == \E x \in {0, 3, 1000, Buf + 4} :
  /\ IF st[p].ch > 1 THEN Emit([op |-> "bad", p |-> p, src |-> p, off |-> 0, extra |-> x])
     ELSE Emit([op |-> "read", p |-> p])
  /\ UNCHANGED <<st, cf, pos>>
DoConsume(p) == \E len \in Lengths(st[p]) :
  LET k == IF Fits(p, len) THEN len ELSE 0 IN
  /\ st' = [st EXCEPT ![p] = AfterConsume(@, k)]
  /\ pos' = [pos EXCEPT ![p] = @ + k]
  /\ Emit([op |-> "consume", p |-> p, src |-> p, off |-> pos[p], len |-> k]) /\ UNCHANGED cf
(* many small calls of d frames each *)
DoDribble(p) == \E d \in {1, 2, 13, 100, 1365}, m \in {5, 40} :
  LET k == IF Fits(p, d * m) THEN d * m ELSE 0 IN
  /\ st' = [st EXCEPT ![p] = AfterConsume(@, k)]
  /\ pos' = [pos EXCEPT ![p] = @ + k]
  /\ Emit([op |-> "dribble", p |-> p, src |-> p, off |-> pos[p], len |-> k, step |-> d]) /\ UNCHANGED cf
(* thousands of calls of the lengths of one pattern, over and over *)
Patterns == << <<1>>, <<2>>, <<3>>, <<7>>, <<1, 2, 3, 4, 5, 6, 7>>, <<9, 7>>, <<15, 1>>, <<8, 5>>, <<13>>, <<0, 6>>,
               <<31, 33>>, <<100, 3>> >>
DoPour(p) == \E t \in 1 .. Len(Patterns), d \in {5000, 30011, 50000, 80000} :
  LET k == IF Fits(p, d) THEN d ELSE 0 IN
  /\ st' = [st EXCEPT ![p] = AfterConsume(@, k)]
  /\ pos' = [pos EXCEPT ![p] = @ + k]
  /\ Emit([op |-> "pour", p |-> p, src |-> p, off |-> pos[p], len |-> k, steps |-> Patterns[t]]) /\ UNCHANGED cf
DoFinish(p) == /\ st' = [st EXCEPT ![p] = AfterFinish(@)]
               /\ Emit([op |-> "finish", p |-> p]) /\ UNCHANGED <<cf, pos>>
DoRead(p) == Emit([op |-> "read", p |-> p]) /\ UNCHANGED <<st, cf, pos>>

Perform ==
  /\ pc.k = "do"
  /\ pc' = At("pick")
  /\ LET p == pc.p IN
     CASE pc.op = "start" -> DoStart(p)
       [] pc.op = "again" -> DoAgain(p)
       [] pc.op = "badstart" -> DoBadStart(p)
       [] pc.op = "bad" -> DoBad(p)
       [] pc.op = "consume" -> DoConsume(p)
       [] pc.op = "dribble" -> DoDribble(p)
       [] pc.op = "pour" -> DoPour(p)
       [] pc.op = "finish" -> DoFinish(p)
       [] pc.op = "read" -> DoRead(p)

(* every history ends with a finish on each slot *)
Final == /\ pc.k = "pick" /\ Len(h) >= MaxOps /\ pc' = At("end")
         /\ h' = h \o [k \in 1 .. NSlots |-> [op |-> "finish", p |-> k]]
         /\ UNCHANGED <<st, cf, pos>>
Stop == pc.k = "end" /\ pc' = At("gone") /\ UNCHANGED <<st, cf, pos, h>>

GNext == \/ (pc.k = "new" /\ \E p \in Slots, k \in 1 .. Len(Cfgs), r \in 1 .. Len(Rates), c \in 1 .. Len(Chans) :
                (\A q \in 1 .. p - 1 : cf[q] # 0) /\ Create(p, k, Rates[r], Chans[c]))
         \/ Pick \/ Perform \/ Final \/ Stop
GSpec == GInit /\ [][GNext]_gvars
(* prints each finished behaviour once *)
ASSUME PrintT(<<"CFGS", ToJson(Cfgs)>>)
PrintDone == pc.k = "end" => PrintT(<<"BEHAVIOUR", ToJson(h)>>)
==============================================================================
