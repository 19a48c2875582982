-------------------------------- MODULE MCConfig --------------------------------
(* All sequences of at most MaxCalls calls over two values per option. *)
EXTENDS Config
CONSTANTS MaxCalls
Ops == {"id", "frame", "overlap", "coefs", "interp", "silence"}
Vals(op) == CASE op = "id" -> {0, 7} [] op = "frame" -> {512, 3000} [] op = "overlap" -> {0, 2731}
              [] op = "coefs" -> {<<8>>, <<1, 2, 3>>} [] op = "interp" -> {0, 1} [] op = "silence" -> {0, 50}
Field(c, op) == CASE op = "id" -> c.id [] op = "frame" -> c.frame [] op = "overlap" -> c.overlap
                  [] op = "coefs" -> c.coefs [] op = "interp" -> c.interp [] op = "silence" -> c.silence
VARIABLES k, calls, c, last
vars == <<k, calls, c, last>>
Init == /\ k \in 1 .. 5 /\ calls = <<>> /\ c = Published(k)
        /\ last = [op \in Ops |-> Field(c, op)]
Call(op) == /\ Len(calls) < MaxCalls
            /\ \E v \in Vals(op) : /\ calls' = Append(calls, [op |-> op, v |-> v])
                                   /\ c' = Apply(c, [op |-> op, v |-> v])
                                   /\ last' = [last EXCEPT ![op] = v]
            /\ UNCHANGED k
Next == \E op \in Ops : Call(op)
(* the last value given for each option, or the preset's, and nothing else *)
LastWins == \A op \in Ops : Field(c, op) = last[op]
BuildAgrees == Build(k, calls) = c
(* calls of different options commute *)
Swapped == LET n == Len(calls) IN
  n >= 2 /\ calls[n].op # calls[n - 1].op =>
    Build(k, [calls EXCEPT ![n] = calls[n - 1], ![n - 1] = calls[n]]) = c
KeepsTables == c.cls = Published(k).cls
(* delay() is the audio that is needed beyond the hops of the items *)
DelayIsWindow == Usable(c) => CItems(c, CDelay(c) + 3 * CHop(c)) = 3 /\ CItems(c, CDelay(c) + 3 * CHop(c) - 1) = 2
WindowIsDelay == Usable(c) => CDelay(c) + CHop(c) = c.frame + (Len(c.coefs) - 1 + 15) * CHop(c)
=============================================================================
