------------------------------ MODULE ChunksProof ------------------------------
(* The loop of fpcalc (Fpcalc.tla) over numbers alone: files, packets, limits and chunks of any size.   *)
(* Inv is inductive (Apalache: Init => Inv, Inv /\ Next => Inv', Inv => Laws), so every result is the   *)
(* one the law prescribes, however the file is cut into packets and however large all numbers are.      *)
(* (MCFpcalc checks that Fpcalc keeps Inv.)                                                              *)
EXTENDS Integers

CONSTANTS
  \* @type: Str;
  Fault
AnyInput == Fault = "none"
Planted1 == Fault = "extra_stays"
Planted2 == Fault = "whole_packet"

VARIABLES
  \* @type: Int;
  Limit,    \* 0: none; this and the next three never change
  \* @type: Int;
  Chunk,    \* 0: none
  \* @type: Int;
  Delay,    \* what the first chunk has more, with overlap
  \* @type: Bool;
  Overlap,
  \* @type: Int;
  taken,    \* frames taken out of packets
  \* @type: Int;
  pkt,      \* of them, not yet consumed
  \* @type: Bool;
  last,     \* no more packets: the limit is reached
  \* @type: Int;
  fed,      \* the fingerprinter's session is the frames from .. fed
  \* @type: Int;
  from,
  \* @type: Int;
  start,    \* where the current result starts
  \* @type: Int;
  size,     \* as the program counts it
  \* @type: Bool;
  first,
  \* @type: Int;
  k,        \* results so far (ghost)
  \* @type: Int;
  mark,     \* where the law puts the end of result k (ghost): k * Chunk + Extra0
  \* @type: Bool;
  good,     \* every result so far was the law's (ghost)
  \* @type: Str;
  pc

Any == Limit \in Int /\ Limit >= 0 /\ Chunk \in Int /\ Chunk >= 0 /\ Delay \in Int /\ Delay >= 0 /\ Overlap \in BOOLEAN
Extra0 == IF Chunk > 0 /\ Overlap THEN Delay ELSE 0
Extra == IF Chunk > 0 /\ Overlap /\ (first \/ Fault = "extra_stays") THEN Delay ELSE 0

Init == Any /\ taken = 0 /\ pkt = 0 /\ last = FALSE /\ fed = 0 /\ from = 0 /\ start = 0 /\ size = 0 /\ first = TRUE
        /\ k = 0 /\ mark = Extra0 /\ good = TRUE /\ pc = "read"

ReadPacket ==
  \E f \in Nat :
    /\ pc = "read" /\ ~last /\ f > 0
    /\ LET rest == Limit - taken
           use == IF Limit = 0 \/ Fault = "whole_packet" THEN f ELSE IF f < rest THEN f ELSE rest
       IN /\ pkt' = use /\ taken' = taken + use
          /\ last' = (Limit > 0 /\ f > rest)
          /\ pc' = (IF use = 0 THEN "read" ELSE "feed")
    /\ UNCHANGED <<fed, from, start, size, first, k, mark, good>>
Feed ==
  /\ pc = "feed" /\ pkt > 0
  /\ LET room == Chunk + Extra - size
         part == IF Chunk > 0 /\ room < pkt THEN room ELSE pkt
         full == Chunk > 0 /\ pkt > room
     IN /\ fed' = fed + part /\ pkt' = pkt - part /\ size' = size + part
        /\ pc' = (IF full THEN "close" ELSE IF part = pkt THEN "read" ELSE "feed")
  /\ UNCHANGED <<taken, last, from, start, first, k, mark, good>>
(* the result printed is about the frames start .. fed of the session from .. fed *)
CloseChunk ==
  /\ pc = "close"
  /\ good' = (good /\ start = (IF k = 0 THEN 0 ELSE mark) /\ fed = mark + Chunk /\ size - Extra = Chunk
              /\ from = (IF Overlap THEN 0 ELSE start))
  /\ k' = k + 1 /\ mark' = mark + Chunk
  /\ start' = fed /\ from' = (IF Overlap THEN from ELSE fed)
  /\ size' = 0 /\ first' = FALSE
  /\ pc' = (IF pkt = 0 THEN "read" ELSE "feed")
  /\ UNCHANGED <<taken, pkt, last, fed>>
(* the file ends between any two packets *)
EndOfStream ==
  /\ pc = "read"
  /\ good' = (good /\ (size > 0 => /\ start = (IF k = 0 THEN 0 ELSE mark)
                                   /\ Chunk > 0 => fed <= mark + Chunk
                                   /\ size - Extra = fed - start - (IF k = 0 THEN Extra0 ELSE 0)
                                   /\ from = (IF Overlap THEN 0 ELSE start)))
  /\ k' = (IF size > 0 THEN k + 1 ELSE k)
  /\ pc' = "done"
  /\ UNCHANGED <<taken, pkt, last, fed, from, start, size, first, mark>>
Next == /\ UNCHANGED <<Limit, Chunk, Delay, Overlap>>
        /\ \/ ReadPacket \/ Feed \/ CloseChunk \/ EndOfStream
           \/ pc = "done" /\ UNCHANGED <<taken, pkt, last, fed, from, start, size, first, k, mark, good, pc>>

Inv ==
  /\ Any
  /\ taken \in Int /\ pkt \in Int /\ last \in BOOLEAN /\ fed \in Int /\ from \in Int /\ start \in Int /\ size \in Int
  /\ first \in BOOLEAN /\ k \in Int /\ mark \in Int /\ good \in BOOLEAN /\ pc \in {"read", "feed", "close", "done"}
  /\ good /\ k >= 0 /\ pkt >= 0 /\ taken >= 0 /\ size >= 0
  /\ taken = fed + pkt /\ fed = start + size
  /\ Limit > 0 => taken <= Limit
  /\ last => Limit > 0 /\ taken = Limit
  /\ from = (IF Overlap /\ Chunk > 0 THEN 0 ELSE start)
  /\ Overlap => from = 0
  /\ start >= 0
  /\ pc # "done" => /\ first = (k = 0)
                    /\ start = (IF k = 0 THEN 0 ELSE mark)
                    /\ k = 0 => mark = Extra0
                    /\ k > 0 => Chunk > 0 /\ mark >= Chunk + Extra0
  /\ Chunk > 0 => size <= Chunk + (IF start = 0 THEN Extra0 ELSE 0)
  /\ Chunk = 0 => start = 0 /\ pc # "close"
  /\ start = 0 \/ start >= Chunk + Extra0
  /\ pc \in {"read", "done"} => pkt = 0
  /\ pc = "feed" => pkt > 0
  /\ pc = "close" => Chunk > 0 /\ pkt > 0 /\ size = Chunk + Extra
  (* between calls only a started chunk can be empty, and only at the very start *)
  /\ pc \in {"read", "done"} /\ taken > 0 => size > 0
  /\ pc = "done" => (taken > 0 => k > 0) /\ (Chunk = 0 => k <= 1)

(* at the end: all of the stream (up to the limit) went to exactly one result each *)
Laws ==
  /\ good
  /\ pc = "done" => fed = taken /\ (last => taken = Limit) /\ (taken > 0 => start < taken /\ k > 0)
  /\ pc = "done" /\ Chunk = 0 => k <= 1
  /\ pc = "done" /\ taken = 0 => size = 0
==============================================================================
