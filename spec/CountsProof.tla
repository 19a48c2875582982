------------------------------ MODULE CountsProof ------------------------------
(* The counting skeleton of Pipeline for every configuration, without any bound on the audio: how many   *)
(* frames are staged, wait for framing, and have become rows and items.  Calls take any number of frames. *)
(* (At the internal rate; MCPipeline checks that Pipeline keeps Inv.)                                    *)
(* Inv is inductive (Apalache: Init => Inv, Inv /\ Next => Inv', Inv => Laws), so the count law of C05   *)
(* and the visibility bounds of C04 hold in the design for streams of every length cut in every way.     *)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  Buf,
  \* @type: Int;
  Frame,
  \* @type: Int;
  Overlap,
  \* @type: Int;
  Nc,
  \* @type: Int;
  W,
  \* @type: Str;
  Fault

(* every configuration *)
Shape == Frame \in Int /\ Overlap \in Int /\ Overlap >= 0 /\ Overlap < Frame /\ Buf \in Int /\ Buf > 0
         /\ Nc \in Int /\ Nc >= 1 /\ W \in Int /\ W >= 1
AnyShape == Shape /\ Fault = "none"
Planted1 == Shape /\ Fault = "ring"
Planted2 == Shape /\ Fault = "smoothing"
Planted3 == Shape /\ Fault = "tail"
Hop == Frame - Overlap

VARIABLES
  \* @type: Int;
  n,       \* frames given since start
  \* @type: Int;
  last,    \* of them, before the last finish
  \* @type: Int;
  pend,    \* frames of the running call not yet staged
  \* @type: Int;
  staged,
  \* @type: Int;
  ring,
  \* @type: Int;
  frames,  \* frames cut (ghost)
  \* @type: Int;
  ssize,
  \* @type: Int;
  rows,
  \* @type: Int;
  items,
  \* @type: Str;
  pc       \* "idle", "load" (in consume), "frame" / "frameF" (framing inside a consume / a finish)

Init == n = 0 /\ last = 0 /\ pend = 0 /\ staged = 0 /\ ring = 0 /\ frames = 0 /\ ssize = 1 /\ rows = 0 /\ items = 0 /\ pc = "idle"

Start == /\ pc = "idle" /\ n' = 0 /\ last' = 0 /\ pend' = 0 /\ staged' = 0 /\ ring' = (IF Fault = "ring" THEN ring ELSE 0)
         /\ frames' = 0 /\ ssize' = (IF Fault = "smoothing" THEN ssize ELSE 1) /\ rows' = 0 /\ items' = 0 /\ pc' = "idle"
Consume == \E k \in Nat : /\ pc = "idle" /\ n' = n + k /\ pend' = k /\ pc' = "load"
                          /\ UNCHANGED <<last, staged, ring, frames, ssize, rows, items>>
Load == /\ pc = "load"
        /\ IF pend = 0 THEN pc' = "idle" /\ UNCHANGED <<pend, staged, ring>>
           ELSE LET k == IF pend < Buf - staged THEN pend ELSE Buf - staged IN
                /\ pend' = pend - k
                /\ IF staged + k = Buf THEN staged' = 0 /\ ring' = ring + Buf /\ pc' = "frame"
                   ELSE staged' = staged + k /\ UNCHANGED ring /\ pc' = "load"
        /\ UNCHANGED <<n, last, frames, ssize, rows, items>>
FrameStep ==
  /\ pc \in {"frame", "frameF"}
  /\ IF ring < Frame
     THEN /\ pc' = (IF pc = "frame" THEN "load" ELSE "idle") /\ UNCHANGED <<ring, frames, ssize, rows, items>>
     ELSE /\ ring' = ring - Hop /\ frames' = frames + 1 /\ UNCHANGED pc
          /\ IF ssize >= Nc
             THEN /\ rows' = rows + 1 /\ UNCHANGED ssize
                  /\ items' = IF rows + 1 >= W THEN items + 1 ELSE items
             ELSE ssize' = ssize + 1 /\ UNCHANGED <<rows, items>>
  /\ UNCHANGED <<n, last, pend, staged>>
Finish == /\ pc = "idle" /\ ring' = (IF Fault = "tail" THEN ring ELSE ring + staged) /\ staged' = 0 /\ last' = n /\ pc' = "frameF"
          /\ UNCHANGED <<n, pend, frames, ssize, rows, items>>
Next == Start \/ Consume \/ Load \/ FrameStep \/ Finish

Inv ==
  /\ n \in Int /\ last \in Int /\ pend \in Int /\ staged \in Int /\ ring \in Int /\ frames \in Int /\ ssize \in Int
  /\ rows \in Int /\ items \in Int /\ pc \in {"idle", "load", "frame", "frameF"}
  /\ n >= 0 /\ last >= 0 /\ last <= n /\ pend >= 0 /\ staged >= 0 /\ staged < Buf /\ ring >= 0 /\ frames >= 0
  /\ pc \in {"idle", "frameF"} => pend = 0
  /\ pc = "frameF" => staged = 0 /\ last = n
  /\ n = pend + staged + ring + Hop * frames
  /\ last <= ring + Hop * frames
  /\ frames > 0 => ring >= Overlap
  /\ pc \in {"idle", "load"} => ring < Frame
  /\ ssize = (IF frames + 1 < Nc THEN frames + 1 ELSE Nc)
  /\ rows = (IF frames < Nc - 1 THEN 0 ELSE frames - (Nc - 1))
  /\ items = (IF rows < W - 1 THEN 0 ELSE rows - (W - 1))

Delay == (Nc - 1 + W - 1) * Hop + Overlap
(* floor((m - Delay) / Hop) without a division: the number k with k * Hop + Delay <= m < (k + 1) * Hop + Delay *)
IsItems(k, m) == IF m < Delay + Hop THEN k = 0 ELSE k * Hop + Delay <= m /\ m < (k + 1) * Hop + Delay
(* with everything passed on (after a finish), the count law; between calls, no more than n allows and no *)
(* less than what was finished or fills the buffer allows                                                *)
Laws == pc = "idle" =>
  /\ staged = 0 => IsItems(items, n)
  /\ items > 0 => items * Hop + Delay <= n
  /\ n - staged >= last /\ n - staged > n - Buf
  /\ IsItems(items, n - staged)
==============================================================================
