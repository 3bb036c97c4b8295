------------------------------ MODULE Interleave ------------------------------
(* Two detections that run at the same time, interleaved at their calls of read and seek.  Each
   call happens atomically; between two calls of one detection the other may make any number of
   calls.  A detection works on registers of its own: what it has seen so far is a function of its
   own content and of its own calls only.  The words of calls that TLC enumerates are replayed:
   the harness lets two threads make their calls in exactly this order. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Length,       \* calls that are ordered explicitly
          Calls         \* calls that one detection makes in this model

VARIABLES word,         \* who made which call
          seen,         \* registers of each detection: the calls it has made, by content
          out           \* outcome of each detection, 0: none yet
vars == <<word, seen, out>>

Content(x) == x
Outcome(x) == Content(x)
IInit == word = <<>> /\ seen = [x \in {1, 2} |-> <<>>] /\ out = [x \in {1, 2} |-> 0]
Call(x) == /\ out[x] = 0 /\ Len(word) < Length
           /\ word' = Append(word, x)
           /\ seen' = [seen EXCEPT ![x] = Append(@, <<Content(x), Len(@) + 1>>)]
           /\ out' = IF Len(seen'[x]) = Calls THEN [out EXCEPT ![x] = seen'[x][Calls][1]] ELSE out
Show == /\ Len(word) = Length \/ \A x \in {1, 2} : out[x] # 0
        /\ PrintT(ToJson([w |-> word])) /\ UNCHANGED vars
INext == Call(1) \/ Call(2) \/ Show

\* No detection sees anything of the other one, and each outcome is the one of its content.
Private == \A x \in {1, 2} : \A k \in DOMAIN seen[x] : seen[x][k] = <<Content(x), k>>
Undisturbed == \A x \in {1, 2} : out[x] \in {0, Outcome(x)}
Mine(x) == SelectSeq(word, LAMBDA y : y = x)
CountsOwnCalls == \A x \in {1, 2} : Len(seen[x]) = Len(Mine(x))
===============================================================================
