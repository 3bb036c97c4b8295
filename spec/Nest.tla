--------------------------------- MODULE Nest ---------------------------------
(* Detections inside detections, in one thread: the source that a detection reads from may itself
   run detections before it answers a call (an archive that hands out a member, a cache that looks
   at what it stores).  Detections form a stack; only the top one makes calls, and while it is
   there the ones below stand still in the middle of a call of theirs.  Every detection works on
   registers of its own.  The shapes TLC enumerates are replayed: nest lists, for the inner
   detections in the order of their starts, the depth and the call of the detection below. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth,       \* most detections at the same time
          Calls,       \* calls that one detection makes in this model
          Inner        \* most inner detections

VARIABLES stack,       \* [content, made]: the detections that are running, the innermost one last
          next,        \* contents are numbered by their starts
          nest,        \* the starts of the inner ones
          out          \* outcomes, by content
vars == <<stack, next, nest, out>>

Outcome(content) == content
NInit == /\ stack = <<[content |-> 1, made |-> 0]>> /\ next = 2 /\ nest = <<>> /\ out = <<0>>
Top == stack[Len(stack)]
Running == stack # <<>>
Under(s) == SubSeq(s, 1, Len(s) - 1)
\* The top detection makes a call: its source answers at once,
Answer == /\ Running /\ Top.made < Calls
          /\ stack' = [stack EXCEPT ![Len(stack)].made = @ + 1]
          /\ UNCHANGED <<next, nest, out>>
\* or starts an inner detection first (and answers afterwards).
Start == /\ Running /\ Top.made < Calls /\ Len(stack) < Depth /\ next <= Inner + 1
         /\ stack' = Append(stack, [content |-> next, made |-> 0])
         /\ nest' = Append(nest, <<Len(stack), Top.made + 1>>)
         /\ out' = Append(out, 0) /\ next' = next + 1
End == /\ Running /\ Top.made = Calls
       /\ out' = [out EXCEPT ![Top.content] = Outcome(Top.content)]
       /\ stack' = Under(stack) /\ UNCHANGED <<next, nest>>
Show == /\ ~Running /\ nest # <<>> /\ PrintT(ToJson([n |-> nest])) /\ UNCHANGED vars
NNext == Answer \/ Start \/ End \/ Show

\* The outcome of each detection is the one of its content, whatever runs inside or around it.
Undisturbed == \A c \in DOMAIN out : out[c] \in {0, Outcome(c)}
AllEnd == ~Running => \A c \in DOMAIN out : out[c] = Outcome(c)
\* The stack holds the contents in the order of their starts.
Nested == \A x, y \in DOMAIN stack : x < y => stack[x].content < stack[y].content
===============================================================================
