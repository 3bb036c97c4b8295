-------------------------------- MODULE Faults --------------------------------
(* I/O failures.  The detector reads its window, lets the base format's reader look deeper, and
   falls back to the generic reader; the environment may fail any read or seek, once or for ever.
   Content is abstract: what the signature, the deep reader and the generic reader would find.

   Each recorded run of the real detector under an injected fault is reduced to an observation
   (when the fault struck, whether it persists, and how the outcome relates to the outcome without
   the fault); an observation is accepted if some behaviour of this module shows it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES ph,      \* window, deep, generic, end
          content, \* [deep: the deep reader exists, want, generic]
          struck,  \* when the (first) fault struck: no, window, later
          ever,    \* whether it persists
          out      \* outcome: "" before the end; "specific", "text", "default", "error"
vars == <<ph, content, struck, ever, out>>

Contents == [want : {"specific", "text", "default"}, generic : {"text", "default"}, deep : BOOLEAN]
Sensible(x) == x.want = "specific" \/ x.want = x.generic
FInit == /\ content \in {x \in Contents : Sensible(x)} /\ ph = "window" /\ struck = "no" /\ out = ""
         /\ ever \in BOOLEAN
\* May an operation of the current phase fail or succeed?
MayFail == struck = "no" \/ ever
MayWork == struck = "no" \/ ~ever
Window == /\ ph = "window"
          /\ \/ /\ MayFail /\ struck' = "window" /\ out' = "error" /\ ph' = "end"
             \/ /\ MayWork /\ UNCHANGED struck
                /\ IF content.want = "specific" /\ ~content.deep
                   THEN out' = "specific" /\ ph' = "end"
                   ELSE out' = "" /\ ph' = IF content.deep THEN "deep" ELSE "generic"
          /\ UNCHANGED <<content, ever>>
Deep == /\ ph = "deep"
        /\ \/ /\ MayFail /\ struck' = "later" /\ out' = "" /\ ph' = "generic"
           \/ /\ MayWork /\ UNCHANGED struck
              /\ IF content.want = "specific" THEN out' = "specific" /\ ph' = "end"
                 ELSE out' = "" /\ ph' = "generic"     \* the structure is broken
        /\ UNCHANGED <<content, ever>>
Generic == /\ ph = "generic"
           /\ \/ /\ MayFail /\ struck' = "later" /\ out' = "default"
              \/ MayWork /\ UNCHANGED struck /\ out' = content.generic
           /\ ph' = "end" /\ UNCHANGED <<content, ever>>
FNext == Window \/ Deep \/ Generic

Ended == ph = "end"
\* C10.
WindowFaultIsReported == Ended => (struck = "window" <=> out = "error")
LaterFaultDegrades == Ended /\ struck = "later" => out \in {content.want, content.generic, "default"}
NoFaultNoChange == Ended /\ struck = "no" => out = content.want
NeverAnotherFormat == Ended /\ out = "specific" => content.want = "specific"

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
\* The behaviours' observations, as a set: (struck, want, generic, out).
Observations ==
    {<<"no", x.want, x.generic, x.want>> : x \in {y \in Contents : Sensible(y)}}
    \union {<<"window", x.want, x.generic, "error">> : x \in {y \in Contents : Sensible(y)}}
    \union {<<"later", x.want, x.generic, o>> :
                x \in {y \in Contents : Sensible(y)}, o \in {"specific", "text", "default"}}
Allowed(o) == /\ o \in Observations
              /\ o[1] = "later" => o[4] \in {o[2], o[3], "default"}
\* Every end of a behaviour is an allowed observation.
ObservationsComplete == Ended => Allowed(<<struck, content.want, content.generic, out>>)
=============================================================================
