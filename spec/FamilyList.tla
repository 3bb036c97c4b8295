------------------------------ MODULE FamilyList ------------------------------
(* Shows the documented families: what each reader may report. *)
EXTENDS Detect, Json
VARIABLES r, ph
FlInit == r \in DOMAIN Family /\ ph = "new"
FlNext == ph = "new" /\ PrintT(ToJson([r |-> r, f |-> SetToSeq(Family[r])])) /\ ph' = "done" /\ UNCHANGED r
=============================================================================
