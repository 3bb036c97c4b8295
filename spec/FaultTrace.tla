------------------------------ MODULE FaultTrace ------------------------------
(* Validation of recorded runs under injected faults. *)
EXTENDS Faults
VARIABLES n, st
Recorded == ndJsonDeserialize(IOEnv.RECORDING)
FTInit == /\ n \in 1..Len(Recorded) /\ st = "new"
          /\ ph = "end" /\ content = [want |-> Recorded[n].want, generic |-> Recorded[n].generic, deep |-> TRUE]
          /\ struck = Recorded[n].struck /\ ever = FALSE /\ out = Recorded[n].out
FTNext == /\ st = "new"
          /\ IF Allowed(<<struck, content.want, content.generic, out>>) THEN st' = "accepted"
             ELSE /\ PrintT(ToJson([reject |-> n])) /\ st' = "rejected"
          /\ UNCHANGED <<n, ph, content, struck, ever, out>>
=============================================================================
