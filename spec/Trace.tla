-------------------------------- MODULE Trace --------------------------------
(* Validation of recorded detections.  Each line of the recording holds a stream that was given to
   the real detector, the reader features it was built with, and the format it returned.  The
   recording is accepted if every returned format is the outcome of a behaviour of Detector. *)
EXTENDS Detect, Json, IOUtils

VARIABLES i, ph, m, st
TView == <<i, ph, m>>
Recording == ndJsonDeserialize(IOEnv.RECORDING)
Features(r) == {r.f[k] : k \in DOMAIN r.f}
Source(r) == [len |-> r.len,
              segs |-> [k \in 1..Len(r.s) |-> [at |-> r.s[k][1], n |-> r.s[k][2], b |-> r.s[k][3]]]]

TInit == i \in 1..Len(Recording) /\ ph = "probe" /\ m = Machine("none") /\ st = EmptyStream
TProbe == /\ ph = "probe"
          /\ st' = Source(Recording[i])
          /\ LET g == IF st'.len = 0 THEN "Empty" ELSE SigOf(st')
                 F == Features(Recording[i])
             IN  IF g \in BaseFormats /\ ReaderOf[g] \in F
                 THEN ph' = "deep" /\ m' = Machine(ReaderOf[g])
                 ELSE /\ ph' = "judge"
                      /\ m' = [Machine("none") EXCEPT
                                 !.out = IF g = "none" THEN GenericOf(st', F) ELSE g]
          /\ UNCHANGED i
TDeep == /\ ph = "deep"
         /\ LET n == Step(st, m)
            IN  IF n.out = "" THEN m' = n /\ ph' = "deep"
                ELSE /\ ph' = "judge"
                     /\ m' = IF n.out = "ERR"
                             THEN [n EXCEPT !.out = GenericOf(st, Features(Recording[i]))] ELSE n
         /\ UNCHANGED <<i, st>>
\* The recorded result is the specified one, or the record is rejected.
TAccept == /\ ph = "judge"
           /\ \/ Recording[i].got = m.out /\ ph' = "accepted"
              \/ /\ Recording[i].got # m.out
                 /\ PrintT(ToJson([reject |-> Recording[i].id, got |-> Recording[i].got, want |-> m.out, r |-> m.rd]))
                 /\ ph' = "rejected"
           /\ UNCHANGED <<i, m, st>>
TNext == TProbe \/ TDeep \/ TAccept
=============================================================================
