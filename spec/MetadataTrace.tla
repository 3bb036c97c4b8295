----------------------------- MODULE MetadataTrace -----------------------------
(* Validation of the rows that the real library shows.  A row names the variant it belongs to. *)
EXTENDS Metadata, IOUtils
Recording == ndJsonDeserialize(IOEnv.RECORDING)
Row(v) == Catalog[CHOOSE k \in DOMAIN Catalog : Catalog[k].v = v]
Fits(r) == LET c == Row(r.v)
           IN  /\ r.n = c.n /\ r.s = c.s /\ r.m = c.m /\ r.e = c.e /\ r.k = c.k
               /\ r.d = c.n           \* displaying it prints its name
MtInit == i \in DOMAIN Recording /\ ph = "new"
MtNext == /\ ph = "new" /\ UNCHANGED i
          /\ IF Fits(Recording[i]) THEN ph' = "accepted"
             ELSE PrintT(ToJson([reject |-> i, want |-> Row(Recording[i].v)])) /\ ph' = "rejected"
=============================================================================
