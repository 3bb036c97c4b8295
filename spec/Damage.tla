-------------------------------- MODULE Damage --------------------------------
(* The damage alphabet: what a fault or an attacker writes over the fields of a stream.  The
   harness applies every value at every position of every base stream; the specification's only
   demand there is that detection ends with a format, within bounded work and memory. *)
EXTENDS FamHostile, Json
VARIABLES v, ph
DInit == v \in DOMAIN MutVals /\ ph = "new"
DPrint == /\ ph = "new"
          /\ PrintT(ToJson([i |-> v, b |-> MutVals[v]]))
          /\ ph' = "done" /\ UNCHANGED v
\* Fields of one to eight bytes, each value once.
DAlphabet == /\ Len(MutVals[v]) \in {1, 2, 4, 8}
            /\ \A w \in DOMAIN MutVals : MutVals[w] = MutVals[v] => w = v
=============================================================================
