------------------------------- MODULE Delivery -------------------------------
(* How a stream is delivered.  The reader below the detector answers each read with at most some
   number of bytes, or reports an interruption that is to be retried; the detector fills its buffer
   until it is full or the stream ends.  Word is the adversary's schedule, repeated for ever.

   Filled: whatever the schedule, a filled buffer holds the longest prefix of the rest of the stream
   that fits.  So all later decisions depend on the content only. 

   Every schedule is reported and replayed against the real detector, on the base streams of all
   families: the outcome must be the one the specification derives from the content alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS WordLen,     \* longest schedule
          Limit        \* longest stream and buffer in the model

VARIABLES word,   \* the schedule
          len,    \* length of the stream
          need,   \* size of the buffer
          got,    \* bytes filled
          i,      \* number of reads
          ph      \* fill, end, shown
vars == <<word, len, need, got, i, ph>>

Min2(a, b) == IF a < b THEN a ELSE b
\* "I": interruption; "B": a burst of interruptions, which differs from one only in length; "*": as much as wanted; otherwise at most that number of bytes.
Letters == {"1", "2", "3", "7", "I", "B", "*"}
Num(a) == CASE a = "1" -> 1 [] a = "2" -> 2 [] a = "3" -> 3 [] a = "7" -> 7 [] a = "*" -> Limit + 1
Stall == {"I", "B"}
Words == {w \in UNION {[1..n -> Letters] : n \in 1..WordLen} :
             /\ \E k \in DOMAIN w : w[k] \notin Stall
             /\ Cardinality({k \in DOMAIN w : w[k] = "B"}) <= 1}

DeInit == /\ word \in Words /\ len \in 0..Limit /\ need \in 1..Limit
          /\ got = 0 /\ i = 0 /\ ph = "fill"
Letter == word[(i % Len(word)) + 1]
Read == /\ ph = "fill" /\ got < need
        /\ i' = i + 1
        /\ IF Letter \in Stall
           THEN UNCHANGED <<got, ph>>
           ELSE LET n == Min2(Num(Letter), Min2(need - got, len - got))
                IN  /\ got' = got + n
                    /\ ph' = IF n = 0 THEN "end" ELSE "fill"
        /\ UNCHANGED <<word, len, need>>
Full == /\ ph = "fill" /\ got = need /\ ph' = "end" /\ UNCHANGED <<word, len, need, got, i>>
Shown == /\ ph = "end" /\ len = Limit /\ need = Limit
         /\ PrintT(ToJson([w |-> word]))
         /\ ph' = "shown" /\ UNCHANGED <<word, len, need, got, i>>
DeNext == Read \/ Full \/ Shown

Filled == ph \in {"end", "shown"} => got = Min2(need, len)
\* Only as many interruptions as the schedule holds come between two deliveries.
Progress == i <= Len(word) * (got + 2)
=============================================================================
