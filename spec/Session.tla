------------------------------- MODULE Session -------------------------------
(* Histories of detections in one process.  A step detects some content through some entry point;
   the detector keeps no state, so each outcome is the one of the content alone.  Contents are
   numbered; the harness resolves the numbers to streams whose outcomes Detector specifies.

   Two threads interleave their detections freely: the outcome of each step is fixed when it
   starts, whatever the other thread does meanwhile. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* number of contents
          M,        \* number of entry points
          Stride,   \* one in Stride pairs is explored
          Seed

VARIABLES a, b,     \* contents of the history a, b, a
          t,        \* steps done by each thread
          res,      \* outcomes seen by each thread, as content numbers
          ph
vars == <<a, b, t, res, ph>>

Outcome(content) == content          \* a function of the content only
\* Entry points of the three steps.
Entry(k) == CASE k = 1 -> (a * 7 + b + Seed) % M
              [] k = 2 -> (a + b * 5 + Seed) % M
              [] k = 3 -> (a * 3 + b * 11 + 1 + Seed) % M
Content(k) == IF k = 2 THEN b ELSE a
SInit == /\ a \in 0..(N - 1) /\ b \in {x \in 0..(N - 1) : (x + a * 31 + Seed) % Stride = 0}
         /\ t = [x \in {1, 2} |-> 0] /\ res = [x \in {1, 2} |-> <<>>] /\ ph = "run"
Detect(x) == /\ ph = "run" /\ t[x] < 3
             /\ t' = [t EXCEPT ![x] = @ + 1]
             /\ res' = [res EXCEPT ![x] = Append(@, Outcome(Content(t'[x])))]
             /\ UNCHANGED <<a, b, ph>>
Show == /\ ph = "run" /\ t = [x \in {1, 2} |-> 3]
        /\ PrintT(ToJson([h |-> [k \in 1..3 |-> <<Content(k), Entry(k)>>]]))
        /\ ph' = "done" /\ UNCHANGED <<a, b, t, res>>
SNext == Detect(1) \/ Detect(2) \/ Show

Deterministic == \A x \in {1, 2} : \A k \in 1..t[x] : res[x][k] = Outcome(Content(k))
Agree == \A k \in 1..3 : t[1] >= k /\ t[2] >= k => res[1][k] = res[2][k]
=============================================================================
