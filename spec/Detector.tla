------------------------------- MODULE Detector -------------------------------
(* One detection as a transition system.  A behaviour starts from an abstract case, which Enc turns
   into a stream; the leading window is probed for a signature, the reader of the base format runs
   step by step, the generic reader looks at the stream, and the outcome is reported together with
   the stream: the report is what is replayed against the real detector.

   Which reader features are enabled is not part of the state: all outcomes for the four relevant
   combinations are derived from the same run (FeatureLocality shows that no other feature
   matters). *)
EXTENDS Detect, Json

CONSTANTS Enc(_),        \* the stream of a case
          Meaning(_),    \* the format the base format's reader must find in it: a format, "ERR"
                         \* (generic result), or "any" if the case has no meaning of its own
          Extra(_),      \* what the report adds about a case
          SigMeaning(_)  \* the format its signature must show, or "any"

VARIABLES c,      \* the case
          ph,     \* phase: new, deep, generic, report, done
          s,      \* its stream
          sig,    \* signature format, "none" or "Empty"
          m,      \* state of the base format's reader
          txt     \* verdict of the text reader
vars == <<c, ph, s, sig, m, txt>>
View == <<c, ph, m>>      \* s, sig and txt are functions of c

HasReader(g) == g \in BaseFormats
Idle == Machine("none")

Start(case) == /\ c = case
               /\ ph = "new" /\ s = EmptyStream /\ sig = "" /\ m = Idle /\ txt = ""

Probe == /\ ph = "new"
         /\ s' = Enc(c)
         /\ sig' = IF s'.len = 0 THEN "Empty" ELSE SigOf(s')
         /\ IF HasReader(sig') THEN ph' = "deep" /\ m' = Machine(ReaderOf[sig'])
            ELSE ph' = "generic" /\ m' = Idle
         /\ UNCHANGED <<c, txt>>
Deep == /\ ph = "deep"
        /\ m' = Step(s, m)
        /\ ph' = IF m'.out = "" THEN "deep" ELSE "generic"
        /\ UNCHANGED <<c, s, sig, txt>>
Generic == /\ ph = "generic"
           /\ txt' = IF s.len > 0 /\ IsText(s) THEN "PlainText" ELSE Default
           /\ ph' = "report"
           /\ UNCHANGED <<c, s, sig, m>>

\* The outcome with the base format's reader and the text reader on or off.
Outcome(deepOn, txtOn) ==
    LET gen == IF txtOn THEN txt ELSE Default
    IN  CASE sig = "Empty" -> "Empty"
          [] sig = "none" -> gen
          [] OTHER -> IF HasReader(sig) /\ deepOn
                      THEN IF m.out = "ERR" THEN gen ELSE m.out
                      ELSE sig
Ser(st) == [i \in 1..Len(st.segs) |-> <<st.segs[i].at, st.segs[i].n, st.segs[i].b>>]
Report == /\ ph = "report"
          /\ PrintT(ToJson([c |-> c, r |-> m.rd, sig |-> sig, k |-> m.k,
                            e |-> <<Outcome(TRUE, TRUE), Outcome(TRUE, FALSE),
                                    Outcome(FALSE, TRUE), Outcome(FALSE, FALSE)>>,
                            t |-> txt, len |-> s.len, s |-> Ser(s), x |-> Extra(c)]))
          /\ ph' = "done"
          /\ UNCHANGED <<c, s, sig, m, txt>>
Next == Probe \/ Deep \/ Generic \/ Report

(***************************************************************************)
(* Properties of the specification                                         *)
(***************************************************************************)
Over == ph \in {"report", "done"}

\* C02: a reader makes a bounded number of steps, whatever the stream declares.
StepLimit == [r \in DeepReaders |->
    CASE r = "asf" -> 2 + AsfObjectLimit * (2 + AsfDescriptorLimit)
      [] r = "cfb" -> 4 [] r = "ebml" -> 2 + EbmlElementLimit [] r = "exe" -> 2
      [] r = "id3v2" -> 3 + Id3TagLimit [] r = "mp4" -> 2 + Mp4BoxLimit
      [] r = "rm" -> 2 + RmChunkLimit [] r = "zip" -> 4 + ZipEntryLimit
      [] r \in {"pdf", "sqlite3", "xml"} -> 1]
BoundedSteps == ph \in {"deep", "generic"} /\ m.rd # "none" => m.k <= StepLimit[m.rd]
\* C11: a reader only reports formats of its own documented family.
InFamily == m.rd # "none" /\ m.out # "" => m.out \in Family[m.rd] \union {"ERR"}
\* C11: a feature other than that of the base format and the text feature changes nothing.
FeatureLocality ==
    ph = "report" =>
        /\ sig # "Empty" /\ ~HasReader(sig) /\ sig # "none" =>
               Outcome(TRUE, TRUE) = sig /\ Outcome(FALSE, FALSE) = sig
        /\ Outcome(FALSE, TRUE) \in {sig, txt, Default, "Empty"}
        /\ m.out \notin {"", "ERR"} => Outcome(TRUE, TRUE) = Outcome(TRUE, FALSE)
\* C06: Empty means no bytes.
EmptyMeansEmpty == ph = "report" => (Outcome(TRUE, TRUE) = "Empty" <=> s.len = 0)
\* The operational readers find what the case means.
FindsMeaning == ph = "report" /\ (m.rd # "none" \/ sig = "none")
                    => Meaning(c) \in {"any", IF m.rd = "none" THEN txt ELSE m.out}
ShowsSignature == ph = "report" => SigMeaning(c) \in {"any", sig}
TypeOK == /\ ph \in {"new", "deep", "generic", "report", "done"}
          /\ m.rd \in DeepReaders \union {"none"}
          /\ (ph = "deep" => m.out = "" /\ m.pos >= 0)
=============================================================================
