------------------------------- MODULE Metadata -------------------------------
(* The metadata of the formats.  The catalogue is checked row by row against the documented list and
   the rules of RFC 6838; the rows that the real library shows - for its constants, and for the
   values that detection returns - are checked against the catalogue (MetadataTrace). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Catalog

VARIABLES i, ph
MdInit == i \in DOMAIN Catalog /\ ph = "new"
MdShow == /\ ph = "new" /\ PrintT(ToJson([v |-> Catalog[i].v])) /\ ph' = "done" /\ UNCHANGED i

Chars(s) == {SubSeq(s, k, k) : k \in 1..Len(s)}
Digits == Chars("0123456789")
Letters == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
\* RFC 6838: restricted-name.
RestrictedName(s) == /\ Len(s) \in 1..127
                     /\ SubSeq(s, 1, 1) \in Letters \union Digits
                     /\ Chars(s) \subseteq Letters \union Digits \union Chars("!#$&-^_.+")
MediaType(s) == \E k \in 2..(Len(s) - 1) : /\ SubSeq(s, k, k) = "/"
                                          /\ RestrictedName(SubSeq(s, 1, k - 1))
                                          /\ RestrictedName(SubSeq(s, k + 1, Len(s)))
Kinds == {"Archive", "Audio", "Compressed", "Database", "Diagram", "Disk", "Document", "Ebook", "Executable", "Font",
          "Formula", "Geospatial", "Image", "Metadata", "Model", "Other", "Package", "Playlist", "Presentation",
          "Rom", "Spreadsheet", "Subtitle", "Video"}
Extension(s) == /\ Len(s) > 0 /\ SubSeq(s, 1, 1) # "." /\ Chars(s) \intersect {" ", "/", "\\"} = {}
Label(r) == IF r.s = "" THEN r.n ELSE r.n \o " (" \o r.s \o ")"
Heading(k) == IF k = "Rom" THEN "ROM" ELSE k
DocumentedIn(r) == \E d \in DOMAIN Documented : Documented[d].t = Label(r) /\ Documented[d].k = Heading(r.k)

WellFormed == LET r == Catalog[i]
              IN  /\ Len(r.n) > 0 /\ MediaType(r.m) /\ Extension(r.e) /\ r.k \in Kinds
UniqueNames == \A j \in DOMAIN Catalog : Catalog[j].n = Catalog[i].n \/ Catalog[j].v = Catalog[i].v => j = i
IsDocumented == DocumentedIn(Catalog[i])
ASSUME EachOnce == Cardinality(DOMAIN Documented) = Cardinality(DOMAIN Catalog)
            /\ Cardinality({Documented[d] : d \in DOMAIN Documented}) = Len(Documented)
=============================================================================
