-------------------------------- MODULE FamTxt --------------------------------
(* Streams without signature around the text rules: C13. *)
EXTENDS Scope

\* An independent formulation of "valid UTF-8 without control characters other than white space":
\* a sequential decoder working on code points.
Printed(cp) == (cp >= 32 \/ cp \in 9..13) /\ (cp < 127 \/ cp > 159 \/ cp = 133)
ContAt(b, i) == i <= Len(b) /\ b[i] \div 64 = 2
RECURSIVE Decodes(_, _)
Decodes(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET c == b[i]
         IN  IF c < 128 THEN Printed(c) /\ Decodes(b, i + 1)
             ELSE IF c \div 32 = 6
             THEN /\ ContAt(b, i + 1)
                  /\ LET cp == (c % 32) * 64 + (b[i + 1] % 64)
                     IN  cp >= 128 /\ Printed(cp)
                  /\ Decodes(b, i + 2)
             ELSE IF c \div 16 = 14
             THEN /\ ContAt(b, i + 1) /\ ContAt(b, i + 2)
                  /\ LET cp == (c % 16) * 4096 + (b[i + 1] % 64) * 64 + (b[i + 2] % 64)
                     IN  cp >= 2048 /\ ~(cp \in 55296..57343)
                  /\ Decodes(b, i + 3)
             ELSE IF c \div 8 = 30
             THEN /\ ContAt(b, i + 1) /\ ContAt(b, i + 2) /\ ContAt(b, i + 3)
                  /\ LET cp == (c % 8) * 262144 + (b[i + 1] % 64) * 4096 + (b[i + 2] % 64) * 64 + (b[i + 3] % 64)
                     IN  cp >= 65536 /\ cp <= 1114111
                  /\ Decodes(b, i + 4)
             ELSE FALSE
Verdict(isText) == IF isText THEN "PlainText" ELSE Default

\* Kinds of cases (b: bytes, p, q, n: numbers):
\* txt.utf8   three bytes of different classes, in a context
\* txt.four   four bytes with a four-byte lead
\* txt.byte   every byte at the start, in the middle, at the end
\* txt.two    every second byte behind 194 (C1 controls and NEL) and behind 195
\* txt.block  all 64 characters with the same leading bytes
\* txt.line   a spoiling byte in a given line
\* txt.limit  a spoiling byte around the byte limit
\* txt.cut    a character around the byte limit
\* txt.edge   lines ending around the byte limit
\* txt.sep    what ends lines and what does not: n times a word and a separator, then a spoiling byte
\* txt.head   what may stand at the start of a text, with and without a spoiling byte behind it
\* txt.chunk  a character across a buffer boundary
Classes == {0, 8, 9, 10, 13, 31, 65, 127, 128, 133, 143, 144, 159, 160, 191, 192, 193, 194, 195, 223, 224, 225,
            236, 237, 238, 239, 240, 243, 244, 245, 255}
Spoilers == << <<0>>, <<255>>, <<128>>, <<27>>, <<194>>, <<194, 128>>, <<226, 128>>, <<127>>, <<237, 160, 128>> >>
Seps == << <<10>>, <<13, 10>>, <<13>>, <<11>>, <<12>> >>
\* Separators and how many lines each of them ends.
Ends == << [b |-> <<10>>, n |-> 1], [b |-> <<13>>, n |-> 0], [b |-> <<13, 10>>, n |-> 1], [b |-> <<10, 13>>, n |-> 1], [b |-> <<10, 10>>, n |-> 2],
           [b |-> <<13, 13, 10>>, n |-> 1], [b |-> <<13, 10, 13, 10>>, n |-> 2], [b |-> <<11>>, n |-> 0], [b |-> <<12>>, n |-> 0], [b |-> <<12, 10>>, n |-> 1],
           [b |-> <<194, 133>>, n |-> 0], [b |-> <<226, 128, 168>>, n |-> 0], [b |-> <<226, 128, 169>>, n |-> 0], [b |-> <<92, 110>>, n |-> 0],
           [b |-> <<9>>, n |-> 0], [b |-> <<32>>, n |-> 0], [b |-> <<32, 10>>, n |-> 1], [b |-> <<10, 32>>, n |-> 1], [b |-> <<92, 10>>, n |-> 1], [b |-> <<138>>, n |-> -1],
           [b |-> <<224, 168, 138>>, n |-> 0], [b |-> <<226, 144, 138>>, n |-> 0], [b |-> <<60, 98, 114, 62>>, n |-> 0], [b |-> <<44>>, n |-> 0] >>
EndWords == << <<>>, <<113>>, <<195, 169>>, <<35, 32, 113>>, <<9>>, <<13>>, <<113, 119, 101, 114, 116, 122, 117, 105, 111, 112>> >>
Heads == << <<239, 187, 191>>, <<254, 255>>, <<255, 254>>, <<239, 187>>, <<239>>, <<43, 47, 118, 56>>, <<239, 191, 190>>, <<239, 191, 191>>, <<239, 191, 189>>, <<32, 32>>, <<10>>,
            <<13, 10>>, <<9>>, <<133>>, <<194, 133>>, <<194, 160>>, <<194, 173>>, <<226, 128, 139>>, <<226, 128, 142>>, <<226, 128, 174>>, <<226, 129, 166>>, <<27, 91, 49, 109>>,
            <<8>>, <<26>>, <<4>>, <<28>>, <<31>>, <<127>>, <<0>>, <<113, 0, 113, 0>>, <<0, 113, 0, 113>>, <<237, 160, 189, 237, 184, 128>>, <<192, 128>>, <<244, 144, 128, 128>>,
            <<240, 159, 191, 191>>, <<238, 128, 128>>, <<243, 176, 128, 128>>, <<204, 129>>, <<164>>, <<228, 246, 252>>, <<129, 64>>, <<35, 33>>, <<60>>, <<123>> >>
HeadMeans == [i \in DOMAIN Heads |-> Decodes(Heads[i], 1)]
TxtCases(k) ==
    CASE k = "txt.sep" ->
           {c \in [fam : {"txt"}, k : {k}, n : {1, 7, 8, 9, 14, 15, 16, 17, 20, 33}, a : DOMAIN Ends, w : DOMAIN EndWords, b : 1..(Len(Spoilers) + 1)] :
              /\ c.a # 20 \/ c.n = 1
              /\ (c.n > 1 \/ c.b > 1)
              /\ (Thorough \/ Sampled(c.n * 4 + c.a * 7 + c.w * 31 + c.b * 3, 3))}
      [] k = "txt.head" ->
           {c \in [fam : {"txt"}, k : {k}, a : DOMAIN Heads, n : {0, 1, 16, 17}, p : 0..2, b : 1..(Len(Spoilers) + 1)] :
              c.n > 0 \/ c.p # 1}
      [] k = "txt.utf8" ->
           {c \in [fam : {"txt"}, k : {k}, b : [1..3 -> Classes], p : 0..2] :
               Thorough \/ (c.p = c.b[3] % 3)}
      [] k = "txt.four" ->
           [fam : {"txt"}, k : {k}, p : {0, 2},
            b : {<<a>> \o t : a \in {240, 241, 243, 244, 245, 248}, t \in [1..3 -> {127, 128, 143, 144, 191, 192}]}]
      [] k = "txt.byte" -> [fam : {"txt"}, k : {k}, b : {<<x>> : x \in 0..255}, p : {0, 1, 2, 3}]
      [] k = "txt.two" -> [fam : {"txt"}, k : {k}, b : {<<l, x>> : l \in {194, 195}, x \in 0..255}, p : {0, 2}]
      [] k = "txt.block" ->
           [fam : {"txt"}, k : {k}, b : {<<l>> : l \in 194..223}]
           \union [fam : {"txt"}, k : {k}, b : {<<l, x>> : l \in 224..239, x \in 128..191}]
           \union {c \in [fam : {"txt"}, k : {k}, b : {<<l, x, y>> : l \in 240..244, x \in 128..191, y \in 128..191}] :
                      Thorough \/ Sampled(c.b[2] * 64 + c.b[3] + c.b[1], 20)}
      [] k = "txt.line" ->
           {c \in [fam : {"txt"}, k : {k}, n : {1, 2, 3, 15, 16, 17, 18, 40}, p : {0, 1, 2, 3, 15, 16, 17, 18},
                   b : DOMAIN Spoilers, sep : DOMAIN Seps, q : {0, 1, 2, 3}, e : {0, 1}] :
              c.p <= c.n /\ (Thorough \/ c.sep <= 2 \/ c.n \in {17, 18})}
      [] k = "txt.limit" ->
           \* not the streams that end in the middle of a character exactly at the limit
           {c \in [fam : {"txt"}, k : {k}, p : 65530..65538, b : DOMAIN Spoilers, q : {0, 1, 200}, n : {0, 3, 15, 17}] :
               ~(c.q = 0 /\ c.p + Len(Spoilers[c.b]) = 65536 /\ c.b \in {5, 7})}
      [] k = "txt.cut" ->
           [fam : {"txt"}, k : {k}, n : 2..4, p : 1..4, q : 0..4]
      [] k = "txt.edge" -> [fam : {"txt"}, k : {k}, n : {15, 16, 17}, p : 65534..65537, q : {0, 1, 2}]
      [] k = "txt.chunk" ->
           {c \in [fam : {"txt"}, k : {k}, p : {8192, 16384, 32768, 36870, 40960, 57344}, n : 2..4, q : 0..4, e : {0, 1}] :
               c.q <= c.n}
      [] k = "txt.base" -> [fam : {"txt"}, k : {k}, p : 0..9]

Wide == << <<>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 146, 150>> >>
InContext(b, p) == CASE p = 0 -> <<97, 98>> \o b
                     [] p = 1 -> <<195, 169>> \o b \o <<122, 10>>
                     [] p = 2 -> <<97, 32>> \o b \o <<191, 122>>
\* Line i of a "txt.line" case.
LineOf(c, i) ==
    LET bad == IF i = c.p THEN Spoilers[c.b] ELSE <<>>
    IN  CASE c.q = 0 -> bad \o <<113, 119>>
          [] c.q = 1 -> <<113, 119>> \o bad
          [] c.q = 2 -> <<113>> \o bad \o <<195, 169>>
          [] c.q = 3 -> bad
SpoilerOr(i) == IF i <= Len(Spoilers) THEN Spoilers[i] ELSE <<119>>
TxtEnc(c) ==
    CASE c.k = "txt.sep" -> OfBytes(FlattenSeq([i \in 1..c.n |-> EndWords[c.w] \o Ends[c.a].b]) \o <<113>> \o SpoilerOr(c.b) \o <<113>>)
      [] c.k = "txt.head" ->
           \* p: before the first word, before every line, or within the first word
           OfBytes(CASE c.p = 0 -> Heads[c.a] \o <<113>> \o FlattenSeq([i \in 1..c.n |-> <<113, 119, 10>>]) \o <<113>> \o SpoilerOr(c.b)
                     [] c.p = 1 -> <<113>> \o FlattenSeq([i \in 1..c.n |-> Heads[c.a] \o <<119, 10>>]) \o <<113>> \o SpoilerOr(c.b)
                     [] c.p = 2 -> <<113>> \o Heads[c.a] \o FlattenSeq([i \in 1..c.n |-> <<113, 119, 10>>]) \o <<113>> \o SpoilerOr(c.b))
      [] c.k \in {"txt.utf8", "txt.four", "txt.two"} -> OfBytes(InContext(c.b, c.p))
      [] c.k = "txt.byte" -> OfBytes(IF c.p = 3 THEN c.b ELSE InContext(c.b, IF c.p = 2 THEN 1 ELSE 0) \o <<97>>)
      [] c.k = "txt.block" -> OfBytes(<<113, 119, 101, 32>> \o FlattenSeq([i \in 1..64 |-> c.b \o <<127 + i>>]))
      [] c.k = "txt.line" ->
           OfBytes(FlattenSeq([i \in 1..c.n |-> LineOf(c, i) \o (IF i < c.n \/ c.e = 1 THEN Seps[c.sep] ELSE <<>>)])
                   \o (IF c.n = 1 /\ c.q = 3 /\ c.p = 0 /\ c.e = 0 THEN <<113>> ELSE <<>>))
      [] c.k = "txt.limit" ->
           \* c.n lines of two bytes, then one long line
           Stream(<<R(<<113, 10>>, c.n), R(<<113>>, c.p - 2 * c.n), P(Spoilers[c.b]), R(<<119>>, c.q)>>)
      [] c.k = "txt.cut" ->
           \* the first p bytes of an n-byte character before the limit, q: what follows
           LET w == Wide[c.n]
               p == Min2(c.p, c.n)
               inside == SubSeq(w, 1, p)
           IN  Stream(<<R(<<113>>, 65536 - p), P(CASE c.q = 2 /\ p > 1 -> SubSeq(w, 1, p - 1) \o <<65>>
                                                   [] c.q = 3 /\ p > 1 -> <<w[1], 192>> \o SubSeq(w, 3, p)
                                                   [] OTHER -> inside),
                        CASE c.q = 0 -> P(SubSeq(w, p + 1, c.n) \o <<122>>)
                          [] c.q = 1 -> P(<<0, 255>>)
                          [] c.q = 4 -> P(<<10, 65>>)
                          [] OTHER -> P(<<122, 122>>)>>)
      [] c.k = "txt.edge" ->
           \* line n ends at position p; a spoiling byte follows
           Stream(<<R(<<113, 10>>, c.n - 1), R(<<113>>, c.p - 2 * (c.n - 1)), P(<<10>>),
                    P(CASE c.q = 0 -> <<0>> [] c.q = 1 -> <<113, 0>> [] c.q = 2 -> <<113, 10, 10, 113>>)>>)
      [] c.k = "txt.chunk" ->
           Stream(<<R(<<113>>, c.p - c.q), P(Wide[c.n]), R(<<119>>, 9), P(IF c.e = 1 THEN <<1>> ELSE <<>>)>>)
      [] c.k = "txt.base" ->
           CASE c.p = 0 -> OfBytes(<<113, 119>>)
             [] c.p = 1 -> OfBytes(<<195, 169, 10, 226, 130, 172, 13, 10, 240, 159, 146, 150, 46>>)
             [] c.p = 2 -> OfBytes(<<113, 0>>)
             [] c.p = 3 -> OfBytes(<<113, 195>>)
             [] c.p = 4 -> Stream(<<R(<<113, 10>>, 16), P(<<0>>)>>)
             [] c.p = 5 -> Stream(<<R(<<195, 169>>, 32768), P(<<0>>)>>)
             [] c.p = 6 -> Stream(<<P(<<113>>), R(<<195, 169>>, 40000)>>)
             [] c.p = 7 -> Stream(<<R(<<113>>, 65535), P(<<0>>), R(<<113>>, 10)>>)
             [] c.p = 8 -> Stream(<<R(<<113, 114, 10>>, 5), R(<<226, 130, 172>>, 20000)>>)
             [] c.p = 9 -> Stream(<<R(<<113>>, 40000), P(<<255>>)>>)

\* What a text means, from its structure.
TxtMeaning(c) ==
    CASE c.k = "txt.sep" -> Verdict(IF Ends[c.a].n < 0 THEN FALSE ELSE c.b > Len(Spoilers) \/ c.n * Ends[c.a].n >= 16)
      [] c.k = "txt.head" ->
           LET lines == c.n + (IF HasByte(Heads[c.a], 10) THEN (IF c.p = 1 THEN c.n ELSE 1) ELSE 0)
           IN  Verdict(/\ HeadMeans[c.a]
                       /\ c.b > Len(Spoilers) \/ lines >= 16)
      [] c.k \in {"txt.utf8", "txt.four", "txt.two"} -> Verdict(Decodes(InContext(c.b, c.p), 1))
      [] c.k = "txt.block" -> Verdict(IF c.b[1] = 194 THEN FALSE
                                      ELSE Decodes(c.b \o <<128>>, 1))
      [] c.k = "txt.line" ->
           Verdict(c.p = 0 \/ (c.p > 16 /\ c.sep <= 2))
      [] c.k = "txt.limit" ->
           \* sixteen lines end the examined part
           Verdict(\/ c.n >= 16
                   \/ c.p >= 65536
                   \/ c.p = 65535 /\ c.b \in {5, 6, 7, 9}
                   \/ c.p = 65534 /\ c.b = 7)
      [] c.k = "txt.cut" ->
           LET p == Min2(c.p, c.n)
           IN  Verdict(CASE c.q \in {0, 1, 4} -> TRUE
                         [] c.q \in {2, 3} -> p <= 1)
      [] c.k = "txt.edge" -> Verdict(c.q = 2 \/ c.n >= 16 \/ c.p + 1 + (IF c.q = 1 THEN 1 ELSE 0) >= 65536)
      [] c.k = "txt.chunk" -> Verdict(c.e = 0)
      [] OTHER -> "any"
=============================================================================
