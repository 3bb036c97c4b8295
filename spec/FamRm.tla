-------------------------------- MODULE FamRm --------------------------------
(* RealMedia streams: C20. *)
EXTENDS Scope

RmLen(ps) == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, ps)
RmHead(headers) == P(<<46, 82, 77, 70, 0, 0, 0, 18, 0, 1, 0, 0, 0, 0>> \o BE32(headers))
\* A chunk: type, 32-bit size, data.
Chunk(type, ps) == <<P(type \o BE32(8 + RmLen(ps)))>> \o ps
T_PROP == <<80, 82, 79, 80>>
T_CONT == <<67, 79, 78, 84>>
T_DATA == <<68, 65, 84, 65>>
T_INDX == <<73, 78, 68, 88>>
\* Media properties: stream name of n bytes, mime type, p more bytes.
Mdpr(n, mime, p) ==
    Chunk(L_MDPR, <<Z(32), P(<<n>>), R(<<118>>, n), P(<<RmLen(mime)>>)>> \o mime \o <<R(<<97>>, p)>>)
MA == <<P(<<97, 117, 100, 105, 111, 47, 120, 45, 112, 110, 45, 114, 101, 97, 108, 97, 117, 100, 105, 111>>)>>   \* audio/x-pn-realaudio
MV == <<P(<<118, 105, 100, 101, 111, 47, 120, 45, 112, 110, 45, 114, 101, 97, 108, 118, 105, 100, 101, 111>>)>>   \* video/x-pn-realvideo
ML == <<P(<<108, 111, 103, 105, 99, 97, 108, 45, 102, 105, 108, 101, 105, 110, 102, 111>>)>>   \* logical-fileinfo
RmFile(headers, chunks) == <<RmHead(headers)>> \o chunks
RmItem(x) ==
    CASE x = "A" -> Mdpr(11, MA, 30)
      [] x = "V" -> Mdpr(9, MV, 50)
      [] x = "L" -> Mdpr(0, ML, 0)
      [] x = "P" -> Chunk(T_PROP, <<Z(42)>>)
      [] x = "C" -> Chunk(T_CONT, <<P(<<0, 0, 0, 0>> \o L_MDPR), P(<<0, 0, 0, 80>>), P(L_video_)>>)
      [] x = "D" -> Chunk(T_DATA, <<Z(10), R(L_MDPR, 30)>>)
RmMean(xs) ==
    LET has(x) == \E i \in DOMAIN xs : xs[i] = x
    IN  IF has("V") THEN "Realvideo" ELSE IF has("A") THEN "Realaudio" ELSE "Realmedia"
RmItems(xs) == FlattenSeq([i \in DOMAIN xs |-> RmItem(xs[i])])
RmNum == [A |-> 1, V |-> 2, L |-> 3, P |-> 4, C |-> 5, D |-> 0]

\* Kinds of cases:
\* rms.seq   sequences of chunks
\* rms.decl  n headers declared
\* rms.many  n chunks before the decisive one
\* rms.name  stream names of n bytes and mime types of p more bytes
\* rms.mime  mime types next to the decisive ones
\* rms.type  chunk types next to MDPR
\* rms.size  chunks of n bytes in between
\* rms.word   registered mime types and variants of the decisive ones
\* rms.chunk  registered chunk types with a media description as their data
\* rms.field  bytes of the fields that decide nothing
RmTypes == << <<109, 100, 112, 114>>, <<77, 68, 80, 81>>, <<77, 68, 80, 0>>, <<82, 80, 68, 77>>, <<88, 68, 80, 82>>, <<77, 68, 81, 82>>, <<77, 69, 80, 82>> >>
RmMimes == << <<>>, <<118>>, <<118, 105, 100, 101, 111>>, <<97, 117, 100, 105, 111>>, <<118, 105, 100, 101, 111, 45>>,
              <<118, 105, 100, 101, 112, 47>>, <<86, 105, 100, 101, 111, 47>>, <<65, 85, 68, 73, 79, 47>>,
              <<32, 118, 105, 100, 101, 111, 47>>, <<120, 47, 118, 105, 100, 101, 111, 47>>, <<97, 117, 100, 105, 111, 48>>,
              <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 105, 100, 101, 111, 47>>, <<0, 97, 117, 100, 105, 111, 47>> >>
RmCases(k) ==
    CASE k = "rms.seq" ->
           {c \in [fam : {"rms"}, k : {k}, xs : UNION {[1..n -> {"A", "V", "L", "P", "C", "D"}] : n \in 0..5}] :
               \/ Len(c.xs) <= 3
               \/ Len(c.xs) = 4 /\ (Thorough \/ Sampled(FoldLeft(LAMBDA a, x : a * 6 + RmNum[x], 0, c.xs), 3))
               \/ Len(c.xs) = 5 /\ Thorough /\ Sampled(FoldLeft(LAMBDA a, x : a * 6 + RmNum[x], 0, c.xs), 2)}
      [] k = "rms.decl" -> [fam : {"rms"}, k : {k}, n : 0..7, p : {"A", "V"}]
      [] k = "rms.many" -> [fam : {"rms"}, k : {k}, n : {1, 16, 31, 32, 33, 48, 60, 61, 62, 63, 64, 65, 70, 100, 128, 300}, p : {"A", "V"}, a : 0..2]
      [] k = "rms.name" -> [fam : {"rms"}, k : {k}, n : {0, 1, 2, 100, 127, 128, 129, 254, 255}, p : {0, 1, 26, 57, 58, 120, 121, 122, 200, 248, 249}, x : {"A", "V"}]
      [] k = "rms.mime" -> [fam : {"rms"}, k : {k}, n : DOMAIN RmMimes, p : {0, 1, 255}, x : {"A", "L"}]
      [] k = "rms.type" -> [fam : {"rms"}, k : {k}, n : DOMAIN RmTypes, x : {"A", "L"}]
      [] k = "rms.size" -> [fam : {"rms"}, k : {k}, n : {0, 1, 4, 100, 255, 256, 8190, 8191, 8192, 32767, 65535, 65536, 100000}, p : 0..2, x : {"A", "V"}]
      [] k = "rms.word" -> [fam : {"rms"}, k : {k}, n : DOMAIN RmMimeNear, x : {"A", "L"}]
      [] k = "rms.chunk" -> [fam : {"rms"}, k : {k}, n : DOMAIN RmTypeWords, p : {0, 2, 8, 10}]
      [] k = "rms.field" -> [fam : {"rms"}, k : {k}, i : 1..52, v : {1, 2, 64, 255}, x : {"A", "V"}]
      [] k = "rms.base" -> [fam : {"rms"}, k : {k}, n : 0..7]
RmPieces(c) ==
    CASE c.k = "rms.seq" -> RmFile(Len(c.xs) + 1, RmItems(c.xs)) \o RmItem("D")
      [] c.k = "rms.decl" -> RmFile(c.n, RmItems(<<"P", "L", c.p, "C">>)) \o RmItem("D") \o RmItem("V")
      [] c.k = "rms.many" ->
           LET u == CASE c.a = 0 -> R(T_PROP \o BE32(8), c.n)
                      [] c.a = 1 -> R(L_MDPR \o BE32(42) \o [i \in 1..34 |-> 0], c.n)
                      [] c.a = 2 -> R(T_CONT \o BE32(10) \o <<77, 68>>, c.n)
           IN  RmFile(c.n + 2, <<u>> \o RmItem(c.p)) \o RmItem("D")
      [] c.k = "rms.name" ->
           RmFile(4, RmItem("P") \o Mdpr(c.n, <<P(IF c.x = "A" THEN L_audio_ ELSE L_video_), R(<<47>>, c.p)>>, 4) \o RmItem("L")) \o RmItem("D")
      [] c.k = "rms.mime" ->
           RmFile(4, Mdpr(c.p, <<P(RmMimes[c.n])>>, 4) \o RmItem(c.x) \o RmItem("P")) \o RmItem("D")
      [] c.k = "rms.type" ->
           RmFile(3, Chunk(RmTypes[c.n], <<Z(33), P(<<20>>)>> \o MV) \o RmItem(c.x)) \o RmItem("D")
      [] c.k = "rms.size" ->
           LET big == Chunk(T_CONT, <<R(L_MDPR, c.n \div 4), Z(c.n % 4)>>)
           IN  RmFile(4, (CASE c.p = 0 -> big \o RmItem("P") \o RmItem(c.x)
                            [] c.p = 1 -> RmItem("P") \o RmItem(c.x) \o big
                            [] c.p = 2 -> Mdpr(5, ML, c.n) \o Mdpr(5, IF c.x = "A" THEN MA ELSE MV, c.n) \o RmItem("P"))) \o RmItem("D")
      [] c.k = "rms.word" ->
           RmFile(4, RmItem("P") \o Mdpr(3, <<P(RmMimeNear[c.n])>>, 4) \o RmItem(c.x)) \o RmItem("D")
      [] c.k = "rms.chunk" ->
           RmFile(4, Chunk(RmTypeWords[c.n], <<Z(c.p)>> \o RmItem("V")) \o RmItem("A")
                     \o Chunk(RmTypeWords[c.n], <<Z(33), P(<<20>>)>> \o MV)) \o RmItem("D")
      [] c.k = "rms.field" ->
           \* 1..32: the fields of the media description in front of its names; 33..36: version of the file, 37..: behind the mime type
           LET at(from, n) == [j \in 1..n |-> IF from + j = c.i THEN c.v ELSE 0]
               mime == IF c.x = "A" THEN MA ELSE MV
               d == Chunk(L_MDPR, <<P(at(0, 32)), P(<<5, 83, 116, 114, 101, 97>>), P(<<RmLen(mime)>>)>> \o mime \o <<P(at(36, 16))>>)
               ver == at(32, 4)
           IN  <<P(<<46, 82, 77, 70, 0, 0, 0, 18, ver[1], (1 + ver[2]) % 256, ver[3], ver[4], 0, 0, 0, 3>> \o <<0, 0>>)>> \o RmItem("P") \o d \o RmItem("D")
      [] c.k = "rms.base" ->
           (CASE c.n = 0 -> RmFile(0, <<>>)
              [] c.n = 1 -> RmFile(3, RmItems(<<"P", "A">>)) \o RmItem("D")
              [] c.n = 2 -> RmFile(5, RmItems(<<"P", "A", "C", "V">>)) \o RmItem("D")
              [] c.n = 3 -> RmFile(4, RmItems(<<"V", "A", "L">>)) \o RmItem("D")
              [] c.n = 4 -> RmFile(3, Chunk(T_CONT, <<Z(60000)>>) \o RmItem("A"))
              [] c.n = 5 -> RmFile(200, <<R(T_PROP \o BE32(8), 210)>>)
              [] c.n = 6 -> RmFile(2, RmItem("L"))
              [] c.n = 7 -> RmFile(3, Mdpr(255, ML, 40000) \o Mdpr(255, MV, 40000)))
RmEnc(c) == Stream(RmPieces(c))
RmMeaning(c) ==
    CASE c.k = "rms.seq" -> RmMean(c.xs)
      [] c.k = "rms.decl" -> IF c.n >= 4 THEN (IF c.n >= 7 THEN "Realvideo" ELSE RmMean(<<c.p>>)) ELSE "Realmedia"
      [] c.k = "rms.many" -> IF c.n + 1 <= 64 THEN RmMean(<<c.p>>) ELSE "Realmedia"
      [] c.k = "rms.name" -> RmMean(<<c.x>>)
      [] c.k \in {"rms.mime", "rms.type"} -> RmMean(<<c.x>>)
      [] c.k = "rms.size" -> RmMean(<<c.x>>)
      [] c.k = "rms.word" ->
           LET b == RmMimeNear[c.n]
               begins(w) == Len(b) >= 6 /\ SubSeq(b, 1, 6) = w
           IN  RmMean(<<c.x>> \o (IF begins(L_audio_) THEN <<"A">> ELSE IF begins(L_video_) THEN <<"V">> ELSE <<>>))
      [] c.k = "rms.chunk" -> RmMean(<<"A">>)
      [] c.k = "rms.field" -> "any"
      [] OTHER -> "any"
=============================================================================
