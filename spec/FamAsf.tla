-------------------------------- MODULE FamAsf --------------------------------
(* ASF streams: C19. *)
EXTENDS Scope

AsfHeadGuid == <<48, 38, 178, 117, 142, 102, 207, 17, 166, 217, 0, 170, 0, 98, 206, 108>>
\* Objects that mean nothing: file properties, codec list, padding, header extension, content
\* description, metadata, and one that differs from the stream properties in its last byte only.
AsfOthers == << <<161, 220, 171, 140, 71, 169, 207, 17, 142, 228, 0, 192, 12, 32, 83, 101>>,
                <<64, 82, 209, 134, 29, 49, 208, 17, 163, 164, 0, 160, 201, 3, 72, 246>>,
                <<116, 212, 6, 24, 223, 202, 9, 69, 164, 186, 154, 171, 203, 150, 170, 232>>,
                <<181, 3, 191, 95, 46, 169, 207, 17, 142, 227, 0, 192, 12, 32, 83, 101>>,
                <<51, 38, 178, 117, 142, 102, 207, 17, 166, 217, 0, 170, 0, 98, 206, 108>>,
                <<145, 7, 220, 183, 183, 169, 207, 17, 142, 230, 0, 192, 12, 32, 83, 100>>,
                <<64, 164, 208, 210, 7, 227, 210, 17, 151, 240, 0, 160, 201, 94, 168, 81>>,
                <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>
\* Types of streams that are neither audio nor video.
AsfOtherTypes == << <<192, 207, 218, 89, 230, 89, 208, 17, 163, 172, 0, 160, 201, 3, 72, 246>>,
                    <<0, 225, 27, 182, 78, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 43>>,
                    <<192, 239, 25, 188, 77, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 42>>,
                    <<65, 158, 105, 248, 77, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 43>> >>
\* Objects: id, then 24 + Len(data) bytes.
Obj(id, ps) == LET n == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, ps)
               IN  <<P(id \o LE64(24 + n))>> \o ps
StreamObj(type, n) == Obj(AsfStream, <<P(type), R(<<7>>, n)>>)
\* A descriptor: name pieces, value of v bytes.
Desc(name, v) == LET n == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, name)
                 IN  <<P(LE16(n))>> \o name \o <<P(<<0, 0>> \o LE16(v)), R(<<68, 0>>, v \div 2), Z(v % 2)>>
DvrDesc == Desc(<<P(AsfDvrName \o <<0, 0>>)>>, 6)
\* A descriptor whose name has n bytes, none of them DVR's.
Plain(n, v) == Desc(<<R(<<87, 0>>, n \div 2), Z(n % 2)>>, v)
\* Extended content description of declared count.
ExtObj(cnt, ps) == Obj(AsfExtended, <<P(LE16(cnt))>> \o ps)
AsfFile(cnt, objs) ==
    LET n == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, objs)
    IN  <<P(AsfHeadGuid \o LE64(30 + n) \o LE32(cnt) \o <<1, 2>>)>> \o objs
AsfData == <<P(<<54, 38, 178, 117, 142, 102, 207, 17, 166, 217, 0, 170, 0, 98, 206, 108, 74, 0, 0, 0, 0, 0, 0, 0>>), Z(50)>>
\* A, V: audio, video stream; O: stream of another type; U, W: other objects; X, D: content description without or with DVR
AsfItem(x) ==
    CASE x = "A" -> StreamObj(AsfAudio, 54)
      [] x = "V" -> StreamObj(AsfVideo, 62)
      [] x = "O" -> StreamObj(AsfOtherTypes[1], 10)
      [] x = "U" -> Obj(AsfOthers[1], <<Z(80)>>)
      [] x = "W" -> Obj(AsfOthers[3], <<P(AsfVideo), P(AsfDvrName)>>)
      [] x = "X" -> ExtObj(2, Plain(34, 4) \o Plain(10, 1))
      [] x = "D" -> ExtObj(2, Plain(34, 4) \o DvrDesc)
AsfMean(xs) ==
    LET has(x) == \E i \in DOMAIN xs : xs[i] = x
    IN  IF has("D") THEN "MicrosoftDigitalVideoRecording" ELSE IF has("V") THEN "WindowsMediaVideo"
        ELSE IF has("A") THEN "WindowsMediaAudio" ELSE "AdvancedSystemsFormat"
AsfItems(xs) == FlattenSeq([i \in DOMAIN xs |-> AsfItem(xs[i])])
AsfNum == [A |-> 1, V |-> 2, O |-> 3, U |-> 4, W |-> 5, X |-> 6, D |-> 0]
AsfCode(xs) == FoldLeft(LAMBDA a, x : a * 7 + AsfNum[x], 0, xs)

\* Kinds of cases:
\* asf.seq   sequences of objects
\* asf.decl  n objects declared
\* asf.many  n objects before the decisive one
\* asf.desc  DVR as descriptor p of n, names of l bytes and values of v bytes before it
\* asf.dcnt  descriptors declared: p, present: 4, DVR is the third
\* asf.size  objects of size n before and behind
\* asf.guid  ids, types or names that differ from the known ones in byte p
\* asf.obj   registered objects with a video stream inside, n bytes behind their header
\* asf.type  registered types of streams
\* asf.word  descriptors with names near DVR's
\* asf.head  bytes of the fields that decide nothing
\* asf.two   DVR in the second content description, the first one has n descriptors
\* Names near DVR's, none of them beginning like it.
AsfNear == ListOf({b \in NearWords(AsfDvrName) : ~(Len(b) >= 32 /\ SubSeq(b, 1, 32) = AsfDvrName)}
                  \union {W("DVR Index Granularity"), W("WM/Video"), W("File Version"), W("DVR"), S("DVR File Version"), W("dvr file version"), W("DVR File  Version")})
AsfCases(k) ==
    CASE k = "asf.seq" ->
           {c \in [fam : {"asf"}, k : {k}, xs : UNION {[1..n -> {"A", "V", "O", "U", "W", "X", "D"}] : n \in 0..5}] :
               \/ Len(c.xs) <= 3
               \/ Len(c.xs) = 4 /\ (Thorough \/ Sampled(AsfCode(c.xs), 4))
               \/ Len(c.xs) = 5 /\ Thorough /\ Sampled(AsfCode(c.xs), 3)}
      [] k = "asf.decl" ->
           [fam : {"asf"}, k : {k}, n : 0..5, p : {"A", "V", "D"}]
      [] k = "asf.many" ->
           [fam : {"asf"}, k : {k}, n : {1, 31, 32, 33, 63, 64, 65, 127, 128, 200, 253, 254, 255, 256, 257, 300, 511, 600}, p : {"A", "V", "D"}, a : {0, 1, 2}]
      [] k = "asf.desc" ->
           {c \in [fam : {"asf"}, k : {k}, p : {1, 2, 16, 30, 31, 32, 33, 34, 64, 65}, l : {0, 2, 33, 34, 62, 63, 64, 65, 66, 71, 128, 200, 255, 256, 257, 300, 512, 1000, 8192, 32768, 65534, 65535},
                   v : {0, 1, 4, 255, 256, 300, 32768, 65535}, e : {0, 1}] :
              (c.l > 300 => c.p <= 3) /\ (c.v > 300 => c.p <= 3) /\ (Thorough \/ c.e = c.p % 2)}
      [] k = "asf.dcnt" -> [fam : {"asf"}, k : {k}, p : 0..4, a : {0, 1}]
      [] k = "asf.size" -> [fam : {"asf"}, k : {k}, n : {0, 1, 16, 17, 255, 256, 8191, 8192, 65535, 65536, 100000}, a : DOMAIN AsfOthers, p : {"A", "V", "D"}]
      [] k = "asf.guid" ->
           [fam : {"asf"}, k : {k}, a : {1, 2, 3, 4}, p : 1..16, d : {1, 32, 128}]
           \union [fam : {"asf"}, k : {k}, a : {5}, p : 1..32, d : {1, 32, 128}]
           \union [fam : {"asf"}, k : {k}, a : {6}, p : DOMAIN AsfOtherTypes, d : {0}]
           \union [fam : {"asf"}, k : {k}, a : {7}, p : 0..31, d : {0}]
      [] k = "asf.obj" -> [fam : {"asf"}, k : {k}, a : DOMAIN AsIds, n : {0, 1, 2, 4, 8, 16, 18, 20, 22, 24, 40, 64}, p : {"A", "D", "U"}]
      [] k = "asf.type" -> [fam : {"asf"}, k : {k}, a : DOMAIN AsTypes, p : 0..3]
      [] k = "asf.word" -> [fam : {"asf"}, k : {k}, a : DOMAIN AsfNear]
      [] k = "asf.head" -> [fam : {"asf"}, k : {k}, i : 1..60, v : {1, 128, 255}, p : {"A", "V"}]
      [] k = "asf.two" -> [fam : {"asf"}, k : {k}, n : {0, 1, 31, 32, 33, 40, 100}, p : {0, 1}]
      [] k = "asf.base" -> [fam : {"asf"}, k : {k}, n : 0..7]

\* b with byte i changed by d (one bit).
FlipBit(b, i, d) == [b EXCEPT ![i] = IF (@ \div d) % 2 = 1 THEN @ - d ELSE @ + d]
AsfPieces(c) ==
    CASE c.k = "asf.seq" -> AsfFile(Len(c.xs), AsfItems(c.xs)) \o AsfData
      [] c.k = "asf.decl" -> AsfFile(c.n, AsfItems(<<"U", "O", c.p, "U", "W">>)) \o AsfData
      [] c.k = "asf.many" ->
           LET u == CASE c.a = 0 -> R(AsfOthers[1] \o LE64(24), c.n)
                      [] c.a = 1 -> R(AsfStream \o LE64(40) \o AsfOtherTypes[1], c.n)
                      [] c.a = 2 -> R(AsfExtended \o LE64(26) \o <<0, 0>>, c.n)
           IN  AsfFile(c.n + 1, <<u>> \o AsfItem(c.p)) \o AsfData
      [] c.k = "asf.desc" ->
           LET one == Plain(c.l, c.v)
               before == IF c.p <= 3 THEN FlattenSeq([i \in 1..(c.p - 1) |-> one])
                         ELSE <<R(Slice(Stream(one), 0, 6 + c.l + c.v), c.p - 1)>>
           IN  AsfFile(3, AsfItem("A") \o ExtObj(c.p + c.e, before \o DvrDesc \o (IF c.e = 1 THEN one ELSE <<>>)) \o AsfItem("V")) \o AsfData
      [] c.k = "asf.dcnt" ->
           AsfFile(2, (IF c.a = 1 THEN AsfItem("A") ELSE <<>>) \o ExtObj(c.p, Plain(2, 2) \o Plain(34, 0) \o DvrDesc \o Plain(3, 3))
                      \o (IF c.a = 0 THEN AsfItem("A") ELSE <<>>)) \o AsfData
      [] c.k = "asf.size" ->
           AsfFile(3, Obj(AsfOthers[c.a], <<R(<<145, 7>>, c.n \div 2), Z(c.n % 2)>>) \o AsfItem(c.p) \o Obj(AsfOthers[c.a], <<Z(c.n)>>)) \o AsfData
      [] c.k = "asf.guid" ->
           AsfFile(2, (CASE c.a = 1 -> Obj(FlipBit(AsfStream, c.p, c.d), <<P(AsfVideo), Z(54)>>)
                         [] c.a = 2 -> StreamObj(FlipBit(AsfVideo, c.p, c.d), 54)
                         [] c.a = 3 -> StreamObj(FlipBit(AsfAudio, c.p, c.d), 54)
                         [] c.a = 4 -> Obj(FlipBit(AsfExtended, c.p, c.d), <<P(<<1, 0>>)>> \o DvrDesc)
                         [] c.a = 5 -> ExtObj(1, Desc(<<P(FlipBit(AsfDvrName, c.p, c.d) \o <<0, 0>>)>>, 2))
                         [] c.a = 6 -> StreamObj(AsfOtherTypes[c.p], 20)
                         [] c.a = 7 -> ExtObj(1, Desc(<<P(SubSeq(AsfDvrName, 1, c.p))>>, 40)))
                      \o AsfItem("A")) \o AsfData
      [] c.k = "asf.obj" ->
           LET o == Obj(AsIds[c.a], <<Z(c.n)>> \o StreamObj(AsfVideo, 40) \o AsfItem("D"))
           IN  AsfFile(3, o \o AsfItem(c.p) \o o) \o AsfData
      [] c.k = "asf.type" ->
           LET st == Obj(AsfStream, <<P(AsTypes[c.a]), P(IF c.p = 1 THEN AsfVideo ELSE AsfOtherTypes[2]), Z(6), P(IF c.p = 2 THEN AsfVideo ELSE AsfAudio), R(<<7>>, 20)>>)
           IN  AsfFile(2, IF c.p = 3 THEN AsfItem("A") \o st ELSE st) \o AsfData
      [] c.k = "asf.word" -> AsfFile(2, ExtObj(1, Desc(<<P(AsfNear[c.a])>>, 8)) \o AsfItem("A")) \o AsfData
      [] c.k = "asf.head" ->
           \* 1..6: version fields of the header; 7..: fields of the stream object behind its type; 61: end
           LET n == FoldLeft(LAMBDA a, q : a + Len(q.b) * q.r, 0, StreamObj(AsfAudio, 54))
               by == [j \in 1..54 |-> IF j + 6 = c.i THEN c.v ELSE 0]
               st == Obj(AsfStream, <<P(IF c.p = "A" THEN AsfAudio ELSE AsfVideo), P(by)>>)
           IN  <<P(AsfHeadGuid \o LE64(30 + n) \o LE32(1) \o (IF c.i = 1 THEN <<c.v, 2>> ELSE IF c.i = 2 THEN <<1, c.v>> ELSE <<1, 2>>))>> \o st \o AsfData
      [] c.k = "asf.two" ->
           AsfFile(3, (IF c.p = 0 THEN AsfItem("V") ELSE <<>>)
                      \o ExtObj(c.n, IF c.n = 0 THEN <<>> ELSE <<R(<<2, 0, 90, 0, 0, 0, 2, 0, 1, 1>>, c.n)>>) \o AsfItem("D")
                      \o (IF c.p = 1 THEN AsfItem("V") ELSE <<>>)) \o AsfData
      [] c.k = "asf.base" ->
           (CASE c.n = 0 -> AsfFile(0, <<>>)
              [] c.n = 1 -> AsfFile(3, AsfItems(<<"U", "A", "W">>)) \o AsfData
              [] c.n = 2 -> AsfFile(3, AsfItems(<<"X", "V", "A">>)) \o AsfData
              [] c.n = 3 -> AsfFile(2, AsfItems(<<"A", "D">>)) \o AsfData
              [] c.n = 4 -> AsfFile(3, Obj(AsfOthers[1], <<Z(50000)>>) \o AsfItem("A") \o AsfItem("V"))
              [] c.n = 5 -> AsfFile(400, <<R(AsfOthers[1] \o LE64(24), 400)>>) \o AsfData
              [] c.n = 6 -> AsfFile(2, ExtObj(40, <<R(<<2, 0, 90, 0, 0, 0, 2, 0, 1, 1>>, 40)>>) \o AsfItem("O"))
              [] c.n = 7 -> AsfFile(1, ExtObj(1, Plain(40000, 30000))))
AsfEnc(c) == Stream(AsfPieces(c))

AsfMeaning(c) ==
    CASE c.k = "asf.seq" -> AsfMean(c.xs)
      [] c.k = "asf.decl" -> IF c.n >= 3 THEN AsfMean(<<c.p>>) ELSE AsfMean(<<>>)
      [] c.k = "asf.many" -> IF c.n + 1 <= 256 THEN AsfMean(<<c.p>>) ELSE AsfMean(<<>>)
      [] c.k = "asf.desc" -> IF c.p <= 32 THEN AsfMean(<<"D">>) ELSE AsfMean(<<"V">>)
      [] c.k = "asf.dcnt" -> IF c.p >= 3 THEN AsfMean(<<"D">>) ELSE AsfMean(<<"A">>)
      [] c.k = "asf.size" -> AsfMean(<<c.p>>)
      [] c.k = "asf.guid" -> AsfMean(<<"A">>)
      [] c.k = "asf.two" -> AsfMean(<<"D">>)
      [] c.k = "asf.obj" -> AsfMean(<<c.p>>)
      [] c.k = "asf.type" -> IF c.p = 3 THEN AsfMean(<<"A">>) ELSE AsfMean(<<>>)
      [] c.k = "asf.word" -> AsfMean(<<"A">>)
      [] c.k = "asf.head" -> AsfMean(<<c.p>>)
      [] OTHER -> "any"
=============================================================================
