------------------------------ MODULE FamStretch ------------------------------
(* Streams beyond the model's numbers.  TLC's integers end at 2^31 and this specification's streams
   at 2^29, the formats' offsets and sizes do not.  Each case here holds gaps whose size means
   nothing: bytes between structures that no reader looks at.  TLC checks that the outcome is the
   meaning of the case for gaps of different small sizes n; the report names the gaps and the fields
   that count their bytes, and the replay enlarges every gap by 2^e + d bytes, or (e = 0) by as much as the
   fields can count, adding to the fields.
   The outcome must stay the same. *)
EXTENDS FamSig, FamTxt, FamZip, FamEbml, FamMp4, FamAsf, FamRm, FamCfb, FamExe, FamId3, FamPdf, FamXml, FamSql

\* A gap at position at; fields <<position, width, encoding, unit>> count its bytes.
Gap(at, fields) == [at |-> at, f |-> fields]
RepZ(k) == [i \in 1..k |-> 0]
PL(ps) == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, ps)
\* Pieces, gaps, possible sizes <<e, d>>, and meaning.
Stretched(ps, gaps, sizes, means) == [ps |-> ps, gaps |-> gaps, sizes |-> sizes, means |-> means]
Sizes64 == {<<0, 0>>, <<31, 0>>, <<32, 0>>, <<32, -4096>>, <<33, 4096>>, <<40, 0>>, <<60, 0>>}
Sizes32 == {<<0, 0>>, <<31, -8192>>, <<31, 0>>, <<32, -8388608>>}
Sizes28 == {<<0, 0>>, <<27, 0>>, <<28, -524288>>}
SizesFile == {<<31, 0>>, <<32, 4096>>, <<62, 0>>}

StrAsf(a, n) ==
    LET hd(cnt, ps) == AsfFile(cnt, ps)
        u == Obj(AsfOthers[1], <<Z(n)>>)
        hf == <<16, 8, "le", 1>>
        f(p) == <<p + 16, 8, "le", 1>>
    IN  CASE a = 1 -> Stretched(hd(2, u \o AsfItem("A")), <<Gap(54, <<hf, f(30)>>)>>, Sizes64, "WindowsMediaAudio")
          [] a = 2 -> Stretched(hd(2, StreamObj(AsfVideo, n) \o AsfItem("A")), <<Gap(70, <<hf, f(30)>>)>>, Sizes64, "WindowsMediaVideo")
          [] a = 3 -> LET e == ExtObj(2, Plain(34, 4) \o Plain(10, 1) \o <<Z(n)>>)
                      IN  Stretched(hd(2, e \o AsfItem("V")), <<Gap(30 + PL(e) - n, <<hf, f(30)>>)>>, Sizes64, "WindowsMediaVideo")
          [] a = 4 -> Stretched(hd(3, u \o u \o AsfItem("D")), <<Gap(54, <<hf, f(30)>>), Gap(78 + n, <<hf, f(54 + n)>>)>>, Sizes64,
                                "MicrosoftDigitalVideoRecording")
          [] a = 5 -> LET o == hd(1, AsfItem("A")) IN Stretched(o \o <<Z(n)>>, <<Gap(PL(o), <<>>)>>, SizesFile, "WindowsMediaAudio")
StrCfb(a, n) ==
    LET v == IF a % 2 = 1 THEN 3 ELSE 4
        u == SectorSize(v)
        g(i, nm, x) == Stretched(CfbFile(v, n \div u, <<0>>, i, nm, x, 0), <<Gap(u, <<<<48, 4, "le", u>>>>)>>,
                          IF v = 3 THEN {<<0, 0>>, <<31, 0>>, <<32, 512>>, <<40, 0>>, <<41, -8388608>>} ELSE {<<0, 0>>, <<31, 0>>, <<32, 4096>>, <<43, 0>>, <<44, -16777216>>}, "")
    IN  CASE a \in {1, 2} -> [g(ClassIdBytes[14], <<>>, <<>>) EXCEPT !.means = ClassIds[14][2]]
          [] a \in {3, 4} -> [g(NoClass, WorksWordName, <<>>) EXCEPT !.means = "MicrosoftWorksWordProcessor"]
          [] a \in {5, 6} -> [g(NoClass, SomeName, WorksSheetName) EXCEPT !.means = "MicrosoftWorks6Spreadsheet"]
          [] a \in {7, 8} -> [g(NoClass, SomeName, SomeName) EXCEPT !.means = "CompoundFileBinary"]
          [] a = 9 -> LET o == CfbFile(3, 0, <<0>>, ClassIdBytes[14], <<>>, <<>>, 0)
                      IN  Stretched(o \o <<Z(n)>>, <<Gap(PL(o), <<>>)>>, SizesFile, ClassIds[14][2])
EbmFit(l) == CASE l = 5 -> {<<0, 0>>, <<31, 0>>, <<32, 0>>, <<34, 0>>} [] l = 6 -> {<<0, 0>>, <<31, 0>>, <<32, 0>>, <<41, 0>>}
               [] l = 7 -> {<<0, 0>>, <<32, 0>>, <<48, 0>>} [] l = 8 -> {<<0, 0>>, <<31, 0>>, <<32, 0>>, <<33, -1>>, <<55, 0>>}
StrEbml(a, n) ==
    LET l == ((a - 1) % 4) + 5
        \* an element of id with n bytes in the tracks, behind data, and items
        one(id, data, items, means) ==
            LET pre == Header(Str.matroska) \o <<P(IdSegment \o VUnknown(8)), P(IdTracks \o VUnknown(8))>>
                at == PL(pre) + Len(id)
            IN  Stretched(pre \o <<P(id \o Vint(l, Len(data) + n) \o data), Z(n)>> \o items,
                          <<Gap(at + l + Len(data), <<<<at, l, "vint", 1>>>>)>>, EbmFit(l), means)
        doc(data, means) ==
            Stretched(<<P(IdHead \o VUnknown(1)), P(IdDocType \o Vint(l, Len(data) + n) \o data), Z(n), Elem(IdCodec, Codec.S)>>,
                      <<Gap(7 + l + Len(data), <<<<7, l, "vint", 1>>>>)>>, EbmFit(l), means)
        v == <<Elem(IdCodec, Codec.V)>>
    IN  CASE a \in 1..4 -> one(<<236>>, <<>>, v, "MatroskaVideo")
          [] a \in 5..8 -> one(IdCodec, Codec.A \o [i \in 1..60 |-> 7], <<Elem(IdCodec, Codec.S)>>, "MatroskaAudio")
          [] a \in 9..12 -> one(IdStereo, RepZ(8), v, "MatroskaVideo")
          [] a \in 13..16 -> doc(Str.matroska, "MatroskaSubtitles")
          [] a \in 17..20 -> one(<<236>>, <<>>, <<Elem(IdStereo, <<1>>)>>, "Matroska3dVideo")
          [] a \in 21..24 -> one(<<31, 67, 182, 118>>, <<>>, <<P(IdCluster \o VUnknown(1))>> \o v, "ExtensibleBinaryMetaLanguage")
          [] a \in 25..28 -> LET o == Header(IF a = 25 THEN Str.webm ELSE Str.matroska) \o <<P(IdSegment \o VUnknown(8))>>
                                      \o (IF a = 27 THEN v ELSE <<>>) \o <<P(IdCluster \o VUnknown(8))>>
                             IN  Stretched(o \o <<Z(n)>>, <<Gap(PL(o), <<>>)>>, SizesFile,
                                           CASE a = 25 -> "Webm" [] a = 27 -> "MatroskaVideo" [] OTHER -> "ExtensibleBinaryMetaLanguage")
StrExe(a, n) ==
    LET g(sg, means) == Stretched(ExeFile(1, 64 + n, sg, 40), <<Gap(64, <<<<60, 4, "le", 1>>>>)>>, Sizes32, means)
    IN  CASE a = 1 -> g(PeHeader(2, 1), "PortableExecutable")
          [] a = 2 -> g(PeHeader(2, 33), "DynamicLinkLibrary")
          [] a = 3 -> g(<<P(ExeSigs[2])>>, "LinearExecutable")
          [] a = 4 -> g(<<P(ExeSigs[4])>>, "NewExecutable")
          [] a = 5 -> g(<<P(ExeSigs[20])>>, "MsDosExecutable")
          [] a = 6 -> LET o == ExeFile(1, 128, PeHeader(2, 33), 40) IN Stretched(o \o <<Z(n)>>, <<Gap(PL(o), <<>>)>>, SizesFile, "DynamicLinkLibrary")
          \* the pointer leads into the gap: no signature there
          [] a = 7 -> LET o == ExeFile(1, 128, <<Z(8)>>, 0) IN Stretched(o \o <<Z(n)>>, <<Gap(PL(o), <<>>)>>, SizesFile, "MsDosExecutable")
StrMp4(a, n) ==
    LET m(hs) == Moov(hs, 12, {})
        b64 == <<Box(T_mdat, n, TRUE), Z(n)>>
        b32 == <<Box(T_free, n, FALSE), Z(n)>>
        f64(p) == <<p + 8, 8, "be", 1>>
        f32(p) == <<p, 4, "be", 1>>
        sum(x) == Stretched(<<Ftyp(1)>> \o b32 \o b32 \o b32 \o m(<<x>>),
                       <<Gap(28, <<f32(20)>>), Gap(36 + n, <<f32(28 + n)>>), Gap(44 + 2 * n, <<f32(36 + 2 * n)>>)>>, Sizes32, "")
        big(h, x, rest, means) ==
            LET o == <<Ftyp(1)>> \o <<P(<<0, 0, 0, 1, 109, 111, 111, 118>> \o RepZ(8)), P(<<0, 0, 0, 1, 116, 114, 97, 107>> \o RepZ(8)),
                                      P(<<0, 0, 0, 1, 109, 100, 105, 97>> \o RepZ(8))>>
                p == PL(o)
                w == IF x THEN 16 ELSE 8
            IN  Stretched(o \o Hdlr(h, n, x) \o rest, <<Gap(p + w + 12, <<IF x THEN f64(p) ELSE f32(p)>>)>>, IF x THEN Sizes64 ELSE Sizes32, means)
    IN  CASE a = 1 -> Stretched(<<Ftyp(1)>> \o b64 \o m(<<"V">>), <<Gap(36, <<f64(20)>>)>>, Sizes64, "Mpeg4Part14Video")
          [] a = 2 -> Stretched(<<Ftyp(1)>> \o b32 \o m(<<"A">>), <<Gap(28, <<f32(20)>>)>>, Sizes32, "Mpeg4Part14Audio")
          [] a = 3 -> [sum("S") EXCEPT !.means = "Mpeg4Part14Subtitles"]
          [] a = 4 -> Stretched(<<Ftyp(1)>> \o b64 \o b64 \o m(<<"T", "A">>), <<Gap(36, <<f64(20)>>), Gap(52 + n, <<f64(36 + n)>>)>>, Sizes64, "Mpeg4Part14Audio")
          [] a = 5 -> big("A", TRUE, Trak("V", 4, {}), "Mpeg4Part14Video")
          [] a = 6 -> big("V", TRUE, Trak("A", 4, {}), "Mpeg4Part14Video")
          [] a = 7 -> big("S", FALSE, Trak("A", 4, {}), "Mpeg4Part14Audio")
          [] a = 8 -> Stretched(<<Ftyp(1)>> \o m(<<"S">>) \o b64, <<Gap(36 + PL(m(<<"S">>)), <<f64(20 + PL(m(<<"S">>)))>>)>>, Sizes64, "Mpeg4Part14Subtitles")
          [] a = 9 -> Stretched(<<Ftyp(1)>> \o b64, <<Gap(36, <<f64(20)>>)>>, Sizes64, "Mpeg4Part14")
StrRm(a, n) ==
    LET c == Chunk(T_DATA, <<Z(n)>>)
        f(p) == <<p + 4, 4, "be", 1>>
    IN  CASE a = 1 -> Stretched(RmFile(3, c \o RmItem("A")), <<Gap(26, <<f(18)>>)>>, Sizes32, "Realaudio")
          [] a = 2 -> Stretched(RmFile(5, c \o RmItem("A") \o c \o RmItem("V")),
                                <<Gap(26, <<f(18)>>), Gap(34 + n + PL(RmItem("A")), <<f(26 + n + PL(RmItem("A")))>>)>>, Sizes32, "Realvideo")
          [] a = 3 -> Stretched(RmFile(5, c \o c \o c \o RmItem("V")), <<Gap(26, <<f(18)>>), Gap(34 + n, <<f(26 + n)>>), Gap(42 + 2 * n, <<f(34 + 2 * n)>>)>>,
                                Sizes32, "Realvideo")
          [] a = 4 -> LET x == Mdpr(5, MA, n) IN Stretched(RmFile(3, x \o RmItem("V")), <<Gap(18 + PL(x) - n, <<f(18)>>)>>, Sizes32, "Realvideo")
          [] a = 5 -> LET x == RmFile(2, RmItem("A")) IN Stretched(x \o c, <<Gap(PL(x) + 8, <<f(PL(x))>>)>>, Sizes32, "Realaudio")
StrId3(a, n) ==
    LET t == <<P(L_ID3 \o <<4, 0, 0>> \o Syncsafe(n)), Z(n)>>
        k == CASE a = 1 -> 1 [] a = 2 -> 20 [] a = 3 -> 100 [] a = 4 -> 9
        pay == IF a \in {1, 3} THEN 1 ELSE IF a = 2 THEN 3 ELSE 25
        step == 10 + n
    IN  IF a = 5 THEN LET o == Tag(3, 0, 20) \o Audio(3) IN Stretched(o \o <<Z(n)>>, <<Gap(PL(o), <<>>)>>, SizesFile, "Mpeg12AudioLayer3")
        ELSE Stretched(FlattenSeq([i \in 1..k |-> t]) \o Audio(pay),
                  [i \in 1..k |-> Gap((i - 1) * step + 10, <<<<(i - 1) * step + 6, 4, "syn", 1>>>>)], Sizes28, Payloads[pay][2])
StrZip(a, n) ==
    LET x == ZE(<<97>>)
        w == ZE(ZNames[Word].b)
        es == <<x, w>>
        ll == SumUpTo(es, LocalLen, 2)
        cl == SumUpTo(es, CentralLen, 2)
        mt == [ZE(ZipMimetype) EXCEPT !.d = MimeTypeBytes[1], !.cs = Len(MimeTypeBytes[1]), !.us = Len(MimeTypeBytes[1])]
        one64 == <<2, 0, 0, 0, 0, 0, 0, 0>>
        rec(off) == Record64(one64, off, 0)
    IN  CASE a = 1 -> \* the directory lies far behind
                 Stretched(Locals(es) \o <<Z(n)>> \o Central(es, 0) \o <<Eocd(2, cl, ll + n, 0)>>,
                           <<Gap(ll, <<<<ll + n + cl + 16, 4, "le", 1>>>>)>>, Sizes32, "OfficeOpenXmlDocument")
          [] a = 2 -> \* the mimetype's entry lies far behind
                 LET ps == LocalPieces(x) \o <<Z(n)>> \o LocalPieces(mt)
                     off == LocalLen(x) + n
                     c1 == CentralPieces(x, 0)
                 IN  Stretched(ps \o c1 \o CentralPieces(mt, off) \o <<Eocd(2, PL(c1) + CentralLen(mt), PL(ps), 0)>>,
                               <<Gap(LocalLen(x), <<<<PL(ps) + PL(c1) + 42, 4, "le", 1>>, <<PL(ps) + PL(c1) + CentralLen(mt) + 16, 4, "le", 1>>>>)>>,
                               Sizes32, "ElectronicPublication")
          [] a = 3 -> \* 64-bit directory offset
                 LET ps == Locals(es) \o <<Z(n)>> \o Central(es, 0)
                 IN  Stretched(ps \o <<rec(ll + n), Locator64(PL(ps)), EocdFF(0)>>,
                               <<Gap(ll, <<<<PL(ps) + 48, 8, "le", 1>>, <<PL(ps) + 56 + 8, 8, "le", 1>>>>)>>, Sizes64, "OfficeOpenXmlDocument")
          [] a = 4 -> \* the 64-bit record lies far behind the directory
                 LET ps == Locals(es) \o Central(es, 0) \o <<Z(n)>>
                 IN  Stretched(ps \o <<rec(ll), Locator64(PL(ps)), EocdFF(0)>>,
                               <<Gap(ll + cl, <<<<PL(ps) + 56 + 8, 8, "le", 1>>>>)>>, Sizes64, "OfficeOpenXmlDocument")
          [] a = 5 -> \* both
                 LET ps == Locals(es) \o <<Z(n)>> \o Central(es, 0) \o <<Z(n)>>
                 IN  Stretched(ps \o <<rec(ll + n), Locator64(PL(ps)), EocdFF(0)>>,
                               <<Gap(ll, <<<<PL(ps) + 48, 8, "le", 1>>, <<PL(ps) + 64, 8, "le", 1>>>>),
                                 Gap(ll + n + cl, <<<<PL(ps) + 64, 8, "le", 1>>>>)>>, Sizes64, "OfficeOpenXmlDocument")
          [] a = 6 -> \* data between the directory and the end record
                 Stretched(Locals(es) \o Central(es, 0) \o <<Z(n), Eocd(2, cl, ll, 0)>>, <<Gap(ll + cl, <<>>)>>, SizesFile, "OfficeOpenXmlDocument")
          [] a = 7 -> \* the record lies far before the locator
                 LET ps == Locals(es) \o Central(es, 0)
                 IN  Stretched(ps \o <<rec(ll), Z(n), Locator64(PL(ps)), EocdFF(0)>>, <<Gap(PL(ps) + 56, <<>>)>>, SizesFile, "OfficeOpenXmlDocument")
\* Markers, windows and text are near the start: a gap at the end.
StrTail(a, n) ==
    LET t(ps, means) == Stretched(ps \o <<Z(n)>>, <<Gap(PL(ps), <<>>)>>, SizesFile, means)
    IN  CASE a = 1 -> t(<<P(PdfSig), R(<<32>>, 9000), P(PdfMarker)>>, "AdobeIllustratorArtwork")
          [] a = 2 -> t(<<P(PdfSig), R(<<32>>, 90)>>, "PortableDocumentFormat")
          [] a = 3 -> t(XDoc(FALSE, 100, XBoth(20, 1)), "ScalableVectorGraphics")
          [] a = 4 -> t(<<P(<<60, 63, 120, 109, 108, 32, 118>>), R(<<32>>, 90)>>, "ExtensibleMarkupLanguage")
          [] a = 5 -> t(SqlHead \o <<Z(5000), P(SqliteMarker)>>, "Sketch")
          [] a = 6 -> t(SqlHead \o <<Z(100)>>, "Sqlite3")
          [] a = 7 -> t(<<R(<<113, 119, 10>>, 30)>>, "PlainText")
          [] a = 8 -> t(<<R(<<113>>, 65536)>>, "PlainText")
          [] a = 9 -> t(<<R(<<195, 169>>, 40000)>>, "PlainText")
          [] a = 10 -> t(<<R(<<113>>, 65535)>>, Default)
          [] a = 11 -> t(<<R(<<113, 10>>, 10)>>, Default)

StrTable == [asf |-> 5, cfb |-> 9, ebm |-> 28, exe |-> 7, mp4 |-> 9, rms |-> 5, id3 |-> 5, zip |-> 7,
             pdf |-> 2, xml |-> 2, sql |-> 2, txt |-> 5]
StrOf(c) ==
    LET f == SubSeq(c.k, 5, 7)
    IN  CASE f = "asf" -> StrAsf(c.a, c.n) [] f = "cfb" -> StrCfb(c.a, c.n) [] f = "ebm" -> StrEbml(c.a, c.n)
          [] f = "exe" -> StrExe(c.a, c.n) [] f = "mp4" -> StrMp4(c.a, c.n) [] f = "rms" -> StrRm(c.a, c.n)
          [] f = "id3" -> StrId3(c.a, c.n) [] f = "zip" -> StrZip(c.a, c.n)
          [] f = "pdf" -> StrTail(c.a, c.n) [] f = "xml" -> StrTail(c.a + 2, c.n) [] f = "sql" -> StrTail(c.a + 4, c.n)
          [] f = "txt" -> StrTail(c.a + 6, c.n)
          [] f = "sig" -> LET i == c.a
                              n0 == AltEnd[i] + 40
                          IN  [gaps |-> <<Gap(n0, <<>>)>>, sizes |-> SizesFile, means |-> "any"]
\* Kinds of cases: str.FAM, a: variant, n: bytes in each gap at first
StrCases(k) ==
    IF k = "str.sig"
    THEN {c \in [fam : {"str"}, k : {k}, a : 1..NAlts, n : {0, 40000}] : Alts[c.a].f \notin BaseFormats /\ (Thorough \/ Sampled(c.a, 5))}
    ELSE [fam : {"str"}, k : {k}, a : 1..StrTable[SubSeq(k, 5, 7)], n : {4096, 40960} \union (IF k = "str.txt" THEN {} ELSE {0}) \union (IF k = "str.id3" THEN {} ELSE {4096000})]
StrEnc(c) == IF c.k = "str.sig" THEN ConcatStreams(AltStream(c.a, 170, AltEnd[c.a] + 40), Stream(<<Z(c.n)>>)) ELSE Stream(StrOf(c).ps)
StrMeaning(c) == StrOf(c).means
StrExtra(c) == LET o == StrOf(c) IN [gaps |-> o.gaps, sizes |-> o.sizes]
=============================================================================
