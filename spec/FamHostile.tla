------------------------------ MODULE FamHostile ------------------------------
(* Damaged and hostile streams, made from the base streams of the other families: C01, C02, C03, C12. *)
EXTENDS FamSig, FamTxt, FamZip, FamEbml, FamMp4, FamAsf, FamRm, FamCfb, FamExe, FamId3, FamPdf, FamXml, FamSql

BaseCount == [zip |-> 13, ebm |-> 10, mp4 |-> 9, asf |-> 7, rms |-> 7, cfb |-> 6, exe |-> 7, id3 |-> 7, pdf |-> 6, xml |-> 6, sql |-> 5, txt |-> 9]
Base(f, n) ==
    CASE f = "zip" -> ZipEnc([k |-> "zip.base", n |-> n])
      [] f = "ebm" -> EbmlEnc([k |-> "ebm.base", n |-> n])
      [] f = "mp4" -> Mp4Enc([k |-> "mp4.base", n |-> n])
      [] f = "asf" -> AsfEnc([k |-> "asf.base", n |-> n])
      [] f = "rms" -> RmEnc([k |-> "rms.base", n |-> n])
      [] f = "cfb" -> CfbEnc([k |-> "cfb.base", n |-> n])
      [] f = "exe" -> ExeEnc([k |-> "exe.base", n |-> n])
      [] f = "id3" -> Id3Enc([k |-> "id3.base", n |-> n])
      [] f = "pdf" -> PdfEnc([k |-> "pdf.base", n |-> n])
      [] f = "xml" -> XEnc([k |-> "xml.base", n |-> n])
      [] f = "sql" -> SqlEnc([k |-> "sql.base", n |-> n])
      [] f = "txt" -> TxtEnc([k |-> "txt.base", p |-> n])

\* Interesting positions of a stream: all of the segments without repetition, the borders of the others.
Spots(st) ==
    UNION {LET g == st.segs[i]
           IN  IF g.n <= 400 \/ g.n = Len(g.b) THEN g.at..(g.at + Min2(g.n, 1500) - 1)
               ELSE g.at..(g.at + Min2(Len(g.b), 60) - 1) \union (g.at + g.n - 2)..(g.at + g.n - 1) : i \in DOMAIN st.segs}
Rep(x, n) == [i \in 1..n |-> x]
MutVals == <<
  <<0>>, <<1>>, <<2>>, <<127>>, <<128>>, <<255>>, <<16>>, <<64>>,
  Rep(255, 2), Rep(0, 2), <<255, 127>>, <<127, 255>>, <<0, 128>>, <<1, 0>>, <<0, 1>>, <<0, 64>>, <<64, 0>>,
  Rep(255, 4), <<255, 255, 255, 127>>, <<127, 255, 255, 255>>, <<0, 0, 0, 128>>, <<128, 0, 0, 0>>, Rep(0, 4), <<1, 0, 0, 0>>, <<0, 0, 0, 1>>,
  <<0, 0, 0, 32>>, <<32, 0, 0, 0>>, <<0, 0, 1, 0>>, <<254, 255, 255, 255>>, <<248, 255, 255, 255>>, <<255, 255, 255, 248>>,
  Rep(255, 8), Rep(255, 7) \o <<127>>, <<127>> \o Rep(255, 7), Rep(0, 7) \o <<128>>, <<128>> \o Rep(0, 7), Rep(0, 8), <<1>> \o Rep(0, 7), Rep(0, 7) \o <<1>>,
  <<232>> \o Rep(255, 7), Rep(255, 7) \o <<240>>, Rep(255, 7) \o <<254>>, <<254>> \o Rep(255, 7), <<1>> \o Rep(255, 7), Rep(255, 7) \o <<1>>,
  <<0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, 0>>, <<240>> \o Rep(255, 6) \o <<127>>, <<127>> \o Rep(255, 6) \o <<240>> >>

\* Kinds of cases (f: family, n: base stream):
\* mut.f   position p overwritten with value v
\* chr.f   texts of characters of several bytes at place v
\* cut.f   truncated to p bytes
\* pad.eq  base stream filled up to 3000 bytes
\* gro.el  element kind a repeated n times
\* gro.ty  element of type a repeated n times (v: empty, with contents)
\* gro.len base stream followed by n more bytes
\* hug.sz  sizes of n bytes, really present
\* dec.oy  base stream of a family under another format's signature (alternative a)
\* brk.txt broken containers that are text
FamsOfKind(k) == SubSeq(k, 5, 7)
GroEls == << "zip.entry", "zip.64", "zip.mime", "zip.look", "zip.manifest", "ebm.void", "ebm.nest", "ebm.codec", "ebm.stereo", "ebm.doc", "ebm.entry",
             "mp4.free", "mp4.free64", "mp4.nest", "mp4.hdlr", "mp4.zero", "mp4.zero64", "mp4.minus", "asf.obj", "asf.zero", "asf.minus", "asf.stream", "asf.ext", "asf.desc", "asf.deep",
             "rms.chunk", "rms.zero", "rms.mdpr", "id3.tag", "id3.foot", "pdf.part", "xml.part", "xml.lt", "sql.part", "txt.nl", "txt.wide", "exe.pe",
             "zip.names", "ebm.codecs", "ebm.docs", "asf.names" >>
GroSmall == 37
HugEls == << "zip.mime", "zip.mimews", "zip.far", "zip.name", "ebm.codec", "ebm.doc", "ebm.stereo", "ebm.void", "mp4.hdlr", "mp4.free", "mp4.mdat", "asf.obj", "asf.stream", "asf.ext", "rms.chunk", "rms.mdpr",
             "id3.tag", "cfb.far", "exe.far", "pdf.far", "xml.far", "sql.far", "txt.line", "txt.lines", "zip.pre" >>
\* The stream shows the beginning of a part of the alternative.
Akin(st, a) == \E j \in DOMAIN Parts(a) : LET p == Parts(a)[j]
                                              l == Min2(3, Len(p.b))
                                          IN  l > 1 /\ CanRead(st, p.o, l) /\ Slice(st, p.o, l) = SubSeq(p.b, 1, l)
\* Types of elements.
GroTypes == [rms |-> RmTypeWords \o <<S("MDPR"), S("DATA"), S("INDX"), Rep(0, 4)>>,
             mp4 |-> MpBoxes \o WordList(<<"moov", "trak", "mdia", "hdlr">>) \o <<Rep(0, 4)>>,
             ebm |-> EbIds \o SetToSeq(EbmlMasters) \o <<EbmlCodecId, EbmlStereo>>,
             asf |-> AsIds \o AsfOthers \o <<AsfExtended, AsfStream, Rep(0, 16)>>,
             zip |-> [i \in DOMAIN Neutral |-> ZNames[Neutral[i]].b] \o <<S("a/"), S("__MACOSX/x"), S("META-INF/"), S("x.class"), <<>>>>]
GroType(c) ==
    LET t == GroTypes[c.f][c.a]
        n == c.n
    IN  CASE c.f = "rms" -> <<RmHead(n)>> \o <<R(t \o BE32(8 + 40 * c.v) \o Rep(0, 40 * c.v), n)>>
          [] c.f = "mp4" -> <<Ftyp(1), R(BE32(8 + 12 * c.v) \o t \o Rep(0, 12 * c.v), n)>>
          [] c.f = "ebm" -> Mkv(<<R(t \o <<128 + 3 * c.v>> \o Rep(0, 3 * c.v), n)>>)
          [] c.f = "asf" -> AsfFile(n, <<R(t \o LE64(24 + 26 * c.v) \o Rep(0, 26 * c.v), n)>>)
          [] c.f = "zip" -> LET e == CentralPieces([ZE(t) EXCEPT !.x = 4 * c.v, !.c = c.v], 0)
                                one == FlattenSeq([i \in DOMAIN e |-> FlattenSeq([j \in 1..e[i].r |-> e[i].b])])
                                cnt == Min2(n, 65535)
                                l == LocalPieces(ZE(<<97>>))
                            IN  l \o <<R(one, n), Eocd(cnt, Min2(n * Len(one), 65535), LocalLen(ZE(<<97>>)), 0)>>
\* Characters of several bytes, and bytes that are none.
Chars == << <<195, 169>>, <<230, 151, 165>>, <<240, 159, 152, 128>>, <<255>>, <<233, 32>>, <<226, 128, 168>> >>
\* s letters, n characters, and t bytes of another one.
ChrField(c) == Rep(120, c.s) \o FlattenSeq([i \in 1..c.n |-> Chars[c.w]]) \o SubSeq(<<240, 159, 152>>, 1, c.t)
ChrPlaces == [zip |-> 5, ebm |-> 3, asf |-> 1, rms |-> 3, mp4 |-> 1, cfb |-> 1, xml |-> 2, pdf |-> 2, sql |-> 2]
ChrArchive(c) ==
    LET b == ChrField(c)
    IN  Simple(CASE c.v = 1 -> <<ZE(b), ZE(ZNames[Word].b)>>
                 [] c.v = 2 -> <<ZE(S("word/") \o b)>>
                 [] c.v = 3 -> <<ZE(b \o S(".fb2"))>>
                 [] c.v = 4 -> <<MimeEntry(b)>>
                 [] c.v = 5 -> <<MimeEntry(S("image/openraster") \o b), ZE(ZNames[Word].b)>>)
ChrPieces(c) ==
    LET b == ChrField(c)
        v == c.v
        long == R(Chars[c.w], 9000 \div Len(Chars[c.w]))
    IN  CASE c.f = "ebm" -> IF v = 3 THEN <<P(IdHead \o VUnknown(1)), P(IdDocType \o Vint(2, 4 + Len(b))), P(S("webm") \o b)>> \o <<Elem(IdCodec, Codec.A)>>
                            ELSE Mkv(<<P(IdCodec \o Vint(2, Len(b) + (IF v = 1 THEN 0 ELSE 2))), P((IF v = 1 THEN <<>> ELSE S("A_")) \o b), Elem(IdCodec, Codec.S)>>)
          [] c.f = "asf" -> AsfFile(2, ExtObj(2, Desc(<<P(b)>>, 3) \o DvrDesc) \o AsfItem("V"))
          [] c.f = "rms" -> RmFile(3, (CASE v = 1 -> Chunk(L_MDPR, <<Z(32), P(<<Len(b)>> \o b \o <<20>>)>> \o MA)
                                         [] v = 2 -> Chunk(L_MDPR, <<Z(32), P(<<0, Len(b)>> \o b)>>) \o RmItem("A")
                                         [] v = 3 -> Chunk(L_MDPR, <<Z(32), P(<<0, 6 + Len(b)>> \o S("audio/") \o b)>>)) \o RmItem("L"))
          [] c.f = "mp4" -> <<Ftyp(1)>> \o Boxed(<<104, 100, 108, 114>>, <<P(<<0, 0, 0, 0, 1, 2, 3, 4>> \o Handlers.A), Z(12), P(b)>>, FALSE) \o Moov(<<"S">>, 3, {})
          [] c.f = "cfb" -> CfbFile(3, 1, <<0>>, NoClass, SubSeq(b, 1, Min2(Len(b), 64)), <<>>, 0)
          [] c.f = "xml" -> XDoc(FALSE, 3, <<P(b)>> \o XBoth(20, 0) \o (IF v = 1 THEN <<long>> ELSE <<P(XAfter \o b)>>))
          [] c.f = "pdf" -> <<P(PdfSig), P(b), R(Chars[c.w], 33000 \div Len(Chars[c.w])), P(IF v = 1 THEN PdfMarker ELSE <<10>>), P(b)>>
          [] c.f = "sql" -> SqlHead \o <<P(b), R(Chars[c.w], 31000 \div Len(Chars[c.w])), P(IF v = 1 THEN SqliteMarker ELSE <<10>>), long>>
ChrMeaning(c) ==
    CASE c.f = "zip" -> (CASE c.v \in {1, 2} -> "OfficeOpenXmlDocument" [] c.v = 3 -> "FictionbookZip"
                           \* line separators are white space
                           [] OTHER -> IF c.v = 5 /\ c.w = 6 /\ c.s = 0 /\ c.t = 0 THEN "Openraster" ELSE "Zip")
      [] c.f = "ebm" -> (CASE c.v = 1 -> "MatroskaSubtitles" [] c.v = 2 -> "MatroskaAudio" [] c.v = 3 -> "Webm")
      [] c.f = "asf" -> "MicrosoftDigitalVideoRecording"
      [] c.f = "rms" -> "Realaudio"
      [] c.f = "mp4" -> "Mpeg4Part14Audio"
      [] c.f = "cfb" -> "CompoundFileBinary"
      [] c.f = "xml" -> XF(20)
      [] c.f = "pdf" -> Ai(c.v = 1)
      [] c.f = "sql" -> IF c.v = 1 THEN "Sketch" ELSE "Sqlite3"
HostileCases(k) ==
    CASE SubSeq(k, 1, 3) = "mut" ->
           LET f == FamsOfKind(k)
               m == IF Thorough THEN 3 ELSE 40
           IN  UNION {LET sp == Spots(Base(f, n))
                      IN  {c \in [fam : {"mut"}, k : {k}, f : {f}, n : {n}, p : sp, v : DOMAIN MutVals] :
                              Sampled(c.n * 100000 + c.p * 53 + c.v, m)} : n \in 0..BaseCount[f]}
      [] SubSeq(k, 1, 3) = "cut" ->
           LET f == FamsOfKind(k)
           IN  UNION {LET st == Base(f, n)
                          sp == {p + d : p \in Spots(st), d \in {0, 1}} \union {st.len, st.len - 1, st.len \div 2}
                      IN  {c \in [fam : {"cut"}, k : {k}, f : {f}, n : {n}, p : {x \in sp : x >= 0 /\ x <= st.len}] :
                              Thorough \/ c.p <= 130 \/ st.len - c.p <= 130 \/ Sampled(c.p + c.n * 1000, 4)} : n \in 0..BaseCount[f]}
      [] k = "pad.eq" ->
           UNION {{c \in [fam : {"pad"}, k : {k}, f : {f}, n : 0..BaseCount[f]] : Base(c.f, c.n).len < 3000} : f \in DOMAIN BaseCount}
      [] k = "dec.oy" ->
           {c \in [fam : {"dec"}, k : {k}, f : DOMAIN BaseCount, n : 0..12, a : 1..NAlts] :
               /\ c.n <= BaseCount[c.f] /\ Alts[c.a].f \notin BaseFormats
               /\ Sampled(c.a * 13 + c.n, IF Thorough THEN 2 ELSE 12)}
           \* formats that look alike from the start: other brands, other variants
           \union UNION {UNION {LET st == Base(f, n)
                               IN  {c \in [fam : {"dec"}, k : {k}, f : {f}, n : {n}, a : 1..NAlts] :
                                      Alts[c.a].f \notin BaseFormats /\ Akin(st, c.a)} : n \in 0..BaseCount[f]} : f \in DOMAIN BaseCount}
      [] SubSeq(k, 1, 3) = "chr" ->
           LET f == FamsOfKind(k)
           IN  {c \in [fam : {"chr"}, k : {k}, f : {f}, v : 1..ChrPlaces[f], w : DOMAIN Chars, s : 0..3, n : {1, 20, 58, 300}, t : 0..3] :
                  /\ f # "rms" \/ c.n * Len(Chars[c.w]) + c.s + c.t < 248
                  /\ Thorough \/ c.t = 0 \/ Sampled(c.v * 7 + c.w * 11 + c.s * 3 + c.n + c.t, 6)}
      [] k = "gro.el" -> [fam : {"gro"}, k : {k}, a : DOMAIN GroEls, n : {3000, 300000, 900000}]
      [] k = "gro.ty" ->
           UNION {[fam : {"gro"}, k : {k}, f : {f}, a : {a \in DOMAIN GroTypes[f] : Thorough \/ Len(GroTypes[f]) < 40 \/ Sampled(a, 3)}, n : {300000, 900000}, v : {0, 1}]
                  : f \in DOMAIN GroTypes}
      [] k = "gro.len" ->
           UNION {[fam : {"gro"}, k : {k}, f : {f}, a : 0..BaseCount[f], n : {40000000, 400000000}, b : {0, 113}] : f \in DOMAIN BaseCount}
      [] k = "hug.sz" -> [fam : {"hug"}, k : {k}, a : DOMAIN HugEls, n : {70000, 5000000, 100000000, 400000000}]
      [] k = "brk.txt" ->
           [fam : {"brk"}, k : {k}, a : {1, 2}, n : 0..70, b : {0, 1, 2, 3}]
           \union [fam : {"brk"}, k : {k}, a : {3}, n : 0..30, b : {0, 1, 2, 3}]

Words == <<113, 119, 101, 32>>
BrkTail(b, n) == <<R(Words, n \div 4), P(SubSeq(Words, 1, n % 4)), P(CASE b = 0 -> <<>> [] b = 1 -> <<0>> [] b = 2 -> <<195, 169>> [] b = 3 -> <<195>>)>>
GroPieces(c) ==
    LET a == GroEls[c.a]
        n == c.n
        ce == CentralPieces(ZE(<<97>>), 0)
        oneEntry == ce[1].b \o ce[2].b
        zips(one, cnt) == LET l == LocalPieces(ZE(<<97>>))
                              ll == LocalLen(ZE(<<97>>))
                          IN  l \o <<R(one, n), Eocd(cnt, Min2(n * Len(one), 65535), ll, 0)>>
    IN  CASE a = "zip.entry" -> zips(oneEntry, Min2(n, 65535))
          [] a = "zip.64" -> LET ll == LocalLen(ZE(<<97>>))
                             IN  LocalPieces(ZE(<<97>>)) \o <<R(oneEntry, n), Record64(<<255, 255, 255, 255, 255, 255, 255, 127>>, ll, 0), Locator64(ll + n * Len(oneEntry)), EocdFF(0)>>
          [] a = "zip.mime" -> LET e == CentralPieces([ZE(ZipMimetype) EXCEPT !.us = 50], 0) IN zips(e[1].b \o e[2].b, Min2(n, 65535))
          [] a = "zip.look" -> LocalPieces(ZE(<<97>>)) \o CentralPieces(ZE(<<97>>), 0) \o <<Eocd(1, 47, LocalLen(ZE(<<97>>)), Min2(n * 3, 65535)), R(<<80, 75, 5>>, Min2(n, 21845))>>
          [] a = "zip.manifest" -> LET e == CentralPieces(ZE(ZipManifest), 0) IN zips(e[1].b \o e[2].b, Min2(n, 65535))
          [] a = "ebm.void" -> Mkv(<<R(<<236, 129, 86>>, n), Elem(IdCodec, Codec.V)>>)
          [] a = "ebm.nest" -> Header(Str.matroska) \o <<R(IdSegment \o VUnknown(1), n), Elem(IdCodec, Codec.V)>>
          [] a = "ebm.codec" -> Mkv(<<R(<<134, 130, 65, 95>>, n)>>)
          [] a = "ebm.stereo" -> Mkv(<<R(<<83, 184, 129, 0>>, n), Elem(IdCodec, Codec.V)>>)
          [] a = "ebm.doc" -> <<P(IdHead \o VUnknown(1)), R(IdDocType \o <<136>> \o Str.matroska, n)>>
          [] a = "ebm.entry" -> Mkv(<<R(<<174, 128>>, n), R(<<236, 128>>, n)>>)
          [] a = "mp4.free" -> <<Ftyp(1), R(BE32(8) \o T_free, n)>> \o Moov(<<"V">>, 1, {})
          [] a = "mp4.free64" -> <<Ftyp(1), R(<<0, 0, 0, 1>> \o T_free \o BE64(16), n)>> \o Moov(<<"V">>, 1, {})
          [] a = "mp4.nest" -> <<Ftyp(1), R(BE32(8) \o L_moov, n)>>
          [] a = "mp4.hdlr" -> <<Ftyp(1), R(BE32(20) \o L_hdlr \o Rep(0, 12), n)>>
          [] a = "mp4.zero" -> <<Ftyp(1), R(BE32(0) \o T_free, n)>>
          [] a = "mp4.zero64" -> <<Ftyp(1), R(<<0, 0, 0, 1>> \o T_free \o Rep(0, 8), n)>>
          [] a = "mp4.minus" -> <<Ftyp(1), R(<<0, 0, 0, 1>> \o T_free \o Rep(255, 7) \o <<240>>, n)>>
          [] a = "asf.obj" -> AsfFile(n, <<R(AsfOthers[1] \o LE64(24), n)>>)
          [] a = "asf.zero" -> AsfFile(n, <<R(AsfOthers[1] \o LE64(0), n)>>)
          [] a = "asf.minus" -> AsfFile(n, <<R(AsfOthers[1] \o LE64(24) \o AsfOthers[2] \o (<<232>> \o Rep(255, 7)), n)>>)
          [] a = "asf.stream" -> AsfFile(n, <<R(AsfStream \o LE64(40) \o AsfAudio, n)>>)
          [] a = "asf.ext" -> AsfFile(n, <<R(AsfExtended \o LE64(26) \o <<0, 0>>, n)>>)
          [] a = "asf.desc" -> AsfFile(1, <<P(AsfExtended \o LE64(26) \o <<255, 255>>), R(<<2, 0, 90, 0, 0, 0, 0, 0>>, n)>>)
          [] a = "asf.deep" -> AsfFile(n, <<R(AsfExtended \o LE64(282) \o <<255, 255>> \o FlattenSeq([i \in 1..32 |-> <<2, 0, 90, 0, 0, 0, 0, 0>>]), n)>>)
          [] a = "rms.chunk" -> <<RmHead(n), R(T_PROP \o BE32(8), n)>>
          [] a = "rms.zero" -> <<P(<<46, 82, 77, 70, 0, 0, 0, 18, 0, 1, 0, 0, 0, 0, 255, 255, 255, 255>>), R(T_PROP \o BE32(0), n)>>
          [] a = "rms.mdpr" -> <<RmHead(n), R(L_MDPR \o BE32(42) \o Rep(0, 34), n)>>
          [] a = "id3.tag" -> <<R(<<73, 68, 51, 4, 0, 0, 0, 0, 0, 0>>, n)>> \o Audio(1)
          [] a = "id3.foot" -> <<R(<<73, 68, 51, 4, 0, 16, 0, 0, 0, 1, 7>> \o Rep(51, 10), n)>> \o Audio(1)
          [] a = "pdf.part" -> <<P(PdfSig), R(SubSeq(PdfMarker, 1, 12), IF n > 3000 THEN 33000000 ELSE 3300000)>>
          [] a = "xml.part" -> <<P(XDecl), R(<<60, 115, 118>>, n * 10)>>
          [] a = "xml.lt" -> <<P(XDecl), R(<<60>>, n * 10)>>
          [] a = "sql.part" -> SqlHead \o <<R(SubSeq(SqliteMarker, 1, 25), n * 10)>>
          [] a = "txt.nl" -> <<R(<<10>>, n * 100)>>
          [] a = "txt.wide" -> <<R(<<195, 169>>, n * 100)>>
          [] a = "exe.pe" -> <<ExeHead(1, LE32(64)), R(<<80, 69, 0, 0>>, n)>>
BigPieces(c) ==
    LET a == GroEls[c.a]
        n == c.n
        big == Rep(113, 6000)
    IN  CASE a = "zip.names" -> LET e == CentralPieces(ZE(big), 0)
                                    l == LocalPieces(ZE(<<97>>))
                                    k == IF n > 3000 THEN 15000 ELSE 1100
                                IN  l \o <<R(e[1].b \o e[2].b, k), Eocd(k, BIG, LocalLen(ZE(<<97>>)), 0)>>
          [] a = "ebm.codecs" -> Mkv(<<R(IdCodec \o Vint(2, 6000) \o big, IF n > 3000 THEN 15000 ELSE 1100)>>)
          [] a = "ebm.docs" -> <<P(IdHead \o VUnknown(1)), R(IdDocType \o Vint(2, 6000) \o big, IF n > 3000 THEN 15000 ELSE 1100)>>
          [] a = "asf.names" -> AsfFile(n, <<R(AsfExtended \o LE64(6032) \o <<1, 0>> \o LE16(6000) \o big \o <<0, 0, 0, 0>>, IF n > 3000 THEN 15000 ELSE 1100)>>)
HugPieces(c) ==
    LET a == HugEls[c.a]
        n == c.n
        mime(ws) == LET e == [nm |-> ZipMimetype, x |-> 0, c |-> 0, cs |-> n, us |-> n, d |-> <<>>, lx |-> 0]
                    IN  LocalPieces(e) \o <<IF ws THEN R(<<32>>, n) ELSE R(MimeTypeBytes[1], n \div Len(MimeTypeBytes[1])),
                                            IF ws THEN Z(0) ELSE Z(n % Len(MimeTypeBytes[1]))>>
                        \o CentralPieces(e, 0) \o <<Eocd(1, CentralLen(e), LocalLen(e) + n, 0)>>
    IN  CASE a = "zip.mime" -> mime(FALSE)
          [] a = "zip.mimews" -> mime(TRUE)
          [] a = "zip.far" -> Locals(<<ZE(<<97>>)>>) \o <<Z(n)>> \o Central(<<ZE(<<97>>)>>, 0) \o <<Eocd(1, 47, LocalLen(ZE(<<97>>)) + n, 0)>>
          [] a = "zip.name" -> LET e == ZE(Rep(122, 60000)) IN Locals(<<e, e>>) \o <<Z(n)>> \o Central(<<e, e>>, 0) \o <<Eocd(2, CentralLen(e), 2 * LocalLen(e) + n, 0)>>
          [] a = "zip.pre" -> Locals(<<ZE(<<97>>)>>) \o <<R(EocdSig, n \div 4)>> \o Central(<<ZE(<<97>>)>>, 0) \o <<Eocd(1, 47, LocalLen(ZE(<<97>>)) + 4 * (n \div 4), 0)>>
          [] a = "ebm.codec" -> Mkv(<<P(IdCodec \o Vint(8, n)), P(<<65, 95>>), Z(n - 2), Elem(IdCodec, Codec.V)>>)
          [] a = "ebm.doc" -> <<P(IdHead \o VUnknown(1)), P(IdDocType \o Vint(8, n)), P(Str.matroska), Z(n - 8), Elem(IdCodec, Codec.V)>>
          [] a = "ebm.stereo" -> Mkv(<<P(IdStereo \o Vint(8, n)), Z(n), Elem(IdCodec, Codec.V)>>)
          [] a = "ebm.void" -> Mkv(<<P(<<236>> \o Vint(8, n)), Z(n), Elem(IdCodec, Codec.V)>>)
          [] a = "mp4.hdlr" -> <<Ftyp(1)>> \o Moov(<<"A", "S">>, n \div 2, {})
          [] a = "mp4.free" -> <<Ftyp(1)>> \o Free(n, FALSE) \o Moov(<<"A">>, 1, {})
          [] a = "mp4.mdat" -> <<Ftyp(1)>> \o Mdat(n, TRUE) \o Moov(<<"V">>, 1, {})
          [] a = "asf.obj" -> AsfFile(2, Obj(AsfOthers[1], <<Z(n)>>) \o AsfItem("A"))
          [] a = "asf.stream" -> AsfFile(2, StreamObj(AsfAudio, n) \o AsfItem("V"))
          [] a = "asf.ext" -> AsfFile(2, Obj(AsfExtended, <<P(<<1, 0>>)>> \o Plain(65534, 65535) \o <<Z(n)>>) \o AsfItem("V"))
          [] a = "rms.chunk" -> RmFile(3, Chunk(T_CONT, <<Z(n)>>) \o RmItem("A"))
          [] a = "rms.mdpr" -> RmFile(3, Mdpr(255, MA, n) \o RmItem("V"))
          [] a = "id3.tag" -> Tag(4, 0, Min2(n, 268435455)) \o Audio(1)
          [] a = "cfb.far" -> CfbFile(4, n \div 4096, <<0>>, ClassIdBytes[5], <<>>, <<>>, 0)
          [] a = "exe.far" -> ExeFile(1, n, PeHeader(0, 32), 10)
          [] a = "pdf.far" -> <<P(PdfSig), Z(n), P(PdfMarker)>>
          [] a = "xml.far" -> XDoc(FALSE, n, XBoth(20, 1))
          [] a = "sql.far" -> SqlHead \o <<Z(n), P(SqliteMarker)>>
          [] a = "txt.line" -> <<R(<<113>>, n)>>
          [] a = "txt.lines" -> <<R(<<113, 10>>, 15), R(<<195, 169>>, n \div 2)>>
HostileEnc(c) ==
    CASE c.fam = "mut" -> LET st == Base(c.f, c.n) IN Overwrite(st, c.p, MutVals[c.v])
      [] c.fam = "cut" -> Trunc(Base(c.f, c.n), c.p)
      [] c.fam = "chr" -> IF c.f = "zip" THEN ChrArchive(c) ELSE Stream(ChrPieces(c))
      [] c.fam = "pad" -> LET st == Base(c.f, c.n) IN ConcatStreams(st, Stream(<<Z(3000 - st.len)>>))
      [] c.k = "dec.oy" -> WriteParts(Base(c.f, c.n), Parts(c.a), Len(Parts(c.a)))
      [] c.k = "gro.el" -> Stream(IF c.a <= GroSmall THEN GroPieces(c) ELSE BigPieces(c))
      [] c.k = "gro.ty" -> Stream(GroType(c))
      [] c.k = "gro.len" -> ConcatStreams(Base(c.f, c.a), Stream(<<R(<<c.b>>, c.n)>>))
      [] c.k = "hug.sz" -> Stream(HugPieces(c))
      [] c.k = "brk.txt" ->
           IF c.a <= 2 THEN Stream(<<P(ExeMagics[c.a])>> \o BrkTail(c.b, c.n))
           \* a text whose first box leads 151,587,081 bytes on, next to the end
           ELSE Stream(<<P(<<9, 9, 9, 9>> \o BrandOf(1) \o <<32, 32, 32, 32>>), R(<<113, 10>>, 75793532), P(<<10>>)>> \o BrkTail(c.b, c.n))
HostileMeaning(c) ==
    CASE c.fam = "chr" -> ChrMeaning(c)
      [] c.k = "brk.txt" -> IF c.a <= 2 /\ 2 + c.n + Len(BrkTail(c.b, 0)[3].b) < 64 THEN "ERR" ELSE "any"
      [] OTHER -> "any"
=============================================================================
