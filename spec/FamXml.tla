-------------------------------- MODULE FamXml --------------------------------
(* XML documents: C25. *)
EXTENDS Scope

XDecl == <<60, 63, 120, 109, 108>>
XBom == <<239, 187, 191>>
XRest == <<32, 118, 101, 114, 115, 105, 111, 110, 61, 34, 49, 46, 48, 34, 63, 62, 10>>
XAfter == <<62, 10, 60, 47, 120, 62, 10>>
\* The dialects as the documentation lists them, one row per alternative: markers, format; in order.
XTable == <<
  << <<"<abiword template=\"false\"">>, "Abiword">>, << <<"<abiword template=\"true\"">>, "AbiwordTemplate">>,
  << <<"<amf">>, "AdditiveManufacturingFormat">>, << <<"<ASX">>, "AdvancedStreamRedirector">>, << <<"<asx">>, "AdvancedStreamRedirector">>,
  << <<"<feed">>, "Atom">>, << <<"<COLLADA">>, "CollaborativeDesignActivity">>, << <<"<mxfile">>, "Drawio">>, << <<"<X3D">>, "Extensible3d">>,
  << <<"<xsl">>, "ExtensibleStylesheetLanguageTransformations">>, << <<"<FictionBook">>, "Fictionbook">>,
  << <<"<gml">>, "GeographyMarkupLanguage">>, << <<"<gpx">>, "GpsExchangeFormat">>, << <<"<kml">>, "KeyholeMarkupLanguage">>,
  << <<"<math">>, "MathematicalMarkupLanguage">>, << <<"<MPD">>, "MpegDashMpd">>, << <<"<score-partwise">>, "Musicxml">>,
  << <<"<rss">>, "ReallySimpleSyndication">>, << <<"<SVG">>, "ScalableVectorGraphics">>, << <<"<svg">>, "ScalableVectorGraphics">>,
  << <<"<soap">>, "SimpleObjectAccessProtocol">>, << <<"<map">>, "TiledMapXml">>, << <<"<tileset">>, "TiledTilesetXml">>,
  << <<"<tt", "xmlns=\"http://www.w3.org/ns/ttml\"">>, "TimedTextMarkupLanguage">>, << <<"<TrainingCenterDatabase">>, "TrainingCenterXml">>,
  << <<"<uof:UOF", "uof:mimetype=\"vnd.uof.presentation\"">>, "UniformOfficeFormatPresentation">>,
  << <<"<uof:UOF", "uof:mimetype=\"vnd.uof.spreadsheet\"">>, "UniformOfficeFormatSpreadsheet">>,
  << <<"<uof:UOF", "uof:mimetype=\"vnd.uof.text\"">>, "UniformOfficeFormatText">>,
  << <<"<USFSubtitles">>, "UniversalSubtitleFormat">>, << <<"<xliff">>, "XmlLocalizationInterchangeFileFormat">>,
  << <<"<playlist">>, "XmlShareablePlaylistFormat">> >>
XMark == FoldLeft(LAMBDA acc, d : Append(acc, [k \in DOMAIN d[1] |-> S(d[1][k])]), <<>>, XTable)
XTwo == {i \in DOMAIN XTable : Len(XTable[i][1]) = 2}
XOne == DOMAIN XTable \ XTwo
\* All markers of row i, separated by w bytes.
XBoth(i, w) == IF i \in XTwo THEN <<P(XMark[i][1]), R(<<32>>, w), P(XMark[i][2])>> ELSE <<P(XMark[i][1])>>
XLen(ps) == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, ps)
\* The document: markers start p bytes behind the fifth byte (p >= 3 with a byte-order mark).
XDoc(bom, p, ps) ==
    (IF bom THEN <<P(XBom \o XDecl), R(<<32>>, Max2(0, p - 3))>> ELSE <<P(XDecl), R(<<32>>, p)>>) \o ps

\* Kinds of cases:
\* xml.pos    row a at position p
\* xml.limit  row a ends n bytes from the limit
\* xml.pair   rows a and b, in both orders
\* xml.two    markers of the rows that need two: one of them missing, other order, distance w, from position p
\* xml.flip   byte i of the markers changed
\* xml.part   first n bytes of the marker before it
\* xml.rep    look-alikes, r times
\* xml.text   documents without marker
\* xml.word   variants of marker j of row a
\* xml.root   other root elements
\* xml.wrap   row a within comments, sections, quotes (w), row b behind it; p: what stands before
\* The words near the markers.
XNear == FoldLeft(LAMBDA acc, m : Append(acc, FoldLeft(LAMBDA a2, b : Append(a2, ListOf(NearWords(b))), <<>>, m)), <<>>, XMark)
XWraps == << <<S("<!--"), S("-->")>>, <<S("<![CDATA["), S("]]>")>>, <<S("<?x "), S("?>")>>, <<S("<!DOCTYPE x ["), S("]>")>>, <<<<34>>, <<34>>>>, <<S("'"), S("'")>>, <<S("<a b='"), S("'>")>>,
             <<S("<x>"), S("</x>")>>, <<S("<!ENTITY x "), S(">")>>, <<S("&lt;"), S("&gt;")>>, <<S("<html><body>"), S("</body></html>")>>, <<S("<!-- "), S(" --> <!-- -->")>>, <<S("<!--"), <<10>>>>,
             <<S("<!---->"), S("<!-- -->")>>, <<S("?><?xml version='1.0' encoding='UTF-16'?>"), <<>>>>, <<S("<root xmlns:x='"), S("'/>")>> >>
XCases(k) ==
    CASE k = "xml.pos" -> [fam : {"xml"}, k : {k}, a : DOMAIN XTable, p : {0, 1, 2, 3, 17, 100, 1000, 4080, 4086, 4090, 4091, 4092, 4095, 4096, 5000, 8000}, bom : BOOLEAN]
      [] k = "xml.limit" -> [fam : {"xml"}, k : {k}, a : DOMAIN XTable, n : -3..4, e : {0, 1, 2}, bom : BOOLEAN]
      [] k = "xml.pair" -> {c \in [fam : {"xml"}, k : {k}, a : DOMAIN XTable, b : DOMAIN XTable, p : {0, 40}] : c.a # c.b}
      [] k = "xml.two" -> [fam : {"xml"}, k : {k}, a : XTwo, b : XTwo, w : {0, 1, 500, 4000, 8100}, o : 0..3, p : {0, 1, 8, 17}]
      [] k = "xml.flip" ->
           UNION {[fam : {"xml"}, k : {k}, a : {i}, j : DOMAIN XMark[i], n : 1..46, d : {1, 32, 64}] : i \in DOMAIN XTable}
      [] k = "xml.part" -> UNION {[fam : {"xml"}, k : {k}, a : {i}, n : 1..(Len(XMark[i][1]) - 1), r : {1, 2, 300}] : i \in XOne}
      [] k = "xml.rep" -> [fam : {"xml"}, k : {k}, a : DOMAIN XTable, e : {0, 1}]
      [] k = "xml.text" -> [fam : {"xml"}, k : {k}, n : 1..12, bom : BOOLEAN]
      [] k = "xml.word" ->
           UNION {UNION {{c \in [fam : {"xml"}, k : {k}, a : {i}, j : {j}, n : DOMAIN XNear[i][j]] : Thorough \/ Len(XMark[i][j]) < 9 \/ Sampled(c.n * 7 + i, 4)}
                         : j \in DOMAIN XMark[i]} : i \in DOMAIN XTable}
      [] k = "xml.root" -> [fam : {"xml"}, k : {k}, a : DOMAIN XmRoots, p : {0, 17}, w : 0..2]
      [] k = "xml.wrap" ->
           {c \in [fam : {"xml"}, k : {k}, a : DOMAIN XTable, b : 0..Len(XTable), w : DOMAIN XWraps, p : {0, 70, 4090}] :
              c.a # c.b /\ (Thorough \/ (IF c.b = 0 THEN (c.a + c.w + c.p \div 35) % 3 = 0 \/ (c.w < 3 /\ c.p = 0)
                                         ELSE Sampled(c.a * 1000 + c.b * 37 + c.w * 5 + c.p, 256)))}
      [] k = "xml.base" -> [fam : {"xml"}, k : {k}, n : 0..6]
XTexts == << <<>>, XRest, <<60>>, <<60, 60, 60>>, <<60, 63, 120, 109, 108>>, <<38, 108, 116, 59, 115, 118, 103>>, <<115, 118, 103>>, <<60, 32, 115, 118, 103>>,
             <<60, 83, 118, 103>>, <<60, 115, 58, 115, 118, 103>>, <<60, 33, 68, 79, 67, 84, 89, 80, 69, 32, 115, 118, 103>>, <<60, 0, 115, 0, 118, 0, 103, 0>> >>
XFlip(b, i, d) == [b EXCEPT ![i] = IF (@ \div d) % 2 = 1 THEN @ - d ELSE @ + d]
XPieces(c) ==
    CASE c.k = "xml.pos" -> XDoc(c.bom, c.p, XBoth(c.a, 20) \o <<P(XAfter)>>)
      [] c.k = "xml.limit" ->
           LET ps == XBoth(c.a, 5)
           IN  XDoc(c.bom, 8192 - XLen(ps) - c.n, ps \o (CASE c.e = 0 -> <<>> [] c.e = 1 -> <<R(<<32>>, 100)>> [] c.e = 2 -> <<R(<<32>>, 5000)>> \o ps))
      [] c.k = "xml.pair" -> XDoc(FALSE, c.p, XBoth(c.a, 3) \o <<P(<<62, 10, 9>>)>> \o XBoth(c.b, 3) \o <<P(XAfter)>>)
      [] c.k = "xml.two" ->
           LET f == P(XMark[c.a][1])
               g == P(XMark[c.b][2])
               gap == R(<<58>>, c.w)
           IN  XDoc(FALSE, c.p, CASE c.o = 0 -> <<f, gap, g>> [] c.o = 1 -> <<g, gap, f>> [] c.o = 2 -> <<f, gap, f>> [] c.o = 3 -> <<g, gap, g>>)
      [] c.k = "xml.flip" ->
           LET m == XMark[c.a]
               ch == [m EXCEPT ![c.j] = XFlip(@, ((c.n - 1) % Len(@)) + 1, c.d)]
           IN  XDoc(FALSE, 17, FlattenSeq([q \in DOMAIN ch |-> <<P(ch[q]), P(<<32, 10>>)>>]))
      [] c.k = "xml.part" -> XDoc(FALSE, c.n, <<R(SubSeq(XMark[c.a][1], 1, c.n), c.r)>> \o XBoth(c.a, 0) \o <<P(XAfter)>>)
      [] c.k = "xml.rep" ->
           LET n == Len(XMark[c.a][1]) - 1
           IN  XDoc(FALSE, 0, <<R(SubSeq(XMark[c.a][1], 1, n), 4096 \div n)>> \o (IF c.e = 1 THEN XBoth(c.a, 9) ELSE <<P(<<32>>), R(SubSeq(XMark[c.a][1], 2, n + 1), 100)>>))
      [] c.k = "xml.text" -> XDoc(c.bom, 0, <<P(XTexts[c.n])>>)
      [] c.k = "xml.word" ->
           LET m == [XMark[c.a] EXCEPT ![c.j] = XNear[c.a][c.j][c.n]]
           IN  XDoc(FALSE, 17, FlattenSeq([q \in DOMAIN m |-> <<P(m[q]), P(<<32, 10>>)>>]))
      [] c.k = "xml.root" ->
           XDoc(FALSE, c.p, <<P(XmRoots[c.a]), P(CASE c.w = 0 -> <<62, 10>> [] c.w = 1 -> <<32, 120, 61, 34, 49, 34, 62>> [] c.w = 2 -> <<47, 62>>), R(<<32>>, 90)>>)
      [] c.k = "xml.wrap" ->
           LET both(i) == FlattenSeq([j \in DOMAIN XMark[i] |-> XMark[i][j] \o <<32>>])
           IN  <<P(XDecl \o XRest), R(<<9>>, c.p), P(XWraps[c.w][1] \o both(c.a) \o <<120>> \o XWraps[c.w][2] \o <<10>> \o (IF c.b = 0 THEN <<60, 47, 120, 62, 10>> ELSE both(c.b) \o XAfter))>>
      [] c.k = "xml.base" ->
           (CASE c.n = 0 -> XDoc(FALSE, 0, <<P(XRest)>>)
              [] c.n = 1 -> XDoc(TRUE, 3, <<P(XRest)>> \o XBoth(20, 0) \o <<P(XAfter)>>)
              [] c.n = 2 -> XDoc(FALSE, 30, XBoth(24, 40))
              [] c.n = 3 -> XDoc(FALSE, 8180, XBoth(12, 0))
              [] c.n = 4 -> XDoc(FALSE, 4090, XBoth(21, 0) \o <<Z(3)>>)
              [] c.n = 5 -> XDoc(FALSE, 9000, XBoth(21, 0))
              [] c.n = 6 -> XDoc(FALSE, 2000, XBoth(27, 60) \o <<R(<<10>>, 60000), P(<<255>>)>>))
XEnc(c) == Stream(XPieces(c))
\* The dialect a row stands for.
XF(i) == XTable[i][2]
\* Rows shown by a second marker j with the first marker of row i.
XMeaning(c) ==
    CASE c.k = "xml.pos" -> XF(c.a)
      [] c.k = "xml.limit" -> IF c.n >= 0 THEN XF(c.a) ELSE "any"
      [] c.k = "xml.pair" -> XF(Min2(c.a, c.b))
      [] c.k = "xml.two" ->
           IF c.o \in {0, 1} /\ XMark[c.a][1] = XMark[c.b][1] /\ c.w + 40 + 8 + 17 < 8192 THEN XF(c.b)
           ELSE IF c.w > 8000 THEN "any" ELSE "ExtensibleMarkupLanguage"
      [] c.k = "xml.flip" -> "ExtensibleMarkupLanguage"
      [] c.k = "xml.part" -> XF(c.a)
      [] c.k = "xml.rep" -> IF c.e = 1 THEN XF(c.a) ELSE "ExtensibleMarkupLanguage"
      [] c.k = "xml.text" -> "ExtensibleMarkupLanguage"
      [] c.k = "xml.wrap" -> XF(IF c.b = 0 THEN c.a ELSE Min2(c.a, c.b))
      [] OTHER -> "any"
=============================================================================
