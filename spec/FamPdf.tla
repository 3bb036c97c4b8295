-------------------------------- MODULE FamPdf --------------------------------
(* PDF documents with or without Illustrator data: C24. *)
EXTENDS Scope

PdfSig == <<37, 80, 68, 70, 45>>
\* Marker: 13 bytes.  Positions count from the end of the signature.
\* Kinds of cases:
\* pdf.pos    marker at position p
\* pdf.part   look-alike: the first n bytes of the marker, directly followed by it (p: at which position)
\* pdf.flip   marker with a changed byte, at a few positions
\* pdf.limit  marker around the limit
\* pdf.rep    many look-alikes before the marker
\* pdf.fill   fillers
\* pdf.end    the stream ends within the marker
\* pdf.word   words near the marker
Boundary == UNION {{b + d : d \in -16..4} : b \in {1024, 4096, 8192, 16384, 32768, 36865, 65536}}
\* Words near the marker that do not contain it.
\* pdf.tok    words of the syntax of documents before the marker (w: followed by which line end), p bytes in between; the same in front of everything
PdfToks == WordList(<<"%%EOF", "startxref", "trailer", "xref", "endobj", "endstream", "stream", "1 0 obj", "<</Linearized 1>>", "/Encrypt 5 0 R", "/Type /Catalog", "/Creator (Adobe Photoshop)",
                      "%PDF-1.7", "%!PS-Adobe-3.0", "/PieceInfo", "<</Private", "/AIMetaData 6 0 R", "/AIPDFPrivateData1 7 0 R", "/AI", "AI", "/LastModified", "<?xpacket end='w'?>", "</x:xmpmeta>",
                      "0000000000 65535 f", "/Producer (pdfTeX)", "%AI12_CompressedData", "/Metadata 2 0 R", "/FlateDecode", "1.4", "1.3", "1.7", "2.0", "1.5 %", "1.6">>)
PdfEnds == << <<>>, <<10>>, <<13, 10>>, <<13>>, <<10, 37, 226, 227, 207, 211, 10>>, <<0>> >>
PdfContains(b) == \E i \in 1..(Len(b) - Len(PdfMarker) + 1) : SubSeq(b, i, i + Len(PdfMarker) - 1) = PdfMarker
PdfNear == ListOf({b \in NearWords(PdfMarker) \union ToSet(WordList(<<"AIMetaData", "AIPrivateDat", "%%Creator: Adobe Illustrator", "/Illustrator", "%AI5_FileFormat", "AI Private Data", "AIPrivate", "PrivateData1">>)) : ~PdfContains(b)})
PdfCases(k) ==
    CASE k = "pdf.pos" -> [fam : {"pdf"}, k : {k}, p : (IF Thorough THEN 0..2100 ELSE 0..40) \union Boundary \union {100000, 1000003, 8388600, 16777211}, e : {0, 1}]
      [] k = "pdf.part" ->
           {c \in [fam : {"pdf"}, k : {k}, n : 1..12, p : {0, 7} \union UNION {{b - 20, b - 14, b - 13, b - 6, b - 1, b, b + 1} : b \in {8192, 16384, 32768, 65536}}, e : {1, 2, 3}] :
               Thorough \/ (c.n + c.p + c.e) % 2 = 0}
      [] k = "pdf.flip" ->
           [fam : {"pdf"}, k : {k}, n : 1..13, d : {1, 32, 128}, p : {0, 100, 8186}]
      [] k = "pdf.limit" -> [fam : {"pdf"}, k : {k}, p : 33554412..33554440, e : {0, 100}]
      [] k = "pdf.rep" -> [fam : {"pdf"}, k : {k}, n : 1..12, r : {2, 3, 700, 10000}, e : {0, 1}]
      [] k = "pdf.fill" -> [fam : {"pdf"}, k : {k}, n : {0, 1, 65, 73, 80, 97, 255}, p : {0, 5, 8190, 8192, 40000, 70000}, e : {0, 1}]
      [] k = "pdf.end" -> [fam : {"pdf"}, k : {k}, n : 0..13, p : {0, 1, 8180, 8192, 65530}]
      [] k = "pdf.word" -> [fam : {"pdf"}, k : {k}, n : DOMAIN PdfNear, p : {0, 300}]
      [] k = "pdf.tok" ->
           {c \in [fam : {"pdf"}, k : {k}, a : DOMAIN PdfToks, w : DOMAIN PdfEnds, i : {0, 40, 8100}, p : {0, 200, 8192, 20000, 70000}, e : 0..1] :
              Thorough \/ (c.p = 70000 /\ c.e = 1 /\ c.i # 40) \/ Sampled(c.a * 31 + c.w * 7 + c.i + c.p + c.e, 6)}
      [] k = "pdf.base" -> [fam : {"pdf"}, k : {k}, n : 0..6]
PdfFlip(b, i, d) == [b EXCEPT ![i] = IF (@ \div d) % 2 = 1 THEN @ - d ELSE @ + d]
PdfPieces(c) ==
    CASE c.k = "pdf.pos" -> <<P(PdfSig), R(<<32>>, c.p), P(PdfMarker), R(<<10>>, c.e * 9000)>>
      [] c.k = "pdf.part" ->
           <<P(PdfSig), R(<<46>>, c.p), R(SubSeq(PdfMarker, 1, c.n), c.e), P(PdfMarker), P(<<53, 10>>)>>
      [] c.k = "pdf.flip" -> <<P(PdfSig), R(<<46>>, c.p), P(PdfFlip(PdfMarker, c.n, c.d)), R(<<47>>, 300)>>
      [] c.k = "pdf.limit" -> <<P(PdfSig), R(<<46>>, c.p), P(PdfMarker), R(<<47>>, c.e)>>
      [] c.k = "pdf.rep" ->
           <<P(PdfSig), R(SubSeq(PdfMarker, 1, c.n), c.r), P(IF c.e = 1 THEN PdfMarker ELSE <<37, 69, 79, 70>>), P(<<10>>)>>
      [] c.k = "pdf.fill" -> <<P(PdfSig), R(<<c.n>>, c.p), P(IF c.e = 1 THEN PdfMarker ELSE <<>>), R(<<c.n>>, 500)>>
      [] c.k = "pdf.end" -> <<P(PdfSig), R(<<46>>, c.p), P(SubSeq(PdfMarker, 1, c.n))>>
      [] c.k = "pdf.word" -> <<P(PdfSig), P(<<49, 46, 55, 10>>)>> \o <<R(<<10>>, c.p), P(PdfNear[c.n]), R(<<32>>, 50)>>
      [] c.k = "pdf.tok" ->
           <<P(PdfSig), R(<<32>>, c.i), P((IF c.i = 0 THEN <<>> ELSE PdfEnds[c.w]) \o PdfToks[c.a] \o PdfEnds[c.w]), R(<<32, 10>>, c.p \div 2),
             P(IF c.e = 1 THEN PdfMarker ELSE S("/Type")), P(<<32>> \o PdfToks[c.a] \o PdfEnds[c.w])>>
      [] c.k = "pdf.base" ->
           (CASE c.n = 0 -> <<P(PdfSig), P(<<49, 46, 52, 10>>)>>
              [] c.n = 1 -> <<P(PdfSig), P(<<49, 46, 52, 10>>), P(PdfMarker), P(<<49>>)>>
              [] c.n = 2 -> <<P(PdfSig), Z(40000), P(PdfMarker), P(<<49>>)>>
              [] c.n = 3 -> <<P(PdfSig), R(<<65, 73, 80>>, 30000)>>
              [] c.n = 4 -> <<P(PdfSig), R(<<255>>, 8180), P(PdfMarker)>>
              [] c.n = 5 -> <<P(PdfSig), Z(300000)>>
              [] c.n = 6 -> <<P(PdfSig), R(<<10>>, 70000), P(<<200>>), P(PdfMarker)>>)
PdfEnc(c) == Stream(PdfPieces(c))
Ai(b) == IF b THEN "AdobeIllustratorArtwork" ELSE "PortableDocumentFormat"
PdfMeaning(c) ==
    CASE c.k \in {"pdf.pos", "pdf.part"} -> Ai(TRUE)
      [] c.k = "pdf.flip" -> Ai(FALSE)
      [] c.k = "pdf.limit" -> Ai(c.p + 13 <= 33554432)
      [] c.k \in {"pdf.rep", "pdf.fill", "pdf.tok"} -> Ai(c.e = 1)
      [] c.k = "pdf.end" -> Ai(c.n = 13)
      [] c.k = "pdf.word" -> "PortableDocumentFormat"
      [] OTHER -> "any"
=============================================================================
