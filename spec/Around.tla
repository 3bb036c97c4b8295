-------------------------------- MODULE Around --------------------------------
(* The neighbourhood alphabet: what stands in place of a part of a stream, or between two parts.
   The harness puts every word at every position of the specification's streams; the results that
   differ from the stream's own, and a sample of the others, are judged by module Trace. *)
EXTENDS FamHostile, Json
CONSTANT Families
VARIABLES w, ph

\* Numbers of n bytes: one byte v at place i, the others x.
OneByte(n, i, v, x) == [j \in 1..n |-> IF j = i THEN v ELSE x]
Powers == {1, 2, 4, 8, 16, 32, 64, 128, 127, 255}
Numbers(n) ==
    {OneByte(n, i, v, 0) : i \in 1..n, v \in Powers} \union {OneByte(n, i, v, 255) : i \in {1, n}, v \in {0, 127, 128, 247, 248, 252, 253, 254}}
    \union {OneByte(n, i, v, 0) : i \in {1, n}, v \in 0..40} \union {Rep(255, n), Rep(128, n), Rep(32, n), Rep(48, n)}
Shorts == {<<v, 0>> : v \in 0..255} \union {<<0, v>> : v \in 0..255} \union {<<v, v>> : v \in 0..255} \union {<<255, v>> : v \in 240..255}
          \union {<<v, 255>> : v \in {0, 1, 127, 128} \union 240..255}
Marks == ToSet(WordList(<<"PK", "ID3", "MZ", "%PDF", "<?xml", "ftyp", ".RMF", "OggS", "RIFF", "%%EOF", "<!--", "-->">>)) \union {<<10>>, <<13, 10>>, <<239, 187, 191>>, <<254, 255, 0, 98>>}

\* Words of each family: those that decide, those that do not, and syntax.
Tokens(f) ==
    CASE f = "zip" -> ToSet(ZipNameBytes) \union ToSet(MimeTypeBytes) \union {ZipManifest, ZipMimetype, EocdSig, <<80, 75, 1, 2>>, <<80, 75, 3, 4>>, <<80, 75, 6, 6>>, <<80, 75, 6, 7>>,
                        <<80, 75, 7, 8>>, <<80, 75, 0, 0>>, <<80, 75, 6, 8>>, <<80, 75, 5, 5>>} \union ToSet(WordList(<<"/", "../", "./", ".xml", ".class", "__MACOSX/", "_rels/.rels",
                        "META-INF/", "word/", "xl/", "ppt/", "application/", "[Content_Types].xml", "lib/", "com/">>))
      [] f = "ebm" -> ToSet(EbIds) \union EbmlMasters \union {EbmlDocType, EbmlCodecId, EbmlStereo, EbmlCluster, S("webm"), S("matroska"), S("A_"), S("V_"), S("S_")} \union ToSet(EbCodecWords)
                      \union {VUnknown(l) : l \in 1..8} \union {Vint(l, n) : l \in 1..8, n \in {0, 1, 2, 4, 8, 20, 100, 126}}
      [] f = "mp4" -> ToSet(MpBoxes) \union ToSet(MpHandlerWords) \union MpDecisive \union ToSet(WordList(<<"moov", "trak", "mdia", "hdlr", "mdat", "free", "qt  ", "isom", "mp42", "M4A ", "M4V ",
                      "avif", "heic", "crx ", "3gp4", "3g2a", "M4B ", "M4P ", "dash">>))
      [] f = "asf" -> ToSet(AsIds) \union ToSet(AsTypes) \union {AsfExtended, AsfStream, AsfAudio, AsfVideo, AsfDvrName, AsfHeadGuid} \union ToSet(AsfOthers) \union ToSet(AsfOtherTypes)
                      \union {W(x) : x \in {"WM/", "DVR", "Title", "IsVBR", "Author", "DVR File"}}
      [] f = "rms" -> ToSet(RmTypeWords) \union ToSet(RmMimeWords) \union {S("MDPR"), S("audio/"), S("video/"), S("audio"), S("video"), S("logical-fileinfo")}
      [] f = "cfb" -> ToSet(CfIds) \union ToSet(CfNames) \union {WorksWordName, WorksSheetName, RootName} \union {ClassIdBytes[i] : i \in DOMAIN ClassIds}
      [] f = "exe" -> ExWords \union ExDecisive \union {S("PE"), <<80, 69, 0, 0>>, <<11, 1>>, <<11, 2>>, <<7, 1>>, <<76, 1>>, <<100, 134>>, <<100, 170>>, S("This program"), S(".text"), S("UPX0"),
                      S("Rich"), S("WATCOM"), S("PMODE"), S("DOS/4G"), S("tiny"), <<64, 0>>, <<28, 0>>, <<30, 0>>}
      [] f = "id3" -> IdWords \union {Payloads[i][1] : i \in DOMAIN Payloads} \union ToSet(WordList(<<"ID3", "3DI", "TIT2", "TPE1", "APIC", "TXXX", "SEEK", "COMM", "PRIV", "TAG", "APETAGEX", "fLaC">>))
                      \union {<<255, 251>>, <<255, 243>>, <<255, 241>>, <<255, 240>>, <<255, 253>>, <<255, 224>>, <<11, 119>>}
      [] f = "pdf" -> {PdfMarker} \union ToSet(WordList(<<"%%EOF", "xref", "startxref", "trailer", "stream", "endstream", "obj", "1 0 obj",
                      "endobj", "<<", ">>", "/Encrypt", "/Linearized 1", "/Type", "/Catalog", "/Length", "(", ")", "%", "BT", "ET", "/Illustrator", "/Creator", "/Pages", "/Private", "/FlateDecode",
                      "Adobe", "AIPrivateDat", "/AIPrivateData", "AIMetaData", "/NumBlock", "/ObjStm", "%%Title", "%%BoundingBox", "[", "]", "{", "}", "'", "null", "/XRef">>))
                      \union {S("%%EOF") \o e : e \in {<<10>>, <<13>>, <<13, 10>>, <<0>>}} \union {<<10>> \o S("xref") \o <<10>>, <<10>> \o S("endstream") \o <<10>>, <<10>> \o S("endobj") \o <<10>>, <<92>>}
      [] f = "xml" -> {XMark[i][j] : i \in DOMAIN XMark, j \in {1}} \union {XMark[i][2] : i \in XTwo} \union ToSet(WordList(<<"<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE x>", "<!DOCTYPE", "<!ENTITY",
                      "[", "]>", "]", "<", ">", "/>", "</", "&lt;", "&", "'", "=", "encoding='UTF-16'", "standalone='yes'", "xmlns=", "xmlns:", ":", ":x", "<x>", "<html>", "<a ", "</a>", "<?xml-stylesheet", "version='1.1'",
                      "UTF-16", "<!", "<!-", "--", "#", ";", "<root>", "<ns:", "/svg", "//">>)) \union {<<34>>, <<13, 10>>, XBom, <<60, 33, 45, 45, 32, 45, 45, 62>>}
      [] f = "sql" -> {SqliteMarker} \union ToSet(WordList(<<"SQLite format 3", "CREATE TABLE", "sqlite_master", "com.bohemiancoding", "sketch", "sketch3", "metadata", "payload", "table", "index", "UTF-16", ".", "com.",
                      "com.figma", "org.sqlite", "sqlite_sequence", "INSERT", "'", "--">>)) \union {<<13, 0, 0>>, <<5, 0, 0>>, <<2, 0, 0>>, <<10, 0, 0>>}
      [] f = "txt" -> {Spoilers[i] : i \in DOMAIN Spoilers} \union {Ends[i].b : i \in DOMAIN Ends} \union {Heads[i] : i \in DOMAIN Heads} \union ToSet(WordList(<<"#!", "<", "{", "--", "//", "%", "=====", "From ">>))
      [] f = "sig" -> {}
\* Words that may stand between two bytes of a stream.
Between(f) ==
    {w1 \in Tokens(f) : Len(w1) <= (IF f \in {"xml", "pdf", "sql", "txt"} THEN 100 ELSE 0)} \union {<<0>>, <<32>>, <<10>>, <<255>>, <<13, 10>>, Rep(0, 4), Rep(0, 16)}
\* What may be wrapped around a part.
Wraps(f) ==
    LET of(ws) == {[c |-> "wrap", b |-> x[1], e |-> x[2]] : x \in ws}
    IN  CASE f = "xml" -> of({<<S("<!--"), S("-->")>>, <<S("<![CDATA["), S("]]>")>>, <<S("<?x "), S("?>")>>, <<S("<!DOCTYPE x ["), S("]>")>>, <<<<34>>, <<34>>>>, <<S("'"), S("'")>>, <<S("<a b='"), S("'>")>>,
                              <<S("<x>"), S("</x>")>>, <<S("<!ENTITY x "), S(">")>>, <<S("&lt;"), S("&gt;")>>, <<S("<a "), S("/>")>>, <<S("</"), S(">")>>})
          [] f = "pdf" -> of({<<S("("), S(")")>>, <<S("<"), S(">")>>, <<S("stream"), S("endstream")>>, <<S("<<"), S(">>")>>, <<S("1 0 obj"), S("endobj")>>, <<S("%"), <<10>>>>, <<S("["), S("]")>>,
                              <<S("%%EOF"), S("startxref")>>})
          [] f = "sql" -> of({<<S("'"), S("'")>>, <<<<34>>, <<34>>>>, <<S("CREATE TABLE "), S(";")>>, <<S("--"), <<10>>>>, <<S("/*"), S("*/")>>})
          [] f = "txt" -> of({<<S("<!--"), S("-->")>>, <<<<34>>, <<34>>>>, <<S("/*"), S("*/")>>, <<<<27, 91, 49, 109>>, <<27, 91, 48, 109>>>>, <<<<14>>, <<15>>>>, <<<<226, 129, 166>>, <<226, 129, 169>>>>})
          [] OTHER -> of({})
WordsOf(f) ==
    LET of(c, ws) == {[c |-> c, b |-> b, e |-> <<>>] : b \in ws}
    IN  Wraps(f) \union IF f = "txt" THEN of("token", Tokens(f)) \union of("put", Between(f)) \union of("two", Shorts)
        ELSE of("two", Shorts) \union of("four", Numbers(4)) \union of("eight", Numbers(8)) \union of("token", Tokens(f)) \union of("mark", Marks) \union of("put", Between(f))

AInit == \E f \in Families : w \in [f : {f}, o : WordsOf(f)] /\ ph = "new"
APrint == /\ ph = "new"
          /\ PrintT(ToJson([f |-> w.f, c |-> w.o.c, b |-> w.o.b, e |-> w.o.e]))
          /\ ph' = "done" /\ UNCHANGED w
\* Words are words of bytes.
AAlphabet == Len(w.o.b) \in 1..120 /\ \A i \in DOMAIN w.o.b : w.o.b[i] \in 0..255
=============================================================================
