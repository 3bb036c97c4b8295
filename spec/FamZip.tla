-------------------------------- MODULE FamZip --------------------------------
(* ZIP archives: C14 (names), C15 (mimetype files), C16 (location of the directory). *)
EXTENDS Scope

\* An entry: name, extra and comment lengths, sizes, data, extra length of the local header.
ZE(nm) == [nm |-> nm, x |-> 0, c |-> 0, cs |-> 5, us |-> 9, d |-> <<1, 2, 3, 4, 5>>, lx |-> 0]
LocalPieces(e) ==
    << P(<<80, 75, 3, 4, 20, 0, 0, 0, 8, 0, 33, 8, 65, 80, 9, 9, 9, 9>> \o LE32(e.cs) \o LE32(e.us)
         \o LE16(Len(e.nm)) \o LE16(e.lx)), P(e.nm), R(<<238>>, e.lx), P(e.d) >>
LocalLen(e) == 30 + Len(e.nm) + e.lx + Len(e.d)
CentralPieces(e, off) ==
    << P(<<80, 75, 1, 2, 20, 0, 20, 0, 0, 0, 8, 0, 33, 8, 65, 80, 9, 9, 9, 9>> \o LE32(e.cs) \o LE32(e.us)
         \o LE16(Len(e.nm)) \o LE16(e.x) \o LE16(e.c) \o <<0, 0, 1, 0, 0, 0, 164, 129>> \o LE32(off)),
       P(e.nm), R(<<46>>, e.x), R(<<99>>, e.c) >>
CentralLen(e) == 46 + Len(e.nm) + e.x + e.c
Locals(es) == FlattenSeq([i \in DOMAIN es |-> LocalPieces(es[i])])
SumUpTo(es, F(_), n) == FoldLeft(LAMBDA a, e : a + F(e), 0, SubSeq(es, 1, n))
Central(es, base) == FlattenSeq([i \in DOMAIN es |-> CentralPieces(es[i], base + SumUpTo(es, LocalLen, i - 1))])
Eocd(cnt, size, off, cl) ==
    P(<<80, 75, 5, 6, 0, 0, 0, 0>> \o LE16(cnt) \o LE16(cnt) \o LE32(size) \o LE32(off) \o LE16(cl))
EocdFF(cl) == P(<<80, 75, 5, 6, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>> \o LE16(cl))
Record64(cnt8, off, ext) ==
    P(<<80, 75, 6, 6>> \o LE64(44 + ext) \o <<45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0>> \o cnt8 \o cnt8
      \o LE64(100) \o LE64(off))
Locator64(off) == P(<<80, 75, 6, 7, 0, 0, 0, 0>> \o LE64(off) \o <<1, 0, 0, 0>>)
\* An archive: entries, declared count, data between the entries' data and the directory, data between
\* the directory and the end record, what follows the end record, declared comment length.
Archive(es, cnt, gap, mid, after, cl) ==
    LET ll == SumUpTo(es, LocalLen, Len(es))
        cdlen == SumUpTo(es, CentralLen, Len(es))
        glen == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, gap)
    IN  Stream(Locals(es) \o gap \o Central(es, 0) \o mid \o <<Eocd(cnt, cdlen, ll + glen, cl)>> \o after)
Simple(es) == Archive(es, Len(es), <<>>, <<>>, <<>>, 0)

(***************************************************************************)
(* Names                                                                   *)
(***************************************************************************)
\* Names with the format they decide; "" for names that are not decisive, "JAR" for the manifest.
ZNameTab == <<
  <<"AndroidManifest.xml", "AndroidPackage">>, <<"AppManifest.xaml", "Xap">>,
  <<"AppxManifest.xml", "WindowsAppPackage">>,
  <<"AppxMetadata/AppxBundleManifest.xml", "WindowsAppBundle">>,
  <<"BundleConfig.pb", "AndroidAppBundle">>, <<"DOMDocument.xml", "FlashCs5Project">>,
  <<"META-INF/AIR/application.xml", "AdobeIntegratedRuntime">>,
  <<"META-INF/application.xml", "EnterpriseApplicationArchive">>,
  <<"META-INF/mozilla.rsa", "Xpinstall">>, <<"WEB-INF/web.xml", "WebApplicationArchive">>,
  <<"canvas.fig", "FigmaDesign">>, <<"doc.kml", "KeyholeMarkupLanguageZip">>,
  <<"document.json", "Sketch43">>, <<"extension.vsixmanifest", "MicrosoftVisualStudioExtension">>,
  <<"META-INF/MANIFEST.MF", "JAR">>,
  <<"Fusion[Active]/", "Autodesk123d">>, <<"Fusion[Active]/Design1/MetaStream.dat", "Autodesk123d">>,
  <<"circuitdiagram/", "CircuitDiagramDocument">>, <<"circuitdiagram/Document.xml", "CircuitDiagramDocument">>,
  <<"dwf/", "DesignWebFormatXps">>, <<"dwf/documents/x.dwfseq", "DesignWebFormatXps">>,
  <<"book.fb2", "FictionbookZip">>, <<".fb2", "FictionbookZip">>, <<"a.usd.fb2", "FictionbookZip">>,
  <<"FusionAssetName[Active]/", "Fusion360">>, <<"FusionAssetName[Active]/Breps.Blob/x.smt", "Fusion360">>,
  <<"Payload/App.app/Info.plist", "IosAppStorePackage">>, <<"Payload/.app/", "IosAppStorePackage">>,
  <<"Payload/a/b.app/c", "IosAppStorePackage">>,
  <<"word/document.xml", "OfficeOpenXmlDocument">>, <<"word/", "OfficeOpenXmlDocument">>,
  <<"visio/document.xml", "OfficeOpenXmlDrawing">>, <<"visio/", "OfficeOpenXmlDrawing">>,
  <<"ppt/presentation.xml", "OfficeOpenXmlPresentation">>, <<"ppt/", "OfficeOpenXmlPresentation">>,
  <<"xl/workbook.xml", "OfficeOpenXmlSpreadsheet">>, <<"xl/", "OfficeOpenXmlSpreadsheet">>,
  <<"xl/x.fb2", "OfficeOpenXmlSpreadsheet">>, <<"word/x.usdc", "OfficeOpenXmlDocument">>,
  <<"Documents/1/Pages/1.fpage", "Openxps">>, <<"Documents/.fpage", "Openxps">>,
  <<"SpaceClaim/document.xml", "SpaceclaimDocument">>, <<"SpaceClaim/", "SpaceclaimDocument">>,
  <<"3D/3dmodel.model", "ThreeDimensionalManufacturingFormat">>, <<"3D/.model", "ThreeDimensionalManufacturingFormat">>,
  <<"3D/a/b.model", "ThreeDimensionalManufacturingFormat">>,
  <<"scene.usd", "UniversalSceneDescriptionZip">>, <<"scene.usda", "UniversalSceneDescriptionZip">>,
  <<"scene.usdc", "UniversalSceneDescriptionZip">>, <<".usd", "UniversalSceneDescriptionZip">>,
  <<"a.fb2.usd", "UniversalSceneDescriptionZip">>,
  \* near misses
  <<"", "">>, <<"x", "">>, <<"readme.txt", "">>, <<"androidmanifest.xml", "">>, <<"AndroidManifest.xml ", "">>,
  <<"AndroidManifest.xm", "">>, <<"xAndroidManifest.xml", "">>, <<"res/AndroidManifest.xml", "">>,
  <<"AppManifest.xml", "">>, <<"AppxManifest.xaml", "">>, <<"AppxManifest.xml/", "">>,
  <<"AppxBundleManifest.xml", "">>, <<"AppxMetadata/AppxManifest.xml", "">>, <<"BundleConfig.pbx", "">>,
  <<"bundleconfig.pb", "">>, <<"DomDocument.xml", "">>, <<"META-INF/AIR/", "">>, <<"META-INF/AIR/application.xm", "">>,
  <<"META-INF/application.xml.bak", "">>, <<"META-INF/Application.xml", "">>, <<"meta-inf/MANIFEST.MF", "">>,
  <<"META-INF/MANIFEST.MF/", "">>, <<"META-INF/MANIFEST.M", "">>, <<"META-INF/", "">>, <<"META-INF/mozilla.rs", "">>,
  <<"META-INF/mozilla.RSA", "">>, <<"x/META-INF/mozilla.rsa", "">>, <<"WEB-INF/web.xmlx", "">>, <<"WEB-INF/", "">>,
  <<"WEB-INF/Web.xml", "">>, <<"canvas.figs", "">>, <<"x/canvas.fig", "">>, <<"doc.kmz", "">>, <<"docs/doc.kml", "">>,
  <<"document.jso", "">>, <<"Document.json", "">>, <<"extension.vsixmanifest2", "">>, <<"Extension.vsixmanifest", "">>,
  <<"Fusion[Active]", "">>, <<"fusion[active]/x", "">>, <<"x/Fusion[Active]/x", "">>, <<"FusionAssetName[Active]", "">>,
  <<"FusionAssetName/x", "">>, <<"circuitdiagram", "">>, <<"circuitdiagrams/x", "">>, <<"dwf", "">>, <<"dwfx/x", "">>,
  <<"x/dwf/y", "">>, <<"book.fb2.bak", "">>, <<"books/book.fb2", "">>, <<"book.FB2", "">>, <<"fb2", "">>, <<"/.fb2", "">>,
  <<"Payload/", "">>, <<"Payload/App.app", "">>, <<"payload/App.app/x", "">>, <<"x/Payload/App.app/x", "">>,
  <<"Payload/App.apps/x", "">>, <<"App.app/Payload/", "">>, <<"word", "">>, <<"Word/document.xml", "">>, <<"words/x", "">>,
  <<"sword/x", "">>, <<"x/word/document.xml", "">>, <<"visio", "">>, <<"Visio/x", "">>, <<"ppt", "">>, <<"PPT/x", "">>,
  <<"pptx/x", "">>, <<"xl", "">>, <<"XL/x", "">>, <<"xls/x", "">>, <<"axl/x", "">>, <<"Documents/", "">>,
  <<"Documents/1.page", "">>, <<"documents/1.fpage", "">>, <<"x/Documents/1.fpage", "">>, <<"Documents/1.fpage/", "">>,
  <<"1.fpage", "">>, <<"SpaceClaim", "">>, <<"Spaceclaim/x", "">>, <<"SpaceClaims/x", "">>, <<"3D/", "">>, <<"3D/x.models", "">>,
  <<"3d/x.model", "">>, <<"x/3D/x.model", "">>, <<"3D/x.Model", "">>, <<"x.model", "">>, <<"scene.usdz", "">>, <<"scene.usdx", "">>,
  <<"dir/scene.usd", "">>, <<"dir/scene.usda", "">>, <<"dir/scene.usdc", "">>, <<"scene.USD", "">>, <<"usd", "">>,
  <<"[Content_Types].xml", "">>, <<"_rels/.rels", "">>, <<"mimetypes", "">>, <<"Mimetype", "">>, <<"x/mimetype", "">> >>
ZNames == FoldLeft(LAMBDA acc, r : Append(acc, [b |-> S(r[1]), f |-> r[2]]), <<>>, ZNameTab)
NNames == Len(ZNameTab)
Neutral == SelectSeq([i \in 1..Len(ZNameTab) |-> i], LAMBDA i : ZNameTab[i][2] = "")
Manifest == 15
Word == 30
\* Names mixed in triples: each rule once, the manifest, and some neutral ones.
Mixed == {1, 2, 4, 8, 10, 12, 15, 16, 19, 21, 22, 25, 27, 30, 32, 34, 36, 40, 42, 44, 47, 49} \union {53, 54, 71, 79, 110}

\* The format of an archive with the given names, in this order.
RECURSIVE NamesMean(_, _)
NamesMean(fs, fmt) ==
    IF fs = <<>> THEN fmt
    ELSE IF fs[1] = "" THEN NamesMean(Tail(fs), fmt)
    ELSE IF fs[1] = "JAR" THEN NamesMean(Tail(fs), "JavaArchive") ELSE fs[1]
FormatsOf(ix) == [i \in DOMAIN ix |-> ZNameTab[ix[i]][2]]
EntriesOf(ix) == [i \in DOMAIN ix |-> ZE(ZNames[ix[i]].b)]

\* Names near a decisive one: something before (1..), behind (101..) it, changed as a whole (201..), or with one
\* byte raised (1000 + i), left out (2000 + i), of the other case (3000 + i), or doubled (4000 + i).
NearPre == << S("./"), S("/"), S("../"), <<32>>, <<9>>, S("a/"), <<92>>, <<239, 187, 191>>, S("C:"), S("//"), S("."), S("_"), S("~"),
              S("__MACOSX/"), S("word"), S("META-INF/"), <<10>>, S("a"), S("./a/"), S("%2F") >>
NearSuf == << <<32>>, S("/"), <<0>>, <<10>>, S(";1"), S(":x"), S("~"), S("?"), S("."), S(".bak"), S("/x"), S(".xml"), <<0, 120>>, S("2"),
              <<195, 169>>, <<255>>, S(".fb2"), S(".usd"), S("//") >>
Upper(x) == IF x >= 97 /\ x <= 122 THEN x - 32 ELSE x
Lower(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
Each(b, F(_)) == [i \in DOMAIN b |-> F(b[i])]
NearBytes(b, v) ==
    CASE v <= 100 -> NearPre[v] \o b
      [] v > 100 /\ v <= 200 -> b \o NearSuf[v - 100]
      [] v = 201 -> Each(b, Upper)
      [] v = 202 -> Each(b, Lower)
      [] v = 203 -> Each(b, LAMBDA x : IF x = 47 THEN 92 ELSE x)
      [] v = 204 -> FlattenSeq([i \in DOMAIN b |-> IF b[i] = 47 THEN <<47, 47>> ELSE <<b[i]>>])
      [] v = 205 -> SelectSeq(b, LAMBDA x : x # 47)
      [] v = 206 -> b \o b
      [] v = 207 -> b \o <<47>> \o b
      [] v = 208 -> Reverse(b)
      [] v = 209 -> b \o [i \in 1..300 |-> 32]
      [] v = 210 -> b \o [i \in 1..300 |-> 0]
      [] v = 211 -> [i \in 1..9000 |-> 97] \o b
      [] v = 212 -> <<34>> \o b \o <<34>>
      [] v > 1000 /\ v <= 2000 -> [b EXCEPT ![v - 1000] = @ + 1]
      [] v > 2000 /\ v <= 3000 -> SubSeq(b, 1, v - 2001) \o SubSeq(b, v - 1999, Len(b))
      [] v > 3000 /\ v <= 4000 -> [b EXCEPT ![v - 3000] = IF Upper(@) # @ THEN Upper(@) ELSE IF Lower(@) # @ THEN Lower(@) ELSE @]
      [] v > 4000 -> SubSeq(b, 1, v - 4000) \o SubSeq(b, v - 4000, Len(b))
Nears(b) == DOMAIN NearPre \union {100 + i : i \in DOMAIN NearSuf} \union 201..212
            \union UNION {{t + i : i \in DOMAIN b} : t \in {1000, 2000, 3000, 4000}}
NDecisive == 50
\* What follows a name: something else that is decisive.
Other(a) == IF ZNameTab[a][2] = "OfficeOpenXmlDocument" THEN 16 ELSE Word

(***************************************************************************)
(* Mimetype files                                                          *)
(***************************************************************************)
Ws == << <<>>, <<32>>, <<10>>, <<13, 10>>, <<9>>, <<11>>, <<12>>, <<194, 133>>, <<194, 160>>, <<225, 154, 128>>,
         <<226, 128, 131>>, <<226, 128, 168>>, <<226, 129, 159>>, <<227, 128, 128>>, <<32, 32, 9, 10, 13, 10, 32>> >>
NotWs == << <<0>>, <<226, 128, 139>>, <<239, 187, 191>>, <<255>>, <<194>>, <<95>>, <<28>>, <<127>> >>
MLast(b) == SubSeq(b, 1, Len(b) - 1)
Variant(b, v) ==
    CASE v = 0 -> b
      [] v = 1 -> MLast(b)
      [] v = 2 -> Tail(b)
      [] v = 3 -> Append(b, 120)
      [] v = 4 -> <<120>> \o b
      [] v = 5 -> [b EXCEPT ![1] = @ - 32]
      [] v = 6 -> [b EXCEPT ![Len(b) - 3] = @ + 1]
      [] v = 7 -> SubSeq(b, 1, 6) \o <<32>> \o SubSeq(b, 7, Len(b))
      [] v = 8 -> b \o <<32>> \o b
      [] v = 9 -> b \o <<45, 116, 101, 109, 112, 108, 97, 116, 101, 115>>
MimeEntry(content) == [ZE(ZipMimetype) EXCEPT !.cs = Len(content), !.us = Len(content), !.d = content]

\* Entries for sequences, and what they decide.
Stored(n) == [ZE(ZipMimetype) EXCEPT !.cs = n, !.us = n, !.d = <<>>]
SeqItems == <<
  [e |-> ZE(ZNames[Neutral[3]].b), f |-> ""],
  [e |-> ZE(ZNames[Word].b), f |-> "OfficeOpenXmlDocument"],
  [e |-> ZE(ZNames[1].b), f |-> ZNameTab[1][2]],
  [e |-> ZE(ZNames[Manifest].b), f |-> "JAR"],
  [e |-> MimeEntry(MimeTypeBytes[1]), f |-> MimeTypes[1][2]],
  [e |-> MimeEntry(MimeTypeBytes[13]), f |-> MimeTypes[13][2]],
  [e |-> MimeEntry(<<97, 47, 98>>), f |-> "Zip"],
  [e |-> [MimeEntry(MimeTypeBytes[28]) EXCEPT !.us = @ + 7], f |-> ""],
  [e |-> MimeEntry(<<>>), f |-> "Zip"],
  [e |-> Stored(70000), f |-> "Zip"],
  [e |-> [Stored(9) EXCEPT !.us = 70000, !.d = <<1, 2, 3, 4, 5, 6, 7, 8, 9>>], f |-> ""],
  [e |-> ZE(ZNames[Neutral[6]].b), f |-> ""] >>

(***************************************************************************)
(* Cases                                                                   *)
(***************************************************************************)
\* zip.name    one name a in a setting p
\* zip.pair    two names
\* zip.tri     three names
\* zip.seq     sequences of entries: names and mimetype files of all sorts
\* zip.raw     names with bytes outside ASCII
\* zip.near    names near a decisive one
\* zip.attr    fields of the entries that must not matter: field f of the entry at position p has value v everywhere
\* zip.len     lengths of name, extra field and comment of the first entry; second entry b
\* zip.count   entries, of which the declared number counts; decisive one at position j
\* zip.many    many entries before the decisive one
\* zip.rest    archives of n + 1 entries, of which the decisive one is preceded by j (z: with ZIP64 records)
\* zip.mime    content of the mimetype file: type a, variant v, white space before and after
\* zip.notws   content with something before or after that is no white space
\* zip.mnear   content near a media type
\* zip.mloc    fields of the local header of the mimetype file that must not matter
\* zip.end     fields of the end records that must not matter
\* zip.mpos    position of the entry and layout of the local header of the mimetype file
\* zip.mcomp   compressed mimetype file, then other entries
\* zip.msize   mimetype file padded to a size
\* zip.comm    archive comment: length n, content p
\* zip.look    look-alikes of the end record's signature before and behind it
\* zip.far     distance of the end record from the end: n declared, e more bytes
\* zip.nest    an earlier end record before the last one
\* zip.pre     data before the directory
\* zip.start   end record at a small offset
\* zip.z64     ZIP64 records
\* zip.noz64   things that look like a ZIP64 locator
LookBytes == {80, 75, 5, 6}
NoSig(b) == ~HasBytes(b, EocdSig)
Strings(A, lo, hi) == UNION {[1..n -> A] : n \in lo..hi}
Count8(v) == CASE v = 0 -> LE64(3) [] v = 1 -> <<3, 0, 0, 0, 1, 0, 0, 0>> [] v = 2 -> <<0, 0, 0, 0, 0, 0, 0, 1>>
               [] v = 3 -> <<255, 255, 255, 255, 255, 255, 255, 255>> [] v = 4 -> LE64(65536) [] v = 5 -> LE64(2)
               [] v = 6 -> <<1, 0, 1, 0, 0, 0, 0, 0>>
\* Fields of a directory entry (first byte, number of bytes) that do not matter: versions, flags, method, time,
\* date, checksum, disk number, internal and external attributes; for entries without content of interest also
\* the sizes and the offset.
AttrFields == << <<5, 1>>, <<6, 1>>, <<7, 2>>, <<9, 1>>, <<10, 1>>, <<11, 2>>, <<13, 2>>, <<15, 2>>, <<17, 4>>, <<35, 2>>, <<37, 2>>, <<39, 2>>,
                 <<41, 1>>, <<42, 1>>, <<21, 4>>, <<25, 4>>, <<43, 4>> >>
\* Likewise of a local header, an end record, and the ZIP64 records.
LocFields == << <<5, 1>>, <<6, 1>>, <<7, 1>>, <<8, 1>>, <<9, 2>>, <<11, 4>>, <<15, 4>>, <<19, 4>>, <<23, 4>> >>
EndFields == << <<5, 2>>, <<7, 2>>, <<9, 2>>, <<13, 4>>, <<5, 8>>, <<13, 2>>, <<15, 2>>, <<17, 4>>, <<21, 4>>, <<25, 8>>, <<41, 8>> >>
Endings == {5, 6, 7, 8, 9, 10, 11} \* fields of the ZIP64 record only
SetField(b, fld, v) == [i \in DOMAIN b |-> IF i >= fld[1] /\ i < fld[1] + fld[2] THEN v ELSE b[i]]
WithAttr(ps, f, v) ==
    <<P([i \in DOMAIN ps[1].b |-> IF i >= AttrFields[f][1] /\ i < AttrFields[f][1] + AttrFields[f][2] THEN v ELSE ps[1].b[i]])>>
    \o Tail(ps)
ZipCases(k) ==
    CASE k = "zip.name" -> [fam : {"zip"}, k : {k}, a : 1..NNames, p : 0..4]
      [] k = "zip.pair" ->
           {c \in [fam : {"zip"}, k : {k}, a : 1..NNames, b : 1..NNames] :
               Thorough \/ (c.a \in Mixed /\ c.b \in Mixed) \/ Sampled(c.a * 256 + c.b, 12)}
      [] k = "zip.tri" ->
           {c \in [fam : {"zip"}, k : {k}, a : Mixed, b : Mixed, d : Mixed] :
               Thorough \/ Sampled(c.a * 65536 + c.b * 256 + c.d, 16)}
      [] k = "zip.seq" ->
           {c \in [fam : {"zip"}, k : {k}, q : UNION {[1..n -> DOMAIN SeqItems] : n \in 2..4}] :
               \/ Len(c.q) = 2
               \/ Sampled(FoldLeft(LAMBDA a, x : (a * 13 + x) % 65521, 7, c.q),
                          IF Thorough THEN (IF Len(c.q) = 3 THEN 1 ELSE 4) ELSE (IF Len(c.q) = 3 THEN 2 ELSE 40))}
      [] k = "zip.raw" -> [fam : {"zip"}, k : {k}, a : 1..NNames, b : 1..6]
      [] k = "zip.near" ->
           UNION {{c \in [fam : {"zip"}, k : {k}, a : {a}, v : Nears(ZNames[a].b), p : 0..1] :
                     Thorough \/ (c.p = 0 /\ (c.v <= 300 \/ Sampled(c.a * 8192 + c.v, 3)))} : a \in 1..NDecisive}
      [] k = "zip.attr" -> [fam : {"zip"}, k : {k}, a : {1, Manifest, Word, Neutral[3], 0}, f : DOMAIN AttrFields, v : {0, 1, 8, 16, 128, 255}, p : 0..1]
      [] k = "zip.len" ->
           {c \in [fam : {"zip"}, k : {k}, n : {0, 1, 255, 256, 5000, 65535}, x : {0, 1, 255, 256, 65535},
                   l : {0, 1, 255, 256, 32768, 65535}, b : {Word, Manifest}] :
               Thorough \/ (c.b = Word /\ Cardinality({v \in {c.n, c.x, c.l} : v > 1}) <= 2)}
      [] k = "zip.count" ->
           {c \in [fam : {"zip"}, k : {k}, r : 0..5, d : 0..6, j : 0..5] :
               c.j <= c.r /\ (c.d <= c.r \/ (c.j > 0 /\ c.j <= c.d))}
      [] k = "zip.many" ->
           [fam : {"zip"}, k : {k}, n : {100, 255, 256, 511, 512, 1021, 1022, 1023, 1024, 1025, 2000}, b : {Word, Manifest}]
             \union (IF Thorough THEN [fam : {"zip"}, k : {k}, n : {65534}, b : {Word}] ELSE {})
      [] k = "zip.rest" -> [fam : {"zip"}, k : {k}, j : {0, 1, 2, 300, 1022, 1023, 1024}, z : 0..1, b : {Word, Manifest, 0},
                             n : {1021, 1022, 1023, 1024, 32766, 32767, 65533, 65534, 65535, 65536, 70000}]
      [] k = "zip.mime" ->
           {c \in [fam : {"zip"}, k : {k}, a : 1..28, v : 0..9, w : DOMAIN Ws, u : DOMAIN Ws] :
               \/ Thorough
               \/ c.w = 1 /\ c.u = 1
               \/ c.v = 0 /\ (c.w = 1 \/ c.u = 1 \/ c.w = c.u) /\ (c.a + c.w + c.u) % 3 = 0
               \/ Sampled(c.a * 65536 + c.v * 256 + c.w * 16 + c.u, 60)}
      [] k = "zip.notws" -> [fam : {"zip"}, k : {k}, a : {1, 6, 28}, w : DOMAIN NotWs, p : 0..2]
      [] k = "zip.mnear" ->
           UNION {{c \in [fam : {"zip"}, k : {k}, a : {a}, v : Nears(MimeTypeBytes[a])] :
                     Thorough \/ c.v <= 300 \/ Sampled(c.a * 8192 + c.v, 3)} : a \in 1..28}
      [] k = "zip.mloc" -> [fam : {"zip"}, k : {k}, a : {1, 13, 28}, f : DOMAIN LocFields, v : {0, 1, 8, 16, 128, 255}]
      [] k = "zip.end" -> [fam : {"zip"}, k : {k}, f : DOMAIN EndFields, v : {0, 1, 2, 128, 255}, z : 0..1, b : {Word, Manifest}]
      [] k = "zip.mpos" ->
           {c \in [fam : {"zip"}, k : {k}, a : {1, 13, 28}, p : 0..5, l : {0, 1, 4, 255, 256, 8000, 65535}, n : {0, 8, 9, 300, 65535}] :
               Thorough \/ c.a = 13}
      [] k = "zip.mcomp" -> [fam : {"zip"}, k : {k}, a : {1, 13, 28}, p : 0..4, b : {0, Word, Manifest}]
      [] k = "zip.msize" -> [fam : {"zip"}, k : {k}, a : {1, 20}, n : {0, 1, 100, 8192, 65534, 65535, 65536, 65537, 70000, 16777216}, p : 0..2]
      [] k = "zip.comm" ->
           [fam : {"zip"}, k : {k}, n : {0, 1, 2, 3, 4, 17, 18, 19, 20, 21, 22, 23, 255, 256, 1000, 8191, 8192, 8193, 32768,
                                        65534, 65535}, p : 0..6]
      [] k = "zip.look" ->
           {c \in [fam : {"zip"}, k : {k}, b : Strings(LookBytes, 1, IF Thorough THEN 7 ELSE 6), p : 0..1] :
               NoSig(c.b) /\ (Thorough \/ Len(c.b) <= 4 \/ Sampled(FoldLeft(LAMBDA a, x : (a * 7 + x) % 65536, c.p, c.b), 6))}
      [] k = "zip.far" ->
           [fam : {"zip"}, k : {k}, n : {0, 100, 65534, 65535}, e : {0, 1, 2, 21, 22, 65535 - 100}, p : {0, 500, 70000}]
      [] k = "zip.nest" -> [fam : {"zip"}, k : {k}, n : {0, 1, 17, 18, 19, 40, 1000, 60000, 65000}, p : 0..2]
      [] k = "zip.pre" -> [fam : {"zip"}, k : {k}, n : {0, 1, 18, 4096, 8191, 36870, 65400, 65500, 65535, 65536, 65557, 131072, 3000000}, p : 0..3]
      [] k = "zip.start" -> [fam : {"zip"}, k : {k}, n : 0..40, p : {0, 1, 65535}]
      [] k = "zip.z64" ->
           {c \in [fam : {"zip"}, k : {k}, v : 0..6, e : {0, 1, 28, 1000}, l : {0, 1, 300, 65535}, p : 0..2, b : {Word, 0}] :
               Thorough \/ c.l \in {0, 300} \/ (c.e = 0 /\ c.p = 0)}
      [] k = "zip.noz64" -> [fam : {"zip"}, k : {k}, n : 0..6]
      [] k = "zip.base" -> [fam : {"zip"}, k : {k}, n : 0..13]

Neutrals(n) == [i \in 1..n |-> ZE(ZNames[Neutral[2]].b)]
Raw == << <<195, 169>>, <<255>>, <<0>>, <<226, 130>>, <<47>>, <<92>> >>
LookMid(c) == IF c.p = 0 THEN <<P(c.b)>> ELSE <<>>
PadTo(b, n, p) ==
    IF n <= Len(b) THEN <<P(SubSeq(b, 1, n))>>
    ELSE CASE p = 0 -> <<P(b), R(<<10>>, n - Len(b))>>
           [] p = 1 -> <<R(<<32>>, n - Len(b)), P(b)>>
           [] p = 2 -> <<R(<<32>>, (n - Len(b)) \div 2), P(b), R(<<9>>, (n - Len(b)) - ((n - Len(b)) \div 2))>>
Filler(p, n) == CASE p = 0 -> Z(n)
                  [] p = 1 -> R(<<80>>, n)
                  [] p = 2 -> R(<<80, 75>>, n \div 2)
                  [] p = 3 -> R(<<80, 75, 5>>, n \div 3)
                  [] p = 4 -> R(<<75, 5, 6>>, n \div 3)
                  [] p = 5 -> R(<<80, 75, 5, 80, 75>>, n \div 5)
                  [] p = 6 -> R(<<80, 75, 3, 4>>, n \div 4)
FillLen(p, n) == Len(Filler(p, n).b) * Filler(p, n).r
WordArchive(mid, after, cl) == Archive(EntriesOf(<<Neutral[3], Word>>), 2, <<>>, mid, after, cl)

ZipEnc(c) ==
    CASE c.k = "zip.name" ->
           LET x == ZNames[c.a].b
               n == ZNames[Neutral[3]].b
           IN  (CASE c.p = 0 -> Simple(<<ZE(x)>>)
                 [] c.p = 1 -> Simple(<<ZE(n), ZE(x)>>)
                 [] c.p = 2 -> Simple(<<[ZE(x) EXCEPT !.c = 9], ZE(n)>>)
                 [] c.p = 3 -> Simple(<<ZE(n), ZE(ZNames[Manifest].b), [ZE(x) EXCEPT !.x = 9], ZE(n)>>)
                 [] c.p = 4 -> Simple(<<[ZE(x) EXCEPT !.cs = 0, !.us = 0, !.d = <<>>]>>))
      [] c.k = "zip.pair" -> Simple(EntriesOf(<<c.a, c.b>>))
      [] c.k = "zip.tri" -> Simple(EntriesOf(<<c.a, c.b, c.d>>))
      [] c.k = "zip.seq" -> Simple([i \in DOMAIN c.q |-> SeqItems[c.q[i]].e])
      [] c.k = "zip.raw" ->
           LET x == ZNames[c.a].b
           IN  Simple(<<ZE(IF c.b <= 3 THEN Raw[c.b] \o x ELSE x \o Raw[c.b]), ZE(ZNames[Word].b)>>)
      [] c.k = "zip.near" ->
           LET e == ZE(NearBytes(ZNames[c.a].b, c.v))
           IN  (CASE c.p = 0 -> Simple(<<e, ZE(ZNames[Other(c.a)].b)>>)
                 [] c.p = 1 -> Simple(<<ZE(ZNames[Neutral[3]].b), ZE(ZNames[Manifest].b), e>>))
      [] c.k = "zip.attr" ->
           \* a = 0: a mimetype file (whose sizes and offset matter)
           LET m == IF c.a = 0 THEN MimeEntry(MimeTypeBytes[13]) ELSE ZE(ZNames[c.a].b)
               o == ZE(ZNames[Neutral[5]].b)
               w == ZE(ZNames[36].b)
               f == IF c.a = 0 /\ c.f > 14 THEN 1 ELSE c.f
               es == IF c.p = 0 THEN <<m, w>> ELSE <<o, m, w>>
               cen == FlattenSeq([i \in DOMAIN es |->
                          LET ps == CentralPieces(es[i], SumUpTo(es, LocalLen, i - 1))
                          IN  IF es[i] = m THEN WithAttr(ps, f, c.v) ELSE ps])
           IN  Stream(Locals(es) \o cen \o <<Eocd(Len(es), SumUpTo(es, CentralLen, Len(es)), SumUpTo(es, LocalLen, Len(es)), 0)>>)
      [] c.k = "zip.len" ->
           Simple(<<[ZE([i \in 1..c.n |-> 113]) EXCEPT !.x = c.x, !.c = c.l], ZE(ZNames[c.b].b)>>)
      [] c.k = "zip.count" ->
           Archive([i \in 1..c.r |-> IF i = c.j THEN ZE(ZNames[Word].b) ELSE ZE(ZNames[Neutral[i + 1]].b)],
                   c.d, <<>>, <<>>, <<>>, 0)
      [] c.k = "zip.many" ->
           \* all neutral entries share one local header
           LET n == ZE(ZNames[Neutral[3]].b)
               w == ZE(ZNames[c.b].b)
               cp == CentralPieces(n, 0)
               one == cp[1].b \o cp[2].b
           IN  Stream(LocalPieces(n) \o LocalPieces(w)
                      \o <<R(one, c.n)>> \o CentralPieces(w, LocalLen(n))
                      \o <<Eocd(c.n + 1, Len(one) * c.n + CentralLen(w), LocalLen(n) + LocalLen(w), 0)>>)
      [] c.k = "zip.rest" ->
           LET n == ZE(ZNames[Neutral[3]].b)
               w == IF c.b = 0 THEN MimeEntry(MimeTypeBytes[13]) ELSE ZE(ZNames[c.b].b)
               cp == CentralPieces(n, 0)
               one == cp[1].b \o cp[2].b
               j == Min({c.j, c.n})
               cdlen == Len(one) * c.n + CentralLen(w)
               ll == LocalLen(n) + LocalLen(w)
               z == c.z = 1 \/ c.n >= 65535
           IN  Stream(LocalPieces(n) \o LocalPieces(w)
                      \o <<R(one, j)>> \o CentralPieces(w, LocalLen(n)) \o <<R(one, c.n - j)>>
                      \o (IF z THEN <<Record64(LE64(c.n + 1), ll, 0), Locator64(ll + cdlen), EocdFF(0)>>
                           ELSE <<Eocd(c.n + 1, cdlen, ll, 0)>>))
      [] c.k = "zip.mime" ->
           Simple(<<MimeEntry(Ws[c.w] \o Variant(MimeTypeBytes[c.a], c.v) \o Ws[c.u]), ZE(ZNames[Word].b)>>)
      [] c.k = "zip.notws" ->
           LET t == MimeTypeBytes[c.a]
               x == NotWs[c.w]
           IN  Simple(<<MimeEntry(CASE c.p = 0 -> x \o t [] c.p = 1 -> t \o x [] c.p = 2 -> <<32>> \o x \o t \o x \o <<32>>)>>)
      [] c.k = "zip.mnear" -> Simple(<<MimeEntry(NearBytes(MimeTypeBytes[c.a], c.v)), ZE(ZNames[Word].b)>>)
      [] c.k = "zip.mloc" ->
           LET m == MimeEntry(MimeTypeBytes[c.a])
               ps == LocalPieces(m)
           IN  Stream(<<P(SetField(ps[1].b, LocFields[c.f], c.v))>> \o Tail(ps) \o CentralPieces(m, 0)
                      \o <<Eocd(1, CentralLen(m), LocalLen(m), 0)>>)
      [] c.k = "zip.end" ->
           LET es == EntriesOf(<<Neutral[3], Neutral[4], c.b>>)
               ll == SumUpTo(es, LocalLen, 3)
               cdlen == SumUpTo(es, CentralLen, 3)
               fld == EndFields[c.f]
           IN  IF c.z = 0
               THEN Stream(Locals(es) \o Central(es, 0)
                           \o <<P(SetField(Eocd(3, cdlen, ll, 0).b, IF c.f \in Endings THEN EndFields[1] ELSE fld, c.v))>>)
               ELSE Stream(Locals(es) \o Central(es, 0)
                           \o <<P(SetField(Record64(LE64(3), ll, 0).b, fld, c.v)), Locator64(ll + cdlen),
                                 EocdFF(0)>>)
      [] c.k = "zip.mpos" ->
           LET m == MimeEntry(MimeTypeBytes[c.a])
               n == ZE(ZNames[Neutral[3]].b)
               \* the local name may differ from the name in the directory
               loc(e) == <<P(<<80, 75, 3, 4, 20, 0, 8, 0, 0, 0, 33, 8, 65, 80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
                             \o LE16(c.n) \o LE16(c.l)), R(<<109>>, c.n), R(<<120>>, c.l), P(e.d)>>
               loclen == 30 + c.n + c.l + Len(m.d)
               cm(off) == CentralPieces(m, off)
               cn(off) == CentralPieces(n, off)
               big == R(<<55, 56, 57>>, 30000)
               word == ZE(ZNames[Word].b)
               jar == ZE(ZNames[Manifest].b)
               fin(cnt, cdlen, off) == <<Eocd(cnt, cdlen, off, 0)>>
           IN  (CASE c.p = 0 -> Stream(loc(m) \o cm(0) \o fin(1, CentralLen(m), loclen))
                 [] c.p = 1 -> Stream(LocalPieces(n) \o loc(m) \o cn(0) \o cm(LocalLen(n))
                                      \o fin(2, CentralLen(n) + CentralLen(m), LocalLen(n) + loclen))
                 [] c.p = 2 -> \* first in the directory, last in the file
                               Stream(LocalPieces(n) \o <<big>> \o loc(m) \o cm(LocalLen(n) + 90000) \o cn(0)
                                      \o fin(2, CentralLen(n) + CentralLen(m), LocalLen(n) + 90000 + loclen))
                 [] c.p = 3 -> \* after a manifest, before a decisive name
                               Stream(LocalPieces(jar) \o loc(m) \o CentralPieces(jar, 0) \o cm(LocalLen(jar))
                                      \o CentralPieces(word, 0)
                                      \o fin(3, CentralLen(jar) + CentralLen(m) + CentralLen(word), LocalLen(jar) + loclen))
                 [] c.p = 4 -> \* behind a decisive name
                               Stream(LocalPieces(word) \o loc(m) \o CentralPieces(word, 0) \o cm(LocalLen(word))
                                      \o fin(2, CentralLen(word) + CentralLen(m), LocalLen(word) + loclen))
                 [] c.p = 5 -> \* local header behind the directory
                               Stream(LocalPieces(n) \o cm(LocalLen(n) + CentralLen(m)) \o loc(m)
                                      \o fin(1, CentralLen(m), LocalLen(n))))
      [] c.k = "zip.mcomp" ->
           LET t == MimeTypeBytes[c.a]
               l == Len(t)
               m == [MimeEntry(t) EXCEPT !.cs = CASE c.p = 0 -> l + 2 [] c.p = 1 -> l - 1 [] c.p = 2 -> 0
                                                   [] c.p = 3 -> l + 256 [] c.p = 4 -> l + 65536]
           IN  Simple(<<m>> \o (IF c.b = 0 THEN <<>> ELSE <<ZE(ZNames[c.b].b)>>))
      [] c.k = "zip.msize" ->
           LET t == MimeTypeBytes[c.a]
               m == [ZE(ZipMimetype) EXCEPT !.cs = c.n, !.us = c.n, !.d = <<>>]
               loc == SubSeq(LocalPieces(m), 1, 2) \o PadTo(t, c.n, c.p)
           IN  Stream(loc \o CentralPieces(m, 0) \o <<Eocd(1, CentralLen(m), 38 + c.n, 0)>>)
      [] c.k = "zip.comm" -> WordArchive(<<>>, <<Filler(c.p, c.n)>>, FillLen(c.p, c.n))
      [] c.k = "zip.look" ->
           IF c.p = 0 THEN WordArchive(<<P(c.b)>>, <<>>, 0) ELSE WordArchive(<<>>, <<P(c.b)>>, Len(c.b))
      [] c.k = "zip.far" ->
           Archive(EntriesOf(<<Neutral[3], Word>>), 2, <<Z(c.p)>>, <<>>, <<R(<<99>>, c.n), R(<<101>>, c.e)>>, c.n)
      [] c.k = "zip.nest" ->
           \* an inner archive with another meaning stored before the directory
           LET inner == <<P(<<80, 75, 3, 4>>), Z(30)>> \o CentralPieces(ZE(ZNames[36].b), 0)
                         \o <<Eocd(1, CentralLen(ZE(ZNames[36].b)), IF c.p = 2 THEN 100 ELSE 0, 0)>>
           IN  Archive(EntriesOf(<<Neutral[3], Word>>), 2, inner \o <<R(<<80>>, c.n)>>, <<>>,
                       IF c.p = 1 THEN <<Z(400)>> ELSE <<>>, IF c.p = 1 THEN 400 ELSE 0)
      [] c.k = "zip.pre" ->
           Archive(EntriesOf(<<Neutral[3], Word>>), 2, <<Filler(c.p, c.n)>>, <<>>, <<>>, 0)
      [] c.k = "zip.start" ->
           IF c.n < 4 THEN Stream(<<Eocd(0, 0, 0, c.p), Z(c.p)>>)
           ELSE Stream(<<P(<<80, 75, 3, 4>>), R(<<7>>, c.n - 4), Eocd(0, 0, c.n, c.p), Z(c.p)>>)
      [] c.k = "zip.z64" ->
           LET es == EntriesOf(<<Neutral[3], Neutral[4], IF c.b = 0 THEN Neutral[5] ELSE c.b>>)
               ll == SumUpTo(es, LocalLen, 3)
               cdlen == SumUpTo(es, CentralLen, 3)
               gap == IF c.p = 1 THEN 70000 ELSE 0
               rec == ll + gap + cdlen
               classic == IF c.p = 2 THEN Eocd(1, 5, 0, c.l) ELSE EocdFF(c.l)
           IN  Stream(Locals(es) \o <<Z(gap)>> \o Central(es, 0)
                      \o <<Record64(Count8(c.v), ll + gap, c.e), R(<<7>>, c.e), Locator64(rec), classic, Z(c.l)>>)
      [] c.k = "zip.noz64" ->
           \* the locator's signature next to its place, or in its place but incomplete
           LET l == <<80, 75, 6, 7>>
           IN  (CASE c.n = 0 -> WordArchive(<<P(l), Z(15)>>, <<>>, 0)
                 [] c.n = 1 -> WordArchive(<<P(l), Z(17)>>, <<>>, 0)
                 [] c.n = 2 -> WordArchive(<<P(<<80, 75, 6, 6>>), Z(16)>>, <<>>, 0)
                 [] c.n = 3 -> WordArchive(<<P(<<80, 75, 7, 7>>), Z(16)>>, <<>>, 0)
                 [] c.n = 4 -> WordArchive(<<P(<<0, 75, 6, 7>>), Z(16)>>, <<>>, 0)
                 [] c.n = 5 -> WordArchive(<<P(<<80, 0, 6, 7>>), Z(16)>>, <<>>, 0)
                 [] c.n = 6 -> WordArchive(<<P(<<80, 75, 6>>), Z(17)>>, <<>>, 0))
      [] c.k = "zip.base" ->
           CASE c.n = 0 -> Simple(<<>>)
             [] c.n = 1 -> Simple(EntriesOf(<<Neutral[3], Word>>))
             [] c.n = 2 -> Simple(EntriesOf(<<Manifest, Neutral[3]>>))
             [] c.n = 3 -> Simple(<<MimeEntry(MimeTypeBytes[1]), ZE(ZNames[Word].b)>>)
             [] c.n = 4 -> Simple(<<ZE(ZNames[Neutral[3]].b), MimeEntry(<<10>> \o MimeTypeBytes[13] \o <<32>>)>>)
             [] c.n = 5 -> WordArchive(<<>>, <<Q("PK comment PK")>>, 13)
             [] c.n = 6 -> LET es == EntriesOf(<<Neutral[3], Neutral[4], Word>>)
                               ll == SumUpTo(es, LocalLen, 3)
                               rec == ll + SumUpTo(es, CentralLen, 3)
                           IN  Stream(Locals(es) \o Central(es, 0)
                                      \o <<Record64(LE64(3), ll, 0), Locator64(rec), EocdFF(0)>>)
             [] c.n = 7 -> Simple(EntriesOf(<<Neutral[3], Neutral[6], Neutral[9]>>))
             [] c.n = 8 -> Archive(EntriesOf(<<Neutral[3], Word>>), 2, <<R(<<80, 75, 5>>, 30000)>>, <<>>, <<>>, 0)
             [] c.n = 9 -> Archive(EntriesOf(<<Neutral[3], 22>>), 2, <<>>, <<>>, <<Z(65535)>>, 65535)
             [] c.n = 10 -> Simple(<<[MimeEntry(MimeTypeBytes[28]) EXCEPT !.us = 400], ZE(ZNames[12].b)>>)
             [] c.n = 11 -> Simple(<<[ZE(ZNames[Neutral[3]].b) EXCEPT !.x = 300, !.c = 9000], ZE(ZNames[40].b)>>)
             [] c.n = 12 -> Stream(<<P(<<80, 75, 3, 4>>), R(<<32, 97>>, 30)>>)
             [] c.n = 13 -> LET n == ZE(ZNames[Neutral[3]].b)
                                cp == CentralPieces(n, 0)
                                one == cp[1].b \o cp[2].b
                            IN  Stream(LocalPieces(n) \o <<R(one, 1500), Eocd(1500, 1500 * Len(one), LocalLen(n), 0)>>)

ZipMeaning(c) ==
    CASE c.k = "zip.name" ->
           NamesMean(IF c.p = 3 THEN <<"JAR", ZNameTab[c.a][2]>> ELSE <<ZNameTab[c.a][2]>>, "Zip")
      [] c.k = "zip.pair" -> NamesMean(FormatsOf(<<c.a, c.b>>), "Zip")
      [] c.k = "zip.tri" -> NamesMean(FormatsOf(<<c.a, c.b, c.d>>), "Zip")
      [] c.k = "zip.seq" -> NamesMean([i \in DOMAIN c.q |-> SeqItems[c.q[i]].f], "Zip")
      [] c.k = "zip.attr" -> IF c.a = 0 THEN MimeTypes[13][2] ELSE NamesMean(FormatsOf(<<c.a, 36>>), "Zip")
      [] c.k = "zip.len" -> NamesMean(FormatsOf(<<c.b>>), "Zip")
      [] c.k = "zip.count" -> IF c.j > 0 /\ c.j <= c.d THEN "OfficeOpenXmlDocument" ELSE "Zip"
      [] c.k = "zip.many" -> IF c.n >= 1024 THEN "Zip" ELSE NamesMean(FormatsOf(<<c.b>>), "Zip")
      [] c.k = "zip.rest" -> IF c.j >= 1024 THEN (IF c.n < 1024 THEN "any" ELSE "Zip")
                              ELSE IF c.b = 0 THEN MimeTypes[13][2] ELSE NamesMean(FormatsOf(<<c.b>>), "Zip")
      [] c.k = "zip.mime" -> IF c.v = 0 THEN MimeTypes[c.a][2] ELSE "Zip"
      [] c.k = "zip.notws" -> "Zip"
      [] c.k = "zip.mpos" -> IF c.p = 4 THEN "OfficeOpenXmlDocument" ELSE MimeTypes[c.a][2]
      [] c.k = "zip.mloc" -> MimeTypes[c.a][2]
      [] c.k = "zip.end" -> IF c.b = Word THEN "OfficeOpenXmlDocument" ELSE "JavaArchive"
      [] c.k = "zip.mcomp" -> IF c.b = 0 THEN "Zip" ELSE NamesMean(FormatsOf(<<c.b>>), "Zip")
      [] c.k = "zip.msize" ->
           IF c.n < Len(MimeTypeBytes[c.a]) \/ c.n > 65536 THEN "Zip" ELSE MimeTypes[c.a][2]
      [] c.k \in {"zip.comm", "zip.look", "zip.nest", "zip.pre", "zip.noz64"} -> "OfficeOpenXmlDocument"
      [] c.k = "zip.far" -> IF c.n + c.e <= 65535 THEN "OfficeOpenXmlDocument" ELSE "ERR"
      [] c.k = "zip.start" -> "Zip"
      [] c.k = "zip.z64" -> IF c.b = 0 THEN (IF c.v \in {0, 5} THEN "Zip" ELSE "any")
                            ELSE IF c.v = 5 THEN "Zip" ELSE "OfficeOpenXmlDocument"
      [] OTHER -> "any"
=============================================================================
