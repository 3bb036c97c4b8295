------------------------------- MODULE Readers -------------------------------
(* The format readers as transition systems.  The state of a reader is one record; Step(s, m) makes
   one step (one parsed element) on stream s.  m.out is "" while running, then the format found, or
   "ERR" when the structure could not be read. *)
EXTENDS Bytes

\* rd: reader; ph: phase; pos: position; n: elements processed; lim: elements to process;
\* aud, vid, sub: kinds of tracks seen; x, y: reader-specific numbers; fmt: result so far.
Machine(r) == [rd |-> r, ph |-> "start", pos |-> 0, n |-> 0, lim |-> 0, aud |-> FALSE,
               vid |-> FALSE, sub |-> FALSE, x |-> 0, y |-> 0, dn |-> 0, fmt |-> "", out |-> "", k |-> 0]

Done(m, f) == [m EXCEPT !.out = f]
Fail(m) == [m EXCEPT !.out = "ERR"]
\* Goes on in phase ph at position p; seeking before the start of the stream is an error.
Go(m, ph, p) == IF p < 0 THEN Fail(m) ELSE [m EXCEPT !.ph = ph, !.pos = p]

\* Literals.  TLC evaluates a definition once only if it applies no defined operator outside a
\* LAMBDA, hence the numbers here and the folds below.
L_A_ == <<65, 95>>   \* "A_"
L_ID3 == <<73, 68, 51>>   \* "ID3"
L_LE == <<76, 69>>   \* "LE"
L_LX == <<76, 88>>   \* "LX"
L_MDPR == <<77, 68, 80, 82>>   \* "MDPR"
L_NE == <<78, 69>>   \* "NE"
L_PE == <<80, 69>>   \* "PE"
L_S_ == <<83, 95>>   \* "S_"
L_V_ == <<86, 95>>   \* "V_"
L_audio_ == <<97, 117, 100, 105, 111, 47>>   \* "audio/"
L_fLaC == <<102, 76, 97, 67>>   \* "fLaC"
L_hdlr == <<104, 100, 108, 114>>   \* "hdlr"
L_matroska == <<109, 97, 116, 114, 111, 115, 107, 97>>   \* "matroska"
L_mdia == <<109, 100, 105, 97>>   \* "mdia"
L_moov == <<109, 111, 111, 118>>   \* "moov"
L_sbtl == <<115, 98, 116, 108>>   \* "sbtl"
L_soun == <<115, 111, 117, 110>>   \* "soun"
L_subt == <<115, 117, 98, 116>>   \* "subt"
L_text == <<116, 101, 120, 116>>   \* "text"
L_trak == <<116, 114, 97, 107>>   \* "trak"
L_vide == <<118, 105, 100, 101>>   \* "vide"
L_video_ == <<118, 105, 100, 101, 111, 47>>   \* "video/"
L_webm == <<119, 101, 98, 109>>   \* "webm"

(***************************************************************************)
(* ASF: header objects; stream properties and extended content description *)
(***************************************************************************)
AsfObjectLimit == 256
AsfDescriptorLimit == 32
AsfNameLimit == 64
AsfExtended == <<64, 164, 208, 210, 7, 227, 210, 17, 151, 240, 0, 160, 201, 94, 168, 80>>   \* d2d0a440-e307-11d2-97f0-00a0c95ea850
AsfStream == <<145, 7, 220, 183, 183, 169, 207, 17, 142, 230, 0, 192, 12, 32, 83, 101>>   \* b7dc0791-a9b7-11cf-8ee6-00c00c205365
AsfAudio == <<64, 158, 105, 248, 77, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 43>>   \* f8699e40-5b4d-11cf-a8fd-00805f5c442b
AsfVideo == <<192, 239, 25, 188, 77, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 43>>   \* bc19efc0-5b4d-11cf-a8fd-00805f5c442b
AsfDvrName == <<68, 0, 86, 0, 82, 0, 32, 0, 70, 0, 105, 0, 108, 0, 101, 0, 32, 0, 86, 0, 101, 0, 114, 0, 115, 0, 105, 0, 111, 0, 110, 0>>   \* "DVR File Version" in UTF-16LE

AsfStep(s, m) ==
    CASE m.ph = "start" ->
           IF ~CanRead(s, 24, 4) THEN Fail(m)
           ELSE [Go(m, "object", 30) EXCEPT !.lim = Min2(AsfObjectLimit, U32LE(Slice(s, 24, 4)))]
      [] m.ph = "object" ->
           IF m.n = m.lim
           THEN Done(m, IF m.vid THEN "WindowsMediaVideo"
                        ELSE IF m.aud THEN "WindowsMediaAudio" ELSE "AdvancedSystemsFormat")
           ELSE IF ~CanRead(s, m.pos, 24) THEN Fail(m)
           ELSE LET id == Slice(s, m.pos, 16)
                    sz == Slice(s, m.pos + 16, 8)
                    n1 == [m EXCEPT !.n = @ + 1]
                IN  CASE id = AsfStream ->
                           IF ~CanRead(s, m.pos + 24, 16) THEN Fail(m)
                           ELSE LET ty == Slice(s, m.pos + 24, 16)
                                IN  [Go(n1, "object", Move(m.pos, I64LE(sz)))
                                       EXCEPT !.aud = @ \/ ty = AsfAudio, !.vid = @ \/ ty = AsfVideo]
                      [] id = AsfExtended ->
                           IF ~CanRead(s, m.pos + 24, 2) THEN Fail(m)
                           ELSE [Go(n1, "descriptor", m.pos + 26)
                                   EXCEPT !.x = Move(m.pos, U64LE(sz)),
                                          !.y = Min2(AsfDescriptorLimit, U16LE(Slice(s, m.pos + 24, 2))),
                                          !.dn = 0]
                      [] OTHER -> Go(n1, "object", Move(m.pos, I64LE(sz)))
      [] m.ph = "descriptor" ->
           IF m.dn = m.y THEN Go(m, "object", m.x)
           ELSE IF ~CanRead(s, m.pos, 2) THEN Fail(m)
           ELSE LET len == U16LE(Slice(s, m.pos, 2))
                    got == Min2(AsfNameLimit, len)
                IN  IF ~CanRead(s, m.pos + 2, got) THEN Fail(m)
                    ELSE IF StartsWith(Slice(s, m.pos + 2, got), AsfDvrName)
                    THEN Done(m, "MicrosoftDigitalVideoRecording")
                    ELSE LET p == m.pos + 2 + len + 2
                         IN  IF ~CanRead(s, p, 2) THEN Fail(m)
                             ELSE [Go(m, "descriptor", p + 2 + U16LE(Slice(s, p, 2)))
                                     EXCEPT !.dn = @ + 1]

(***************************************************************************)
(* CFB: class id of the root entry, names of the next two entries          *)
(***************************************************************************)
ClassIds == <<
  <<"e60f81e1-49b3-11d0-93c3-7e0706000000", "AutodeskInventorAssembly">>,
  <<"bbf9fdf1-52dc-11d0-8c04-0800090be8ec", "AutodeskInventorDrawing">>,
  <<"4d29b490-49b2-11d0-93c3-7e0706000000", "AutodeskInventorPart">>,
  <<"76283a80-50dd-11d3-a7e3-00c04f79d7bc", "AutodeskInventorPresentation">>,
  <<"402efe62-1999-101b-99ae-04021c007002", "CorelPresentations7">>,
  <<"597caa70-72aa-11cf-831e-524153480000", "FlashProject">>,
  <<"b4f235fe-dca6-4803-b7b2-c25a453c836b", "FlashProject">>,
  <<"00020810-0000-0000-c000-000000000046", "MicrosoftExcelSpreadsheet">>,
  <<"00020820-0000-0000-c000-000000000046", "MicrosoftExcelSpreadsheet">>,
  <<"00044851-0000-0000-c000-000000000046", "MicrosoftPowerpointPresentation">>,
  <<"64818d10-4f9b-11cf-86ea-00aa00b929e8", "MicrosoftPowerpointPresentation">>,
  <<"ea7bae70-fb3b-11cd-a903-00aa00510ea3", "MicrosoftPowerpointPresentation">>,
  <<"74b78f3a-c8c8-11d1-be11-00c04fb6faf1", "MicrosoftProjectPlan">>,
  <<"00021201-0000-0000-00c0-000000000046", "MicrosoftPublisherDocument">>,
  <<"000c1084-0000-0000-c000-000000000046", "MicrosoftSoftwareInstaller">>,
  <<"00021a13-0000-0000-c000-000000000046", "MicrosoftVisioDrawing">>,
  <<"00021a14-0000-0000-c000-000000000046", "MicrosoftVisioDrawing">>,
  <<"00020900-0000-0000-c000-000000000046", "MicrosoftWordDocument">>,
  <<"00020906-0000-0000-c000-000000000046", "MicrosoftWordDocument">>,
  <<"00021303-0000-0000-c000-000000000046", "MicrosoftWorksDatabase">>,
  <<"28cddbc3-0ae2-11ce-a29a-00aa004a1a72", "MicrosoftWorksDatabase">>,
  <<"00021302-0000-0000-c000-000000000046", "MicrosoftWorksWordProcessor">>,
  <<"0ea45ab2-9e0a-11d1-a407-00c04fb932ba", "MicrosoftWorksWordProcessor">>,
  <<"28cddbc2-0ae2-11ce-a29a-00aa004a1a72", "MicrosoftWorksWordProcessor">>,
  <<"83a33d36-27c5-11ce-bfd4-00400513bb57", "SolidworksAssembly">>,
  <<"83a33d34-27c5-11ce-bfd4-00400513bb57", "SolidworksDrawing">>,
  <<"83a33d30-27c5-11ce-bfd4-00400513bb57", "SolidworksPart">>,
  <<"3f543fa0-b6a6-101b-9961-04021c007002", "Starcalc">>,
  <<"6361d441-4235-11d0-89cb-008029e4b0b1", "Starcalc">>,
  <<"c6a5b861-85d6-11d1-89cb-008029e4b0b1", "Starcalc">>,
  <<"02b3b7e0-4225-11d0-89ca-008029e4b0b1", "Starchart">>,
  <<"bf884321-85dd-11d1-89d0-008029e4b0b1", "Starchart">>,
  <<"fb9c99e0-2c6d-101c-8e2c-00001b4cc711", "Starchart">>,
  <<"2e8905a0-85bd-11d1-89d0-008029e4b0b1", "Stardraw">>,
  <<"af10aae0-b36d-101b-9961-04021c007002", "Stardraw">>,
  <<"012d3cc0-4216-11d0-89cb-008029e4b0b1", "Starimpress">>,
  <<"565c7221-85bc-11d1-89d0-008029e4b0b1", "Starimpress">>,
  <<"02b3b7e1-4225-11d0-89ca-008029e4b0b1", "Starmath">>,
  <<"d4590460-35fd-101c-b12a-04021c007002", "Starmath">>,
  <<"ffb5e640-85de-11d1-89d0-008029e4b0b1", "Starmath">>,
  <<"8b04e9b0-420e-11d0-a45e-00a0249d57b1", "Starwriter">>,
  <<"c20cf9d1-85ae-11d1-aab4-006097da561a", "Starwriter">>,
  <<"dc5c7e40-b35c-101b-9961-04021c007002", "Starwriter">>,
  <<"1cdd8c7b-81c0-45a0-9fed-04143144cc1e", "ThreeDimensionalStudioMax">>,
  <<"519873ff-2dad-0220-1937-0000929679cd", "WordperfectDocument">>,
  <<"402efe60-1999-101b-99ae-04021c007002", "WordperfectGraphics">> >>
ClassIdBytes == FoldLeft(LAMBDA acc, r : Append(acc, Guid(r[1])), <<>>, ClassIds)
ClassIdIndex(b) == SelectInSeq(ClassIdBytes, LAMBDA c : c = b)
WorksWordName == <<77, 0, 97, 0, 116, 0, 79, 0, 83, 0, 84, 0>>   \* "MatOST" in UTF-16LE
WorksSheetName == <<87, 0, 107, 0, 115, 0, 83, 0, 83, 0, 87, 0, 111, 0, 114, 0, 107, 0, 66, 0, 111, 0, 111, 0, 107, 0>>   \* "WksSSWorkBook" in UTF-16LE

CfbStep(s, m) ==
    CASE m.ph = "start" ->
           IF ~CanRead(s, 26, 2) \/ ~CanRead(s, 48, 4) THEN Fail(m)
           ELSE LET sector == IF U16LE(Slice(s, 26, 2)) = 3 THEN 512 ELSE 4096
                    loc == U32LE(Slice(s, 48, 4))
                    \* saturated: sector * (1 + loc) + 80
                    p == IF loc >= BIG \div 4096 - 2 THEN BIG ELSE sector * (1 + loc) + 80
                IN  Go(m, "class", p)
      [] m.ph = "class" ->
           IF ~CanRead(s, m.pos, 16) THEN Fail(m)
           ELSE LET i == ClassIdIndex(Slice(s, m.pos, 16))
                IN  IF i > 0 THEN Done(m, ClassIds[i][2]) ELSE Go(m, "second", m.pos + 48)
      [] m.ph = "second" ->
           IF ~CanRead(s, m.pos, 64) THEN Fail(m)
           ELSE IF StartsWith(Slice(s, m.pos, 64), WorksWordName) THEN Done(m, "MicrosoftWorksWordProcessor")
           ELSE Go(m, "third", m.pos + 128)
      [] m.ph = "third" ->
           IF ~CanRead(s, m.pos, 64) THEN Fail(m)
           ELSE IF StartsWith(Slice(s, m.pos, 64), WorksSheetName) THEN Done(m, "MicrosoftWorks6Spreadsheet")
           ELSE Done(m, "CompoundFileBinary")

(***************************************************************************)
(* EBML: a flat walk that enters the master elements leading to the tracks *)
(***************************************************************************)
EbmlElementLimit == 256
EbmlMasters == { <<26, 69, 223, 163>>,      \* EBML header   1A45DFA3
                 <<24, 83, 128, 103>>,      \* Segment       18538067
                 <<22, 84, 174, 107>>,      \* Tracks        1654AE6B
                 <<174>>,                   \* TrackEntry    AE
                 <<224>> }                  \* Video         E0
EbmlDocType == <<66, 130>>                  \* 4282
EbmlCodecId == <<134>>                      \* 86
EbmlStereo == <<83, 184>>                   \* 53B8
EbmlCluster == <<31, 67, 182, 117>>         \* 1F43B675
\* Length of a variable-length integer by its first byte (9 if none of the bits is set).
VintLen(b) == IF b >= 128 THEN 1 ELSE IF b >= 64 THEN 2 ELSE IF b >= 32 THEN 3 ELSE IF b >= 16 THEN 4
              ELSE IF b >= 8 THEN 5 ELSE IF b >= 4 THEN 6 ELSE IF b >= 2 THEN 7 ELSE IF b >= 1 THEN 8 ELSE 9
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
\* Value of a size given as its n bytes, saturated.
VintVal(b) ==
    LET n == Len(b)
        first == b[1] % Pow2[9 - n]
    IN  FoldLeft(LAMBDA acc, x : IF acc >= BIG \div 256 THEN BIG ELSE acc * 256 + x,
                 first, SubSeq(b, 2, n))

EbmlEnd(m) == Done(m, IF m.vid THEN "MatroskaVideo" ELSE IF m.aud THEN "MatroskaAudio"
                      ELSE IF m.sub THEN "MatroskaSubtitles" ELSE "ExtensibleBinaryMetaLanguage")
EbmlStep(s, m) ==
    CASE m.ph = "start" -> Go(m, "element", 0)
      [] m.ph = "element" ->
           IF m.n = EbmlElementLimit \/ m.pos >= s.len THEN EbmlEnd(m)
           ELSE LET il == VintLen(At(s, m.pos))
                IN  IF il > 4 \/ ~CanRead(s, m.pos, il + 1) THEN Fail(m)
                    ELSE LET id == Slice(s, m.pos, il)
                             sp == m.pos + il
                             sl == VintLen(At(s, sp))
                         IN  IF sl > 8 \/ ~CanRead(s, sp, sl) THEN Fail(m)
                             ELSE LET size == VintVal(Slice(s, sp, sl))
                                      d == sp + sl           \* position of the element's data
                                      n1 == [m EXCEPT !.n = @ + 1]
                                      got8 == Min2(8, size)
                                      got64 == Min2(64, size)
                                      next == Move(d, size)
                                  IN  CASE id \in EbmlMasters -> Go(n1, "element", d)
                                        [] id = EbmlDocType ->
                                             IF ~CanRead(s, d, got8) THEN Fail(m)
                                             ELSE LET t == Slice(s, d, got8)
                                                  IN  IF StartsWith(t, L_webm) THEN Done(m, "Webm")
                                                      ELSE IF ~StartsWith(t, L_matroska)
                                                      THEN Done(m, "ExtensibleBinaryMetaLanguage")
                                                      ELSE Go(n1, "element", next)
                                        [] id = EbmlCodecId ->
                                             IF ~CanRead(s, d, got64) THEN Fail(m)
                                             ELSE LET c == Slice(s, d, Min2(2, size))
                                                  IN  [Go(n1, "element", next)
                                                         EXCEPT !.aud = @ \/ c = L_A_,
                                                                !.vid = @ \/ c = L_V_,
                                                                !.sub = @ \/ c = L_S_]
                                        [] id = EbmlStereo ->
                                             IF ~CanRead(s, d, got8) THEN Fail(m)
                                             ELSE IF \E i \in 1..got8 : At(s, d + i - 1) > 0
                                             THEN Done(m, "Matroska3dVideo")
                                             ELSE Go(n1, "element", next)
                                        [] id = EbmlCluster -> EbmlEnd(m)
                                        [] OTHER -> Go(n1, "element", next)

(***************************************************************************)
(* EXE: extended header                                                    *)
(***************************************************************************)
ExeStep(s, m) ==
    CASE m.ph = "start" ->
           IF ~CanRead(s, 60, 4) THEN Fail(m)
           ELSE LET p == U32LE(Slice(s, 60, 4))
                IN  IF p + 4 < s.len THEN Go(m, "header", p) ELSE Done(m, "MsDosExecutable")
      [] m.ph = "header" ->
           LET g == Slice(s, m.pos, 4)
               g2 == SubSeq(g, 1, 2)
           IN  IF g = L_PE \o <<0, 0>>
               THEN IF ~CanRead(s, m.pos + 22, 2) THEN Fail(m)
                    ELSE Done(m, IF (At(s, m.pos + 23) \div 32) % 2 = 1
                                 THEN "DynamicLinkLibrary" ELSE "PortableExecutable")
               ELSE Done(m, IF g2 = L_LE \/ g2 = L_LX THEN "LinearExecutable"
                            ELSE IF g2 = L_NE THEN "NewExecutable" ELSE "MsDosExecutable")

(***************************************************************************)
(* ID3v2: a chain of tags, then the audio                                  *)
(***************************************************************************)
Id3TagLimit == 256
Mp3Sync == {226, 227, 242, 243, 250, 251}
Id3Step(s, m) ==
    CASE m.ph = "start" -> Go(m, "tag", 0)
      [] m.ph = "tag" ->
           IF m.n = Id3TagLimit THEN Go(m, "audio", m.pos)
           ELSE IF ~CanRead(s, m.pos, 10) THEN Fail(m)
           ELSE IF Slice(s, m.pos, 3) # L_ID3 THEN Go(m, "audio", m.pos)
           ELSE LET b == Slice(s, m.pos, 10)
                    size == (b[7] % 128) * 2097152 + (b[8] % 128) * 16384 + (b[9] % 128) * 128 + (b[10] % 128)
                    footer == IF (b[6] \div 16) % 2 = 1 THEN 10 ELSE 0
                IN  [Go(m, "tag", Move(m.pos, 10 + size + footer)) EXCEPT !.n = @ + 1]
      [] m.ph = "audio" ->
           IF ~CanRead(s, m.pos, 4) THEN Fail(m)
           ELSE LET b == Slice(s, m.pos, 4)
                IN  Done(m, IF b = L_fLaC THEN "FreeLosslessAudioCodec"
                            ELSE IF b[1] = 255 /\ b[2] \in Mp3Sync THEN "Mpeg12AudioLayer3" ELSE "Id3v2")

(***************************************************************************)
(* MP4: a flat walk that enters the boxes leading to the handlers          *)
(***************************************************************************)
Mp4BoxLimit == 256
Mp4Step(s, m) ==
    CASE m.ph = "start" -> Go(m, "box", 0)
      [] m.ph = "box" ->
           IF m.n = Mp4BoxLimit \/ m.pos >= s.len
           THEN Done(m, IF m.vid THEN "Mpeg4Part14Video" ELSE IF m.aud THEN "Mpeg4Part14Audio"
                        ELSE IF m.sub THEN "Mpeg4Part14Subtitles" ELSE "Mpeg4Part14")
           ELSE IF ~CanRead(s, m.pos, 8) THEN Fail(m)
           ELSE LET short == Slice(s, m.pos, 4)
                    type == Slice(s, m.pos + 4, 4)
                    ext == short = <<0, 0, 0, 1>>
                IN  IF ext /\ ~CanRead(s, m.pos + 8, 8) THEN Fail(m)
                    ELSE LET size == IF ext THEN I64BE(Slice(s, m.pos + 8, 8)) ELSE U32BE(short)
                             d == m.pos + (IF ext THEN 16 ELSE 8)
                             n1 == [m EXCEPT !.n = @ + 1]
                         IN  CASE type \in {L_moov, L_trak, L_mdia} -> Go(n1, "box", d)
                               [] type = L_hdlr ->
                                    IF ~CanRead(s, d + 8, 4) THEN Fail(m)
                                    ELSE LET h == Slice(s, d + 8, 4)
                                         IN  [Go(n1, "box", Move(m.pos, size))
                                                EXCEPT !.vid = @ \/ h = L_vide,
                                                       !.aud = @ \/ h = L_soun,
                                                       !.sub = @ \/ h \in {L_sbtl, L_subt, L_text}]
                               [] OTHER -> Go(n1, "box", Move(m.pos, size))

(***************************************************************************)
(* PDF, SQLite and XML: marker searches                                    *)
(***************************************************************************)
PdfReadLimit == 33554432
PdfMarker == <<65, 73, 80, 114, 105, 118, 97, 116, 101, 68, 97, 116, 97>>   \* "AIPrivateData"
PdfStep(s, m) ==
    Done(m, IF Holds(s, 5, 5 + PdfReadLimit, PdfMarker) THEN "AdobeIllustratorArtwork"
            ELSE "PortableDocumentFormat")

SqliteReadLimit == 32768
SqliteMarker == <<99, 111, 109, 46, 98, 111, 104, 101, 109, 105, 97, 110, 99, 111, 100, 105, 110, 103, 46, 115, 107, 101, 116, 99, 104, 51>>   \* "com.bohemiancoding.sketch3"
SqliteStep(s, m) ==
    Done(m, IF Holds(s, 100, 100 + SqliteReadLimit, SqliteMarker) THEN "Sketch" ELSE "Sqlite3")

XmlReadLimit == 8192
\* Each dialect: alternatives, each a list of markers that must all occur.
XmlMarkers == <<
  <<"Abiword", << <<"<abiword template=\"false\"">> >> >>,
  <<"AbiwordTemplate", << <<"<abiword template=\"true\"">> >> >>,
  <<"AdditiveManufacturingFormat", << <<"<amf">> >> >>,
  <<"AdvancedStreamRedirector", << <<"<ASX">>, <<"<asx">> >> >>,
  <<"Atom", << <<"<feed">> >> >>,
  <<"CollaborativeDesignActivity", << <<"<COLLADA">> >> >>,
  <<"Drawio", << <<"<mxfile">> >> >>,
  <<"Extensible3d", << <<"<X3D">> >> >>,
  <<"ExtensibleStylesheetLanguageTransformations", << <<"<xsl">> >> >>,
  <<"Fictionbook", << <<"<FictionBook">> >> >>,
  <<"GeographyMarkupLanguage", << <<"<gml">> >> >>,
  <<"GpsExchangeFormat", << <<"<gpx">> >> >>,
  <<"KeyholeMarkupLanguage", << <<"<kml">> >> >>,
  <<"MathematicalMarkupLanguage", << <<"<math">> >> >>,
  <<"MpegDashMpd", << <<"<MPD">> >> >>,
  <<"Musicxml", << <<"<score-partwise">> >> >>,
  <<"ReallySimpleSyndication", << <<"<rss">> >> >>,
  <<"ScalableVectorGraphics", << <<"<SVG">>, <<"<svg">> >> >>,
  <<"SimpleObjectAccessProtocol", << <<"<soap">> >> >>,
  <<"TiledMapXml", << <<"<map">> >> >>,
  <<"TiledTilesetXml", << <<"<tileset">> >> >>,
  <<"TimedTextMarkupLanguage", << <<"<tt", "xmlns=\"http://www.w3.org/ns/ttml\"">> >> >>,
  <<"TrainingCenterXml", << <<"<TrainingCenterDatabase">> >> >>,
  <<"UniformOfficeFormatPresentation", << <<"<uof:UOF", "uof:mimetype=\"vnd.uof.presentation\"">> >> >>,
  <<"UniformOfficeFormatSpreadsheet", << <<"<uof:UOF", "uof:mimetype=\"vnd.uof.spreadsheet\"">> >> >>,
  <<"UniformOfficeFormatText", << <<"<uof:UOF", "uof:mimetype=\"vnd.uof.text\"">> >> >>,
  <<"UniversalSubtitleFormat", << <<"<USFSubtitles">> >> >>,
  <<"XmlLocalizationInterchangeFileFormat", << <<"<xliff">> >> >>,
  <<"XmlShareablePlaylistFormat", << <<"<playlist">> >> >> >>
XmlDialects == FoldLeft(LAMBDA acc, d :
                          Append(acc, <<d[1], [a \in DOMAIN d[2] |-> [k \in DOMAIN d[2][a] |-> S(d[2][a][k])]]>>),
                        <<>>, XmlMarkers)
XmlStep(s, m) ==
    LET hi == Min2(5 + XmlReadLimit, s.len)
        lt == CandPos(s, 60, 5, hi, 48)
        \* every first marker starts with "<"; the second ones start with "u" or "x"
        has(pat) == IF pat[1] = 60 THEN \E p \in lt : p + Len(pat) <= hi /\ EqAt(s, p, pat)
                    ELSE Holds(s, 5, hi, pat)
        i == SelectInSeq(XmlDialects, LAMBDA d : \E a \in DOMAIN d[2] : \A k \in DOMAIN d[2][a] : has(d[2][a][k]))
    IN  Done(m, IF i > 0 THEN XmlDialects[i][1] ELSE "ExtensibleMarkupLanguage")

(***************************************************************************)
(* RM: chunk walk                                                          *)
(***************************************************************************)
RmChunkLimit == 64
RmStep(s, m) ==
    CASE m.ph = "start" ->
           IF ~CanRead(s, 14, 4) THEN Fail(m)
           ELSE [Go(m, "chunk", 18)
                   EXCEPT !.lim = Min2(RmChunkLimit, Max2(0, U32BE(Slice(s, 14, 4)) - 1))]
      [] m.ph = "chunk" ->
           IF m.n = m.lim
           THEN Done(m, IF m.vid THEN "Realvideo" ELSE IF m.aud THEN "Realaudio" ELSE "Realmedia")
           ELSE IF ~CanRead(s, m.pos, 8) THEN Fail(m)
           ELSE LET type == Slice(s, m.pos, 4)
                    next == Move(m.pos, U32BE(Slice(s, m.pos + 4, 4)))
                    n1 == [m EXCEPT !.n = @ + 1]
                IN  IF type # L_MDPR THEN Go(n1, "chunk", next)
                    ELSE IF ~CanRead(s, m.pos + 40, 1) THEN Fail(m)
                    ELSE LET p == m.pos + 41 + At(s, m.pos + 40)
                         IN  IF ~CanRead(s, p, 1) THEN Fail(m)
                             ELSE LET tl == At(s, p)
                                  IN  IF ~CanRead(s, p + 1, tl) THEN Fail(m)
                                      ELSE LET mime == Slice(s, p + 1, tl)
                                           IN  [Go(n1, "chunk", next)
                                                  EXCEPT !.aud = @ \/ StartsWith(mime, L_audio_),
                                                         !.vid = @ \/ StartsWith(mime, L_video_)]

(***************************************************************************)
(* TXT                                                                     *)
(***************************************************************************)
TxtLineLimit == 16
TxtReadLimit == 65536
\* Offsets of line feeds in one period of a segment, in order.
NlOf(g) == SetToSortSeq({j \in 1..Min2(Len(g.b), g.n) : g.b[j] = 10}, <)
\* Position of the n-th line feed, or -1.
NthNewline(s, n) ==
    FoldLeft(LAMBDA acc, g :
               IF acc.p >= 0 THEN acc
               ELSE LET ps == NlOf(g)
                        k == Len(ps)
                        l == Len(g.b)
                        want == n - acc.c
                        rest == Cardinality({j \in 1..k : ps[j] <= g.n % l})
                        total == k * (g.n \div l) + rest
                    IN  IF k = 0 THEN acc
                        ELSE IF total < want THEN [acc EXCEPT !.c = @ + total]
                        ELSE [acc EXCEPT !.p = g.at + ((want - 1) \div k) * l + ps[((want - 1) % k) + 1] - 1],
             [c |-> 0, p |-> -1], s.segs).p

Utf8Len(b) == IF b < 128 THEN 1 ELSE IF b >= 194 /\ b <= 223 THEN 2 ELSE IF b >= 224 /\ b <= 239 THEN 3
              ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0
IsCont(b) == b >= 128 /\ b <= 191
\* Whether c can be the second byte of a character starting with b.
Second(b, c) == CASE b = 224 -> c >= 160 /\ c <= 191
                  [] b = 237 -> c >= 128 /\ c <= 159
                  [] b = 240 -> c >= 144 /\ c <= 191
                  [] b = 244 -> c >= 128 /\ c <= 143
                  [] OTHER -> IsCont(c)
\* Whether the byte at position i spoils the text in [0, e); cut: the text is cut at e by the limit.
BadAt(s, i, e, cut) ==
    LET b == At(s, i)
        l == Utf8Len(b)
    IN  IF b < 128 THEN (b < 32 /\ ~(b \in 9..13)) \/ b = 127
        ELSE IF IsCont(b)
        THEN ~\E d \in 1..3 : i - d >= 0 /\ Utf8Len(At(s, i - d)) > d
                               /\ \A j \in 1..(d - 1) : IsCont(At(s, i - j))
        ELSE IF l = 0 THEN TRUE
        ELSE \/ \E j \in 1..(l - 1) :
                  IF i + j >= e THEN ~cut
                  ELSE IF j = 1 THEN ~Second(b, At(s, i + 1)) ELSE ~IsCont(At(s, i + j))
             \/ b = 194 /\ i + 1 < e /\ At(s, i + 1) <= 159 /\ At(s, i + 1) # 133

\* End of the examined part, and whether the limit cuts it.
TxtEnd(s) == LET p == NthNewline(s, TxtLineLimit)
             IN  IF p >= 0 /\ p < TxtReadLimit THEN p + 1 ELSE Min2(s.len, TxtReadLimit)
TxtCut(s) == TxtEnd(s) = TxtReadLimit /\ At(s, TxtReadLimit - 1) # 10
IsText(s) ==
    LET e == TxtEnd(s)
        cut == TxtCut(s)
        w == 5
        pos(g) == LET l == Len(g.b)
                      z == Min2(g.at + g.n, e)
                  IN  IF g.at >= z THEN {}
                      ELSE LET kmax == (z - 1 - g.at) \div l
                           IN  {x \in {g.at + k * l + j - 1 : k \in (0..Min2(w, kmax)) \union (Max2(0, kmax - w)..kmax),
                                                              j \in 1..Min2(l, g.n)} : x < z}
    IN  \A k \in DOMAIN s.segs : \A i \in pos(s.segs[k]) : ~BadAt(s, i, e, cut)
TxtStep(s, m) == IF IsText(s) THEN Done(m, "PlainText") ELSE Fail(m)

(***************************************************************************)
(* ZIP                                                                     *)
(***************************************************************************)
ZipEntryLimit == 1024
ZipMimetypeLimit == 65536
EocdSize == 22
EocdMax == 22 + 65535
EocdSig == <<80, 75, 5, 6>>
Eocd64LocSig == <<80, 75, 6, 7>>
\* Decisive names.
ZipNames == <<
  <<"AndroidManifest.xml", "AndroidPackage">>,
  <<"AppManifest.xaml", "Xap">>,
  <<"AppxManifest.xml", "WindowsAppPackage">>,
  <<"AppxMetadata/AppxBundleManifest.xml", "WindowsAppBundle">>,
  <<"BundleConfig.pb", "AndroidAppBundle">>,
  <<"DOMDocument.xml", "FlashCs5Project">>,
  <<"META-INF/AIR/application.xml", "AdobeIntegratedRuntime">>,
  <<"META-INF/application.xml", "EnterpriseApplicationArchive">>,
  <<"META-INF/mozilla.rsa", "Xpinstall">>,
  <<"WEB-INF/web.xml", "WebApplicationArchive">>,
  <<"canvas.fig", "FigmaDesign">>,
  <<"doc.kml", "KeyholeMarkupLanguageZip">>,
  <<"document.json", "Sketch43">>,
  <<"extension.vsixmanifest", "MicrosoftVisualStudioExtension">> >>
ZipNameBytes == FoldLeft(LAMBDA acc, r : Append(acc, S(r[1])), <<>>, ZipNames)
ZipManifest == <<77, 69, 84, 65, 45, 73, 78, 70, 47, 77, 65, 78, 73, 70, 69, 83, 84, 46, 77, 70>>   \* "META-INF/MANIFEST.MF"
ZipMimetype == <<109, 105, 109, 101, 116, 121, 112, 101>>   \* "mimetype"
\* Decisive name patterns, in order: prefix, infix after it, suffix, only at top level, format.
ZipNamePatterns == <<
  [pre |-> "Fusion[Active]/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "Autodesk123d"],
  [pre |-> "circuitdiagram/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "CircuitDiagramDocument"],
  [pre |-> "dwf/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "DesignWebFormatXps"],
  [pre |-> "", inf |-> "", suf |-> ".fb2", top |-> TRUE, f |-> "FictionbookZip"],
  [pre |-> "FusionAssetName[Active]/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "Fusion360"],
  [pre |-> "Payload/", inf |-> ".app/", suf |-> "", top |-> FALSE, f |-> "IosAppStorePackage"],
  [pre |-> "word/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "OfficeOpenXmlDocument"],
  [pre |-> "visio/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "OfficeOpenXmlDrawing"],
  [pre |-> "ppt/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "OfficeOpenXmlPresentation"],
  [pre |-> "xl/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "OfficeOpenXmlSpreadsheet"],
  [pre |-> "Documents/", inf |-> "", suf |-> ".fpage", top |-> FALSE, f |-> "Openxps"],
  [pre |-> "SpaceClaim/", inf |-> "", suf |-> "", top |-> FALSE, f |-> "SpaceclaimDocument"],
  [pre |-> "3D/", inf |-> "", suf |-> ".model", top |-> FALSE, f |-> "ThreeDimensionalManufacturingFormat"],
  [pre |-> "", inf |-> "", suf |-> ".usd", top |-> TRUE, f |-> "UniversalSceneDescriptionZip"],
  [pre |-> "", inf |-> "", suf |-> ".usda", top |-> TRUE, f |-> "UniversalSceneDescriptionZip"],
  [pre |-> "", inf |-> "", suf |-> ".usdc", top |-> TRUE, f |-> "UniversalSceneDescriptionZip"] >>
ZipPatterns == FoldLeft(LAMBDA acc, p :
                          Append(acc, [pre |-> S(p.pre), inf |-> S(p.inf), suf |-> S(p.suf), top |-> p.top, f |-> p.f]),
                        <<>>, ZipNamePatterns)
PatternHolds(n, p) == /\ StartsWith(n, p.pre)
                      /\ EndsWith(n, p.suf)
                      /\ (p.inf = <<>> \/ HasBytes(n, p.inf))
                      /\ ~(p.top /\ HasByte(n, 47))
\* The format a name decides, or "".
ZipNameFormat(n) ==
    LET i == SelectInSeq(ZipNameBytes, LAMBDA b : b = n)
    IN  IF i > 0 THEN ZipNames[i][2]
        ELSE LET k == SelectInSeq(ZipPatterns, LAMBDA p : PatternHolds(n, p))
             IN  IF k > 0 THEN ZipPatterns[k].f ELSE ""
MimeTypes == <<
  <<"application/epub+zip", "ElectronicPublication">>,
  <<"application/vnd.adobe.indesign-idml-package", "IndesignMarkupLanguage">>,
  <<"application/vnd.oasis.opendocument.base", "OpendocumentDatabase">>,
  <<"application/vnd.oasis.opendocument.database", "OpendocumentDatabase">>,
  <<"application/vnd.oasis.opendocument.formula", "OpendocumentFormula">>,
  <<"application/vnd.oasis.opendocument.formula-template", "OpendocumentFormulaTemplate">>,
  <<"application/vnd.oasis.opendocument.graphics", "OpendocumentGraphics">>,
  <<"application/vnd.oasis.opendocument.graphics-template", "OpendocumentGraphicsTemplate">>,
  <<"application/vnd.oasis.opendocument.presentation", "OpendocumentPresentation">>,
  <<"application/vnd.oasis.opendocument.presentation-template", "OpendocumentPresentationTemplate">>,
  <<"application/vnd.oasis.opendocument.spreadsheet", "OpendocumentSpreadsheet">>,
  <<"application/vnd.oasis.opendocument.spreadsheet-template", "OpendocumentSpreadsheetTemplate">>,
  <<"application/vnd.oasis.opendocument.text", "OpendocumentText">>,
  <<"application/vnd.oasis.opendocument.text-master", "OpendocumentTextMaster">>,
  <<"application/vnd.oasis.opendocument.text-master-template", "OpendocumentTextMasterTemplate">>,
  <<"application/vnd.oasis.opendocument.text-template", "OpendocumentTextTemplate">>,
  <<"application/vnd.recordare.musicxml", "MusicxmlZip">>,
  <<"application/vnd.sun.xml.calc", "SunXmlCalc">>,
  <<"application/vnd.sun.xml.calc.template", "SunXmlCalcTemplate">>,
  <<"application/vnd.sun.xml.draw", "SunXmlDraw">>,
  <<"application/vnd.sun.xml.draw.template", "SunXmlDrawTemplate">>,
  <<"application/vnd.sun.xml.impress", "SunXmlImpress">>,
  <<"application/vnd.sun.xml.impress.template", "SunXmlImpressTemplate">>,
  <<"application/vnd.sun.xml.math", "SunXmlMath">>,
  <<"application/vnd.sun.xml.writer", "SunXmlWriter">>,
  <<"application/vnd.sun.xml.writer.global", "SunXmlWriterGlobal">>,
  <<"application/vnd.sun.xml.writer.template", "SunXmlWriterTemplate">>,
  <<"image/openraster", "Openraster">> >>
MimeTypeBytes == FoldLeft(LAMBDA acc, r : Append(acc, S(r[1])), <<>>, MimeTypes)
\* White space at position i of b: the number of its bytes (0 if none).  ASCII white space,
\* U+0085, U+00A0, U+1680, U+2000-U+200A, U+2028, U+2029, U+202F, U+205F, U+3000.
WsLen(b, i) ==
    IF i > Len(b) THEN 0
    ELSE IF b[i] \in (9..13) \union {32} THEN 1
    ELSE IF b[i] = 194 /\ i + 1 <= Len(b) /\ b[i + 1] \in {133, 160} THEN 2
    ELSE IF i + 2 <= Len(b) /\ \/ b[i] = 225 /\ b[i + 1] = 154 /\ b[i + 2] = 128
                               \/ b[i] = 226 /\ b[i + 1] = 128 /\ b[i + 2] \in (128..138) \union {168, 169, 175}
                               \/ b[i] = 226 /\ b[i + 1] = 129 /\ b[i + 2] = 159
                               \/ b[i] = 227 /\ b[i + 1] = 128 /\ b[i + 2] = 128
         THEN 3 ELSE 0
\* The first position from i on that holds no white space.
SkipWs(b, i) == FoldLeft(LAMBDA p, j : IF j = p THEN p + WsLen(b, j) ELSE p, i,
                         SubSeq([j \in 1..Len(b) |-> j], i, Len(b)))
\* Whether b consists of white space from position i on.
AllWs(b, i) == SkipWs(b, i) > Len(b)
MimeFormat(b) ==
    LET i == SkipWs(b, 1)
        k == SelectInSeq(MimeTypeBytes, LAMBDA t : /\ Len(b) - i + 1 >= Len(t)
                                                   /\ SubSeq(b, i, i + Len(t) - 1) = t
                                                   /\ AllWs(b, i + Len(t)))
    IN  IF k > 0 THEN MimeTypes[k][2] ELSE "Zip"

ZipStep(s, m) ==
    CASE m.ph = "start" ->
           \* Searches the last end-of-central-directory record in the tail.
           IF s.len < EocdSize THEN Fail(m)
           ELSE LET found == Matches(s, Max2(0, s.len - EocdMax), s.len, EocdSig)
                IN  IF found = {} THEN Fail(m) ELSE Go(m, "eocd", Max(found))
      [] m.ph = "eocd" ->
           IF m.pos >= 20 /\ EqAt(s, m.pos - 20, Eocd64LocSig)
           THEN Go(m, "eocd64", m.pos - 20)
           ELSE IF ~CanRead(s, m.pos + 10, 2) \/ ~CanRead(s, m.pos + 16, 4) THEN Fail(m)
           ELSE [Go(m, "entry", U32LE(Slice(s, m.pos + 16, 4)))
                   EXCEPT !.lim = Min2(ZipEntryLimit, U16LE(Slice(s, m.pos + 10, 2))), !.fmt = "Zip"]
      [] m.ph = "eocd64" ->
           LET p == U64LE(Slice(s, m.pos + 8, 8))
           IN  IF ~CanRead(s, p + 32, 8) \/ ~CanRead(s, p + 48, 8) THEN Fail(m)
               ELSE [Go(m, "entry", U64LE(Slice(s, p + 48, 8)))
                       EXCEPT !.lim = Min2(ZipEntryLimit, U64LE(Slice(s, p + 32, 8))), !.fmt = "Zip"]
      [] m.ph = "entry" ->
           IF m.n = m.lim THEN Done(m, m.fmt)
           ELSE IF ~CanRead(s, m.pos, 46) THEN Fail(m)
           ELSE LET h == Slice(s, m.pos, 46)
                    csize == SubSeq(h, 21, 24)
                    usize == SubSeq(h, 25, 28)
                    nl == U16LE(SubSeq(h, 29, 30))
                    xl == U16LE(SubSeq(h, 31, 32))
                    cl == U16LE(SubSeq(h, 33, 34))
                    loc == U32LE(SubSeq(h, 43, 46))
                IN  IF ~CanRead(s, m.pos + 46, nl) THEN Fail(m)
                    ELSE LET name == Slice(s, m.pos + 46, nl)
                             f == ZipNameFormat(name)
                             n1 == [m EXCEPT !.n = @ + 1]
                             next == m.pos + 46 + nl + xl + cl
                         IN  IF name = ZipMimetype /\ csize = usize
                             THEN [Go(m, "mimetype", loc) EXCEPT !.x = U32LE(csize)]
                             ELSE IF f # "" THEN Done(m, f)
                             ELSE IF name = ZipManifest
                             THEN [Go(n1, "entry", next) EXCEPT !.fmt = "JavaArchive"]
                             ELSE Go(n1, "entry", next)
      [] m.ph = "mimetype" ->
           IF m.x > ZipMimetypeLimit THEN Done(m, "Zip")
           ELSE IF ~CanRead(s, m.pos + 26, 4) THEN Fail(m)
           ELSE LET d == m.pos + 30 + U16LE(Slice(s, m.pos + 26, 2)) + U16LE(Slice(s, m.pos + 28, 2))
                IN  IF ~CanRead(s, d, m.x) THEN Fail(m)
                    ELSE Done(m, MimeFormat(Slice(s, d, m.x)))

(***************************************************************************)
(* All readers                                                             *)
(***************************************************************************)
StepOf(s, m) ==
    CASE m.rd = "asf" -> AsfStep(s, m)
      [] m.rd = "cfb" -> CfbStep(s, m)
      [] m.rd = "ebml" -> EbmlStep(s, m)
      [] m.rd = "exe" -> ExeStep(s, m)
      [] m.rd = "id3v2" -> Id3Step(s, m)
      [] m.rd = "mp4" -> Mp4Step(s, m)
      [] m.rd = "pdf" -> PdfStep(s, m)
      [] m.rd = "rm" -> RmStep(s, m)
      [] m.rd = "sqlite3" -> SqliteStep(s, m)
      [] m.rd = "txt" -> TxtStep(s, m)
      [] m.rd = "xml" -> XmlStep(s, m)
      [] m.rd = "zip" -> ZipStep(s, m)
Step(s, m) == [StepOf(s, m) EXCEPT !.k = @ + 1]

RECURSIVE RunFrom(_, _)
RunFrom(s, m) == IF m.out # "" THEN m ELSE RunFrom(s, Step(s, m))
Run(s, r) == RunFrom(s, Machine(r)).out
=============================================================================
