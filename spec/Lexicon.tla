------------------------------- MODULE Lexicon -------------------------------
(* Words the formats know of besides the decisive ones: registered values that decide nothing here,
   and variants of the decisive ones.  A reader must tell them from the decisive ones. *)
EXTENDS Bytes

WordList(ws) == FoldLeft(LAMBDA acc, w : Append(acc, S(w)), <<>>, ws)
Guids(gs) == FoldLeft(LAMBDA acc, g : Append(acc, Guid(g)), <<>>, gs)
HexBytes(h) == [i \in 1..(Len(h) \div 2) |-> HexByte(h, 2 * i - 1)]
Hexes(hs) == FoldLeft(LAMBDA acc, h : Append(acc, HexBytes(h)), <<>>, hs)

UpperByte(x) == IF x >= 97 /\ x <= 122 THEN x - 32 ELSE x
LowerByte(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
OtherCase(x) == IF x >= 97 /\ x <= 122 THEN x - 32 ELSE IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
\* Variants of the same length: a byte one higher or lower, of the other case, zero, blank, its eighth bit set; two bytes swapped;
\* all in the other case, reversed, rotated.
SameLength(b0) ==
    LET b == SubSeq(b0, 1, Len(b0))
        n == Len(b)
        Flat(f) == SubSeq(f, 1, n)
        at(i, x) == [b EXCEPT ![i] = x]
    IN  (UNION {{at(i, (b[i] + 1) % 256), at(i, (b[i] + 255) % 256), at(i, OtherCase(b[i])), at(i, 0), at(i, 32), at(i, (b[i] + 128) % 256),
                 at(i, 45), at(i, 63)} : i \in 1..n}
         \union {[b EXCEPT ![i] = b[i + 1], ![i + 1] = b[i]] : i \in 1..(n - 1)}
         \union {Flat([i \in 1..n |-> UpperByte(b[i])]), Flat([i \in 1..n |-> LowerByte(b[i])]), Flat([i \in 1..n |-> b[n + 1 - i]]),
                 Flat([i \in 1..n |-> b[(i % n) + 1]]), Flat([i \in 1..n |-> b[((i + n - 2) % n) + 1]])}) \ {b}
\* Variants of other lengths: a byte left out, doubled, or put in between; something before it.
OtherLength(b0) ==
    LET b == SubSeq(b0, 1, Len(b0))
        n == Len(b)
        part(i, j) == SubSeq(b, i, j)
    IN  {part(1, i - 1) \o part(i + 1, n) : i \in 1..n}
        \union {part(1, i) \o <<b[i]>> \o part(i + 1, n) : i \in 1..n}
        \union {part(1, i) \o <<x>> \o part(i + 1, n) : i \in 1..(n - 1), x \in {0, 32, 10, 45}}
        \union {<<x>> \o b : x \in {0, 32, 10, 47, 255}}
        \union {FlattenSeq([i \in 1..n |-> <<b[i], 0>>]), FlattenSeq([i \in 1..n |-> <<0, b[i]>>])}
NearWords(b) == SameLength(b) \union OtherLength(b)
ListOf(S_x) == FoldLeft(LAMBDA acc, w : Append(acc, SubSeq(w, 1, Len(w))), <<>>, SetToSeq(S_x))

(***************************************************************************)
(* Trailers: words by which other programs know a file from its end        *)
(***************************************************************************)
Trailers == WordList(<<
  "koly", "TAG", "TAG+", "APETAGEX", "LYRICS200", "LYRICSBEGIN", "3DI", "ID3", "TRUEVISION-XFILE.", "%%EOF", "%PDF-1.4", "DVDVIDEO", "CD001", "NSR02",
  "BEA01", "conectix", "cxsparse", "EFI PART", "NTFS", "FAT32", "LUKS", "ustar", "MZ", "RIFF", "OggS", "fLaC", "moov", "ftypisom", "IEND", "GIF89a", "NullsoftInst",
  "Rar!", "7zXZ", "AIPrivateData", "com.bohemiancoding.sketch3", "<svg", "<?xml", "Apple", "Sony", "SEFT", "MotionPhoto_Data", "CAPTURE", "WPI", "EOF", "trailer", "startxref" >>)
  \o <<S("PK") \o <<5, 6>>, S("PK") \o <<1, 2>>, S("PK") \o <<6, 7>>, S("PK") \o <<3, 4>>, S("TRUEVISION-XFILE.") \o <<0>>, <<127, 69, 76, 70>>,
       <<255, 217>>, <<31, 139, 8>>, <<89, 90>>, S("DX"), <<85, 170>>, <<202, 254, 186, 190>>, S("AI") \o <<2>>, <<0, 0, 0, 32>> \o S("ftypavif"), S("vhdx"), S("#!AMR")>>
\* How far before the end they stand (0: they end the stream).
TrailAt == <<0, 20, 22, 26, 32, 64, 128, 160, 227, 512, 1024, 4096, 12288>>

\* What may stand before a file: byte-order marks, blanks, padding, headers of other wrappings.
Leads == <<P(<<239, 187, 191>>), P(<<254, 255>>), P(<<255, 254>>), P(<<32>>), P(<<10>>), P(<<13, 10>>), P(<<9>>), P(<<32, 32, 32, 32>>), P(<<0>>), Z(2), Z(4), Z(8), Z(16), Z(32),
           Z(64), Z(128), Z(256), Z(512), Z(1024), Z(2048), Z(4096), R(<<255>>, 4), R(<<255>>, 512), R(<<32>>, 512), Q("data:"), Q("#!"), Q("--"), Q("<!---->"),
           P(<<31, 139, 8>>), P(<<0, 5, 22, 7>>), P(<<239, 187, 191, 123>>), P(<<239, 187, 191, 10>>), P(<<10, 10>>), P(<<27>>), P(<<4, 34, 77, 24>>), Q("HTTP/1.1 200 OK")>>

(***************************************************************************)
(* MP4                                                                     *)
(***************************************************************************)
MpDecisive == {S("vide"), S("soun"), S("sbtl"), S("subt"), S("text")}
MpHandlerWords == WordList(<<
  "hint", "meta", "auxv", "clcp", "tmcd", "subp", "pict", "mdir", "mdta", "alis", "url ", "odsm", "sdsm", "crsm", "m7sm", "ocsm",
  "ipsm", "mjsm", "mp7t", "mp7b", "fdsm", "tx3g", "wvtt", "stpp", "c608", "c708", "null", "dhlr", "mhlr", "camm", "volv", "hapt",
  "data", "skip", "nrtm", "GPS ", "priv", "ID32", "3dsd", "vplp", "audi", "titl", "subs", "capt", "mpeg", "musi", "twen", "qd3d",
  "sprt", "strm", "tbas", "imag", "mp4v", "mp4a", "avc1", "hvc1", "Soun", "Vide", "VIDE", "SOUN", "SBTL", "SUBT", "TEXT", "Text" >>)
MpHandlers == ListOf((ToSet(MpHandlerWords) \union UNION {SameLength(w) : w \in MpDecisive}) \ MpDecisive)
MpBoxes == WordList(<<
  "ftyp", "styp", "mvhd", "iods", "tkhd", "tref", "edts", "elst", "mdhd", "elng", "minf", "vmhd", "smhd", "hmhd", "nmhd", "sthd",
  "gmhd", "dinf", "dref", "stbl", "stsd", "stts", "ctts", "stsc", "stsz", "stco", "co64", "stss", "udta", "meta", "ilst", "mvex",
  "mehd", "trex", "moof", "mfhd", "traf", "tfhd", "trun", "mfra", "tfra", "skip", "free", "wide", "pnot", "pdin", "uuid", "xml ",
  "bxml", "iloc", "ipro", "sinf", "frma", "schm", "schi", "iinf", "pitm", "iref", "idat", "iprp", "ipco", "sidx", "ssix", "prft",
  "emsg", "cmov", "dcom", "cmvd", "rmra", "rmda", "clip", "matt", "load", "imap", "tapt", "cprt", "name", "hnti", "hinf", "strk",
  "strd", "trgr", "grpl", "jp2h", "junk", "PICT", "mdat", "imda", "hdlx", "MOOV", "mdib" >>)

(***************************************************************************)
(* EBML                                                                    *)
(***************************************************************************)
EbIds == Hexes(<<
  "42f2", "42f3", "4285", "4281", "4283", "4284", "114d9b74", "4dbb", "53ab", "53ac", "1549a966", "73a4", "7ba9", "4d80", "5741",
  "2ad7b1", "4489", "4461", "a7", "ab", "a3", "a0", "a1", "75a1", "a6", "ee", "a5", "9b", "fb", "af", "73c5", "b9", "88", "55aa",
  "55ab", "55ac", "9c", "6de7", "6df8", "23e383", "536e", "22b59c", "63a2", "258688", "7446", "3a9697", "26b240", "aa", "6fab",
  "56aa", "56bb", "6624", "9a", "9d", "53b9", "53c0", "ba", "54b0", "54ba", "54aa", "54b2", "54b3", "2eb524", "55b0", "55b1",
  "7670", "7671", "b5", "78b5", "9f", "6264", "e2", "e3", "e4", "e5", "e9", "c0", "c6", "c4", "6d80", "6240", "5031", "5032",
  "5033", "5034", "4254", "1c53bb6b", "bb", "b3", "b7", "f7", "f1", "1941a469", "61a7", "467e", "466e", "4660", "465c", "1043a770",
  "45b9", "45bc", "b6", "73c4", "91", "92", "80", "85", "1254c367", "7373", "63c0", "68ca", "67c8", "45a3", "4487", "1b538667", "ea", "bf", "ec" >>)
EbCodecWords == WordList(<<
  "B_VOBBTN", "D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "V", "A", "S", "_V", "V-", "A/", "S ", "VP9", "AAC", "H264", "T_", "M_", "C_", "I_", "SRT", "V-VP8", "XV_VP8" >>)
EbCodecs == ListOf((ToSet(EbCodecWords) \union NearWords(S("A_")) \union NearWords(S("V_")) \union NearWords(S("S_"))) \ {S("A_"), S("V_"), S("S_")})
EbDocs == ListOf((NearWords(S("webm")) \union NearWords(S("matroska")) \union ToSet(WordList(<<"mkv", "mka", "divx", "WebM", "Matroska", "ebml", "mk3d", "matro", "web">>)))
                 \ {S("webm"), S("matroska")})

(***************************************************************************)
(* ASF                                                                     *)
(***************************************************************************)
AsIds == Guids(<<
  "75b22630-668e-11cf-a6d9-00aa0062ce6c", "75b22636-668e-11cf-a6d9-00aa0062ce6c", "33000890-e5b1-11cf-89f4-00a0c90349cb",
  "d6e229d3-35da-11d1-9034-00a0c90349be", "feb103f8-12ad-4c64-840f-2a1d2f7ad48c", "3cb73fd0-0c4a-4803-953d-edf7b6228f0c",
  "8cabdca1-a947-11cf-8ee4-00c00c205365", "5fbf03b5-a92e-11cf-8ee3-00c00c205365", "86d15240-311d-11d0-a3a4-00a0c90348f6",
  "1efb1a30-0b62-11d0-a39b-00a0c90348f6", "f487cd01-a951-11cf-8ee6-00c00c205365", "d6e229dc-35da-11d1-9034-00a0c90349be",
  "75b22633-668e-11cf-a6d9-00aa0062ce6c", "7bf875ce-468d-11d1-8d82-006097c9a2b2", "2211b3fa-bd23-11d2-b4b7-00a0c955fc6e",
  "2211b3fb-bd23-11d2-b4b7-00a0c955fc6e", "298ae614-2622-4c17-b935-dae07ee9289c", "1806d474-cadf-4509-a4ba-9aabcb96aae8",
  "14e6a5cb-c672-4332-8399-a96952065b5a", "a08649cf-4775-4670-8a16-6e35357566cd", "d1465a40-5a79-4338-b71b-e36b8fd6c249",
  "d4fed15b-88d3-454f-81f0-ed5c45999e24", "a69609e6-517b-11d2-b6af-00c04fd908e9", "7c4346a9-efe0-4bfc-b229-393ede415c85",
  "c5f8cbea-5baf-4877-8467-aa8c44fa4cca", "44231c94-9498-49d1-a141-1d134e457054", "d6e22a00-35da-11d1-9034-00a0c90349be",
  "d6e22a01-35da-11d1-9034-00a0c90349be", "26f18b5d-4584-47ec-9f5f-0e651f0452c9", "43058533-6981-49e6-9b74-ad12cb86d58c",
  "d2d0a440-e307-11d2-97f1-00a0c95ea851", "abd3d211-a9ba-11cf-8ee6-00c00c205365" >>)
AsTypes == Guids(<<
  "59dacfc0-59e6-11d0-a3ac-00a0c90348f6", "b61be100-5b4e-11cf-a8fd-00805f5c442b", "35907de0-e415-11cf-a917-00805f5c442b",
  "91bd222c-f21c-497a-8b6d-5aa86bfc0185", "3afb65e2-47ef-40f2-ac2c-70a90d71d343", "82f38a70-8eca-11d0-9cb6-00a0c9034998",
  "776257d4-c627-41cb-8f81-7ac7ff1c40cc", "da1e6b13-8359-4050-b398-388e965bf00c", "31178c9d-03e1-4528-b582-3df9db22f503",
  "73646976-0000-0010-8000-00aa00389b71", "73647561-0000-0010-8000-00aa00389b71", "73747874-0000-0010-8000-00aa00389b71",
  "20fb5700-5b55-11cf-a8fd-00805f5c442b", "bfc3cd50-618f-11cf-8bb2-00aa00b4e220", "49f1a440-4ece-11d0-a3ac-00a0c90348f6",
  "00000000-0000-0000-0000-000000000000", "b7dc0791-a9b7-11cf-8ee6-00c00c205365" >>)

(***************************************************************************)
(* RealMedia                                                               *)
(***************************************************************************)
RmTypeWords == WordList(<<
  "PROP", "CONT", "DATA", "INDX", ".RMF", "RJMD", "RMJE", "RMMD", "MLTI", "RVTR", "RJMC", "LIST", "RIFF", ".ra4", "VIDO", "AUDI", "mdpr", "MDP2" >>)
RmMimeWords == WordList(<<
  "logical-audio/x-pn-multirate-realaudio", "logical-video/x-pn-multirate-realvideo", "logical-fileinfo", "application/x-pn-realmedia",
  "application/vnd.rn-realmedia", "image_map/x-pn-realvideo", "syncMM/x-pn-realvideo", "image/vnd.rn-realpix", "text/vnd.rn-realtext",
  "application/x-pn-imagemap", "x-pn-windows-acm", "x-audio/realaudio", "realvideo/x", "movie/", "sound/", "music/" >>)
RmMimeNear == ListOf((ToSet(RmMimeWords) \union NearWords(S("audio/")) \union NearWords(S("video/"))))

(***************************************************************************)
(* Executables                                                             *)
(***************************************************************************)
ExDecisive == {S("LE"), S("LX"), S("NE")}
ExWords == ToSet(WordList(<<"W3", "W4", "MP", "P2", "P3", "BW", "DL", "DX", "HR", "ZM", "VZ", "TE", "PM", "LP", "Ps", "XB", "AX", "MZ", "MQ", "PK", "PW", "LI", "LC", "NX", "PX", "PL", "EL", "EP", "XL", "EN", "SZ", "ZE">>))
ExSigs == ListOf(({w \o <<0, 0>> : w \in (ExWords \union SameLength(S("LE")) \union SameLength(S("LX")) \union SameLength(S("NE"))) \ ExDecisive}
                 \union (SameLength(<<80, 69, 0, 0>>)) \union {w \o <<1, 2>> : w \in ExWords} \union {<<0, 0>> \o w : w \in ExDecisive \union {S("PE")}}
                 \union {<<0>> \o w \o <<0>> : w \in ExDecisive \union {S("PE")}}) \ {<<80, 69, 0, 0>>})

(***************************************************************************)
(* Compound files                                                          *)
(***************************************************************************)
CfIds == Guids(<<
  "00020900-0000-0000-c000-000000000046", "00020901-0000-0000-c000-000000000046", "00020810-0000-0000-c000-000000000047",
  "00020820-0000-0000-c000-000000000047", "00020d0c-0000-0000-c000-000000000046", "0002034b-0000-0000-c000-000000000046",
  "000c1083-0000-0000-c000-000000000046", "0003000c-0000-0000-c000-000000000046", "00020803-0000-0000-c000-000000000046",
  "0002ce02-0000-0000-c000-000000000046", "46e31370-3f7a-11ce-bed6-00aa00611080", "2c144981-c0ce-11ce-bed6-00aa00611080",
  "5cce2e60-c59e-11ce-95aa-00aa00c2e2e2", "00030003-0000-0000-c000-000000000046", "00000000-0000-0000-c000-000000000046",
  "ffffffff-ffff-ffff-ffff-ffffffffffff", "ea7bae70-fb3b-11cd-a903-00aa00510ea3", "28cddbc2-0ae2-11ce-a29a-00aa004a1a72" >>)
CfNameWords == <<"WordDocument", "Workbook", "Book", "PowerPoint Document", "VisioDocument", "Contents", "CONTENTS", "MM", "Quill",
  "__properties_version1.0", "EncryptedPackage", "EncryptionInfo", "DataSpaces", "Root Entry", "ObjectPool", "1Table", "Data",
  "SwDocContentMgrTempStorage", "FileHeader", "BodyText", "Catalog", "WksSSWorkBook1", "MatOST1", "matost", "MATOST", "MatOS", "MatOSU",
  "wkssworkbook", "WksSSWorkBooj", "WksSWorkBook", "WksSSWorkBoo", "xMatOST", "xWksSSWorkBook", "Mat OST", "WordPerfect", "NativeContent_MAIN">>
CfNames == FoldLeft(LAMBDA acc, w : Append(acc, W(w)), <<>>, CfNameWords)

(***************************************************************************)
(* What follows ID3v2 tags                                                 *)
(***************************************************************************)
IdWords == ToSet(WordList(<<"OggS", "RIFF", "MAC ", "wvpk", "TTA1", "ADIF", "APET", "TAG ", "3DI ", "DSD ", "FORM", "fLaB", "FLAC", "ftyp", "MPCK", "MP+ ", "ID4 ", "id3 ", "LAME", "Xing">>))
IdNear == ListOf((IdWords \union SameLength(S("fLaC")) \union {p \o <<102>> : p \in SameLength(<<102, 76, 97>>)}
                  \union {b \o <<67>> : b \in SameLength(<<102, 76, 97>>)}) \ {S("fLaC")})

(***************************************************************************)
(* XML                                                                     *)
(***************************************************************************)
XmRoots == WordList(<<
  "<html", "<plist", "<xs:schema", "<opml", "<wsdl:definitions", "<OpenSearchDescription", "<project", "<manifest", "<resources", "<office:document",
  "<w:document", "<svg:svg", "<atom:feed", "<rdf:RDF", "<soap-env:Envelope", "<SOAP-ENV:Envelope", "<s:Envelope", "<rs", "<sv", "<mat", "<ma", "<km", "<gp",
  "<gm", "<as", "<AS", "<AMF", "<GPX", "<KML", "<RSS", "<Feed", "<FEED", "<Math", "<Svg", "<t", "<TT", "<Map", "<Tileset", "<tilese", "<score-timewise",
  "<score", "<Soap", "<SOAP", "<Xsl", "<XSL", "<mpd", "<Mpd", "<x3d", "<X3d", "<collada", "<Collada", "<fictionbook", "<FictionBoo", "<trainingCenterDatabase",
  "<usfsubtitles", "<XLIFF", "<Playlist", "<mxGraphModel", "<MXFILE", "<abiword", "<abiword template=\"\"", "<abiword template='true'", "<uof:uof",
  "&lt;svg", "<!--svg-->", "<!DOCTYPE svg", "</svg>", "</rss>", "<?rss", "< rss" >>)
==============================================================================
