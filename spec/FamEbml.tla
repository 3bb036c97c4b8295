------------------------------- MODULE FamEbml -------------------------------
(* EBML streams: C17. *)
EXTENDS Scope

\* A size as a variable-length integer of l bytes.
Vint(l, n) ==
    CASE l = 1 -> <<128 + n>>
      [] l = 2 -> <<64 + (n \div 256), n % 256>>
      [] l = 3 -> <<32 + (n \div 65536), (n \div 256) % 256, n % 256>>
      [] l = 4 -> <<16 + (n \div 16777216), (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
      [] l = 5 -> <<8>> \o BE32(n)
      [] l = 6 -> <<4, 0>> \o BE32(n)
      [] l = 7 -> <<2, 0, 0>> \o BE32(n)
      [] l = 8 -> <<1, 0, 0, 0>> \o BE32(n)
\* The unknown size in l bytes.
VUnknown(l) == CASE l = 1 -> <<255>> [] l = 2 -> <<127, 255>> [] l = 3 -> <<63, 255, 255>> [] l = 4 -> <<31, 255, 255, 255>>
                 [] l = 5 -> <<15, 255, 255, 255, 255>> [] l = 6 -> <<7, 255, 255, 255, 255, 255>>
                 [] l = 7 -> <<3, 255, 255, 255, 255, 255, 255>> [] l = 8 -> <<1, 255, 255, 255, 255, 255, 255, 255>>
\* The shortest size.
VintMin(n) == Vint(IF n < 127 THEN 1 ELSE IF n < 16383 THEN 2 ELSE IF n < 2097151 THEN 3 ELSE 4, n)

IdHead == <<26, 69, 223, 163>>
IdSegment == <<24, 83, 128, 103>>
IdTracks == <<22, 84, 174, 107>>
IdEntry == <<174>>
IdVideo == <<224>>
IdDocType == <<66, 130>>
IdCodec == <<134>>
IdStereo == <<83, 184>>
IdCluster == <<31, 67, 182, 117>>
\* Elements without a meaning: Void, CRC-32, SeekHead, Info, TrackNumber, TrackType, Audio, PixelWidth, Cues,
\* EBMLVersion, DocTypeVersion, Name, and unknown ones of every id length.
Others == << <<236>>, <<191>>, <<17, 77, 155, 116>>, <<21, 73, 169, 102>>, <<215>>, <<131>>, <<225>>, <<176>>,
             <<28, 83, 187, 107>>, <<66, 134>>, <<66, 135>>, <<83, 110>>, <<64, 0>>, <<127, 255>>, <<32, 0, 1>>,
             <<63, 255, 255>>, <<16, 0, 0, 0>>, <<31, 255, 255, 255>>, <<128>>, <<255>>,
             \* ids sharing bytes with the ones that matter
             <<66, 131>>, <<67, 130>>, <<83, 185>>, <<84, 184>>, <<135>>, <<133>>, <<31, 67, 182, 118>>, <<63, 67, 182>>,
             <<22, 84, 174, 108>>, <<24, 83, 128, 104>>, <<175>>, <<173>>, <<33, 83, 184>>, <<32, 66, 130>> >> \o EbIds

Elem(id, data) == P(id \o VintMin(Len(data)) \o data)
ElemL(id, l, data) == P(id \o Vint(l, Len(data)) \o data)
\* A master element that holds the following n bytes.
Mast(id, n) == P(id \o VintMin(n))
Str == [webm |-> <<119, 101, 98, 109>>, matroska |-> <<109, 97, 116, 114, 111, 115, 107, 97>>]
PiecesLen(ps) == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, ps)
Master(id, ps) == <<Mast(id, PiecesLen(ps))>> \o ps
Header(doc) == Master(IdHead, <<Elem(<<66, 134>>, <<1>>), Elem(IdDocType, doc), Elem(<<66, 135>>, <<4>>)>>)
Mkv(tracks) == Header(Str.matroska) \o Master(IdSegment, Master(IdTracks, tracks))

\* Items of a track list, as they occur in the alphabet of "ebm.seq":
\* A, V, S: codec of that kind; X: another codec; 0, 1: stereo mode; K: cluster; U: unknown element; E: new track entry;
\* T: new list of tracks; G: new segment; H: new header; D: new header of a document that is not known; W: of a WebM one
Codec == [A |-> <<65, 95, 79, 80, 85, 83>>, V |-> <<86, 95, 86, 80, 57>>,
          S |-> <<83, 95, 84, 69, 88, 84, 47, 85, 84, 70, 56>>, X |-> <<66, 95, 86, 79, 66, 66, 84, 78>>]
ItemPieces(x) ==
    CASE x \in {"A", "V", "S", "X"} -> <<Elem(IdCodec, Codec[x])>>
      [] x = "0" -> Master(IdVideo, <<Elem(IdStereo, <<0>>)>>)
      [] x = "1" -> Master(IdVideo, <<Elem(<<176>>, <<2, 128>>), Elem(IdStereo, <<11>>)>>)
      [] x = "K" -> <<Elem(IdCluster, <<231, 129, 0>>)>>
      [] x = "U" -> <<Elem(<<236>>, <<134, 130, 86, 95>>)>>   \* Void hiding a codec
      [] x = "E" -> <<P(IdEntry \o VUnknown(1))>>
      [] x = "T" -> <<P(IdTracks \o VUnknown(1))>>
      [] x = "G" -> <<P(IdSegment \o VUnknown(8))>>
      [] x = "H" -> Header(Str.matroska)
      [] x = "D" -> Header(<<97, 98, 99, 100>>)
      [] x = "W" -> Header(Str.webm)
\* The format of a Matroska stream with these items.
ItemsMean(xs) ==
    LET k == SelectInSeq(xs, LAMBDA x : x = "K")
        seen == IF k = 0 THEN xs ELSE SubSeq(xs, 1, k - 1)
        has(x) == \E i \in DOMAIN seen : seen[i] = x
        last == SelectInSeq(seen, LAMBDA x : x \in {"1", "D", "W"})
    IN  IF last > 0 /\ seen[last] = "W" THEN "Webm"
        ELSE IF last > 0 /\ seen[last] = "D" THEN "ExtensibleBinaryMetaLanguage"
        ELSE IF last > 0 THEN "Matroska3dVideo"
        ELSE IF has("V") THEN "MatroskaVideo"
        ELSE IF has("A") THEN "MatroskaAudio"
        ELSE IF has("S") THEN "MatroskaSubtitles" ELSE "ExtensibleBinaryMetaLanguage"
Alphabet == {"A", "V", "S", "X", "0", "1", "K", "U", "E"}
WideAlphabet == Alphabet \union {"T", "G", "H", "D", "W"}
SeqCode(xs) == FoldLeft(LAMBDA a, x : (a * 17 + (CASE x = "K" -> 1 [] x = "V" -> 2 [] x = "S" -> 4 [] x = "A" -> 5 [] x = "1" -> 6 [] x = "0" -> 7
                                                   [] x = "T" -> 9 [] x = "G" -> 10 [] x = "H" -> 11 [] x = "D" -> 12 [] x = "W" -> 13 [] OTHER -> 8)) % 65521, 1, xs)

\* Kinds of cases:
\* ebm.seq    sequences of items
\* ebm.doc    document types
\* ebm.vint   size of l bytes for element p
\* ebm.unk    unknown sizes of l bytes for the masters
\* ebm.other  unknown elements a of size n in position p
\* ebm.codec  codec ids of n bytes starting with kind a
\* ebm.stereo stereo mode of n bytes with byte i set to v
\* ebm.many   n elements before the decisive one
\* ebm.more   sequences with more lists of tracks, segments and headers
\* ebm.cword  codec ids near the decisive ones
\* ebm.dword  document types near the known ones
\* ebm.raw    sequences of elements right from the start, with nothing around them
DocTypes == << <<>>, <<109>>, <<119, 101, 98, 110>>, <<119, 101, 98>>, <<87, 69, 66, 77>>, <<109, 97, 116, 114, 111, 115, 107>>,
               <<109, 97, 116, 114, 111, 115, 107, 98>>, <<77, 97, 116, 114, 111, 115, 107, 97>>,
               <<0, 119, 101, 98, 109>>, <<120, 119, 101, 98, 109>>, <<32, 119, 101, 98, 109>>, <<97, 98, 99, 100, 101, 102, 103, 104, 105, 106>>,
               <<120, 109, 97, 116, 114, 111, 115, 107, 97>> >>
Tracked(a) == <<P(IdEntry \o VUnknown(1)), Elem(IdCodec, Codec[a])>>
\* Elements at any place: M, W, D: document types; G, T, E, I: segment, tracks, entry, video, of unknown size.
RawItems == {"M", "W", "D", "G", "T", "E", "I", "A", "V", "S", "1", "0", "K", "L", "U"}
RawNum == [M |-> 1, W |-> 2, D |-> 3, G |-> 4, T |-> 5, E |-> 6, I |-> 7, A |-> 8, V |-> 9, S |-> 10, K |-> 11, L |-> 12, U |-> 13]
RawCode(xs) == FoldLeft(LAMBDA a, x : (a * 19 + (IF x \in {"0", "1"} THEN 14 ELSE RawNum[x])) % 65521, 1, xs)
RawPieces(x) ==
    CASE x = "M" -> <<Elem(IdDocType, Str.matroska)>>
      [] x = "W" -> <<Elem(IdDocType, Str.webm)>>
      [] x = "D" -> <<Elem(IdDocType, <<97, 98, 99, 100>>)>>
      [] x = "G" -> <<P(IdSegment \o VUnknown(8))>>
      [] x = "I" -> <<P(IdVideo \o VUnknown(1))>>
      [] x = "0" -> <<Elem(IdStereo, <<0>>)>>
      [] x = "1" -> <<Elem(IdStereo, <<1>>)>>
      [] x = "L" -> <<P(IdCluster \o VUnknown(8))>>
      [] OTHER -> ItemPieces(x)
RawMean(xs) == ItemsMean([i \in DOMAIN xs |-> IF xs[i] = "L" THEN "K" ELSE xs[i]])
EbmlCases(k) ==
    CASE k = "ebm.seq" ->
           {c \in [fam : {"ebm"}, k : {k}, xs : UNION {[1..n -> Alphabet] : n \in 0..5}] :
               Len(c.xs) <= 3 \/ (Thorough /\ (Len(c.xs) <= 4 \/ Sampled(SeqCode(c.xs), 4)))
                 \/ (Len(c.xs) = 4 /\ Sampled(SeqCode(c.xs), 4))}
      [] k = "ebm.more" ->
           {c \in [fam : {"ebm"}, k : {k}, xs : UNION {[1..n -> WideAlphabet] : n \in 1..4}] :
               /\ \E i \in DOMAIN c.xs : c.xs[i] \notin Alphabet
               /\ \/ Len(c.xs) <= 2
                  \/ Len(c.xs) = 3 /\ (Thorough \/ Sampled(SeqCode(c.xs), 2) \/ "T" \in ToSet(c.xs) \/ "G" \in ToSet(c.xs))
                  \/ Len(c.xs) = 4 /\ Sampled(SeqCode(c.xs), IF Thorough THEN 2 ELSE 16)}
      [] k = "ebm.raw" ->
           {c \in [fam : {"ebm"}, k : {k}, xs : UNION {[1..n -> RawItems] : n \in 0..4}] :
              \/ Len(c.xs) <= 2
              \/ Len(c.xs) = 3 /\ (Thorough \/ Sampled(RawCode(c.xs), 2))
              \/ Len(c.xs) = 4 /\ Sampled(RawCode(c.xs), IF Thorough THEN 2 ELSE 16)}
      [] k = "ebm.cword" -> [fam : {"ebm"}, k : {k}, a : DOMAIN EbCodecs, p : 0..1]
      [] k = "ebm.dword" -> [fam : {"ebm"}, k : {k}, a : DOMAIN EbDocs, p : 0..1]
      [] k = "ebm.doc" ->
           [fam : {"ebm"}, k : {k}, a : {0}, n : DOMAIN DocTypes, p : {0}, q : {"A", "V"}]
           \union [fam : {"ebm"}, k : {k}, a : 1..2, n : 0..9, p : 0..2, q : {"A", "V"}]
      [] k = "ebm.vint" -> [fam : {"ebm"}, k : {k}, l : 1..8, p : 0..7]
      [] k = "ebm.unk" -> [fam : {"ebm"}, k : {k}, l : 1..8, p : 0..5]
      [] k = "ebm.other" ->
           {c \in [fam : {"ebm"}, k : {k}, a : DOMAIN Others, n : {0, 1, 126, 127, 128, 5000, 16382, 16383, 16384, 70000}, p : 0..3, l : {0, 4, 8}] :
               Thorough \/ c.l = 0 \/ Sampled(c.a * 1024 + c.n * 4 + c.p, 8)}
      [] k = "ebm.codec" ->
           [fam : {"ebm"}, k : {k}, a : {"A", "V", "S", "X"}, n : {0, 1, 2, 3, 63, 64, 65, 66, 127, 128, 16384}, q : {"A", "V", "S", "X"}]
      [] k = "ebm.stereo" ->
           {c \in [fam : {"ebm"}, k : {k}, n : 0..8, i : 0..8, v : {1, 14, 128, 255}] : c.i <= c.n /\ (c.i > 0 \/ c.v = 1)}
      [] k = "ebm.many" ->
           [fam : {"ebm"}, k : {k}, n : {1, 100, 240, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 2000}, p : 0..3]
      [] k = "ebm.base" -> [fam : {"ebm"}, k : {k}, n : 0..10]

EbmlPieces(c) ==
    CASE c.k \in {"ebm.seq", "ebm.more"} -> Mkv(FlattenSeq([i \in DOMAIN c.xs |-> ItemPieces(c.xs[i])]))
      [] c.k = "ebm.raw" -> <<P(IdHead \o VUnknown(1))>> \o FlattenSeq([i \in DOMAIN c.xs |-> RawPieces(c.xs[i])])
      [] c.k = "ebm.cword" ->
           Mkv((IF c.p = 1 THEN <<Elem(IdCodec, Codec.S)>> ELSE <<>>) \o <<Elem(IdCodec, EbCodecs[c.a] \o (IF c.p = 1 THEN <<88, 95>> ELSE <<>>))>>)
      [] c.k = "ebm.dword" -> Header(EbDocs[c.a] \o (IF c.p = 1 THEN <<0>> ELSE <<>>)) \o Master(IdSegment, Master(IdTracks, Tracked("A")))
      [] c.k = "ebm.doc" ->
           LET d == IF c.a = 0 THEN DocTypes[c.n] ELSE IF c.a = 1 THEN Str.webm ELSE Str.matroska
               full == IF c.a = 0 THEN d ELSE d \o [i \in 1..c.n |-> 0]
               h == CASE c.p = 0 -> <<Elem(IdDocType, full)>>
                      [] c.p = 1 -> <<Elem(<<66, 134>>, <<1>>), Elem(<<236>>, <<66, 130, 132, 119, 101, 98, 109>>), Elem(IdDocType, full)>>
                      [] c.p = 2 -> <<ElemL(IdDocType, 4, full), Elem(<<66, 242>>, <<4>>)>>
           IN  Master(IdHead, h) \o Master(IdSegment, Master(IdTracks, Tracked(c.q)))
      [] c.k = "ebm.vint" ->
           LET l(p) == IF c.p = p \/ c.p = 7 THEN c.l ELSE 2
               mast(p, id, ps) == <<P(id \o Vint(l(p), PiecesLen(ps)))>> \o ps
           IN  mast(0, IdHead, <<ElemL(<<66, 134>>, l(1), <<1>>), ElemL(IdDocType, l(2), Str.matroska)>>)
               \o mast(3, IdSegment, <<ElemL(<<21, 73, 169, 102>>, l(1), <<1, 2, 3>>)>>
                    \o mast(4, IdTracks, mast(4, IdEntry, <<ElemL(IdCodec, l(5), Codec.A)>>)
                       \o mast(4, IdEntry, <<ElemL(IdCodec, l(5), Codec.S)>> \o mast(6, IdVideo, <<ElemL(IdStereo, l(6), <<0>>)>>)
                       \o <<ElemL(IdCodec, l(5), Codec.V)>>)))
               \o <<ElemL(IdCluster, l(1), <<1>>)>>
      [] c.k = "ebm.unk" ->
           LET mast(p, id, ps) == IF c.p = p \/ c.p = 5 THEN <<P(id \o VUnknown(c.l))>> \o ps ELSE Master(id, ps)
           IN  mast(0, IdHead, <<Elem(IdDocType, Str.matroska)>>)
               \o mast(1, IdSegment, mast(2, IdTracks, mast(3, IdEntry, <<Elem(IdCodec, Codec.S)>>
                                                          \o mast(4, IdVideo, <<Elem(IdStereo, <<0>>)>>)
                                                          \o <<Elem(IdCodec, Codec.A)>>))
                               \o <<P(IdCluster \o VUnknown(c.l)), P(<<1, 2, 3>>)>>)
      [] c.k = "ebm.other" ->
           LET u == <<P(Others[c.a] \o (IF c.l = 0 THEN VintMin(c.n) ELSE Vint(c.l, c.n))),
                      R(<<134, 132, 86, 95, 83, 184, 129, 1>>, c.n \div 8), Z(c.n % 8)>>
               at(p) == IF c.p = p THEN u ELSE <<>>
           IN  Master(IdHead, at(0) \o <<Elem(IdDocType, Str.matroska)>>)
               \o Master(IdSegment, at(1) \o Master(IdTracks, at(2) \o Master(IdEntry, at(3) \o <<Elem(IdCodec, Codec.A)>>)))
      [] c.k = "ebm.codec" ->
           Mkv(<<P(IdCodec \o VintMin(c.n)), P(SubSeq(Codec[c.a], 1, Min2(c.n, 2))), R(<<95, 65>>, Max2(0, c.n - 2) \div 2),
                 Z(Max2(0, c.n - 2) % 2), Elem(IdCodec, Codec[c.q])>>)
      [] c.k = "ebm.stereo" ->
           Mkv(<<Elem(IdCodec, Codec.A)>> \o Master(IdVideo, <<Elem(IdStereo, [j \in 1..c.n |-> IF j = c.i THEN c.v ELSE 0])>>)
               \o <<Elem(IdCodec, Codec.V)>>)
      [] c.k = "ebm.many" ->
           \* header: 4 elements, segment and tracks: 2
           LET void == R(<<236, 129, 86>>, c.n)
           IN  (CASE c.p = 0 -> Mkv(<<void, Elem(IdCodec, Codec.V)>>)
                  [] c.p = 1 -> Mkv(<<Elem(IdCodec, Codec.A), void, Elem(IdCodec, Codec.V)>>)
                  [] c.p = 2 -> Mkv(<<Elem(IdCodec, Codec.A), void>> \o Master(IdVideo, <<Elem(IdStereo, <<1>>)>>))
                  [] c.p = 3 -> Master(IdHead, <<void, Elem(IdDocType, Str.webm)>>))
      [] c.k = "ebm.base" ->
           CASE c.n = 0 -> Mkv(<<>>)
             [] c.n = 1 -> Mkv(Tracked("A"))
             [] c.n = 2 -> Mkv(Tracked("S") \o Tracked("V"))
             [] c.n = 3 -> Mkv(Tracked("S"))
             [] c.n = 4 -> Header(Str.webm) \o Master(IdSegment, <<>>)
             [] c.n = 5 -> Header(<<97, 98, 99>>)
             [] c.n = 6 -> Mkv(Tracked("V") \o Master(IdVideo, <<Elem(IdStereo, <<1>>)>>) \o <<Elem(IdCluster, <<1>>)>>)
             [] c.n = 7 -> Mkv(<<R(<<236, 129, 86>>, 40000), Elem(IdCodec, Codec.V)>>)
             [] c.n = 8 -> Mkv(<<P(<<236>> \o Vint(8, 60000)), R(<<1, 2, 3, 4, 5, 6>>, 10000), Elem(IdCodec, Codec.S)>>)
             [] c.n = 9 -> Mkv(<<Elem(IdCluster, <<1>>), Elem(IdCodec, Codec.V)>>)
             [] c.n = 10 -> Mkv(<<P(IdCodec \o VintMin(9000)), P(<<83, 95>>), R(<<65>>, 8998), Elem(IdCodec, Codec.A)>>)
EbmlEnc(c) == Stream(EbmlPieces(c))

EbmlMeaning(c) ==
    CASE c.k \in {"ebm.seq", "ebm.more"} -> ItemsMean(c.xs)
      [] c.k = "ebm.raw" -> RawMean(c.xs)
      [] c.k = "ebm.cword" ->
           LET b == EbCodecs[c.a]
               hit == IF Len(b) < 2 THEN "" ELSE LET t == SubSeq(b, 1, 2) IN
                      CASE t = SubSeq(Codec.A, 1, 2) -> "A" [] t = SubSeq(Codec.V, 1, 2) -> "V" [] t = SubSeq(Codec.S, 1, 2) -> "S" [] OTHER -> ""
           IN  IF Len(b) < 2 /\ c.p = 1 THEN "any"
               ELSE ItemsMean((IF c.p = 1 THEN <<"S">> ELSE <<>>) \o (IF hit = "" THEN <<>> ELSE <<hit>>))
      [] c.k = "ebm.dword" ->
           LET b == EbDocs[c.a]
               begins(w) == Len(b) >= Len(w) /\ SubSeq(b, 1, Len(w)) = w
           IN  IF begins(Str.webm) THEN "Webm" ELSE IF begins(Str.matroska) THEN "MatroskaAudio" ELSE "ExtensibleBinaryMetaLanguage"
      [] c.k = "ebm.doc" -> IF c.a = 0 THEN "ExtensibleBinaryMetaLanguage" ELSE IF c.a = 1 THEN "Webm"
                            ELSE IF c.q = "A" THEN "MatroskaAudio" ELSE "MatroskaVideo"
      [] c.k = "ebm.vint" -> "MatroskaVideo"
      [] c.k = "ebm.unk" -> "MatroskaAudio"
      [] c.k = "ebm.other" -> "MatroskaAudio"
      [] c.k = "ebm.codec" ->
           IF c.n >= 2 THEN ItemsMean(<<c.a, c.q>>) ELSE ItemsMean(<<c.q>>)
      [] c.k = "ebm.stereo" -> IF c.i > 0 THEN "Matroska3dVideo" ELSE "MatroskaVideo"
      [] c.k = "ebm.many" ->
           LET fits(before) == before + c.n < 256
           IN  (CASE c.p = 0 -> IF fits(6) THEN "MatroskaVideo" ELSE "ExtensibleBinaryMetaLanguage"
                  [] c.p = 1 -> IF fits(7) THEN "MatroskaVideo" ELSE "MatroskaAudio"
                  [] c.p = 2 -> IF fits(8) THEN "Matroska3dVideo" ELSE "MatroskaAudio"
                  [] c.p = 3 -> IF fits(1) THEN "Webm" ELSE "ExtensibleBinaryMetaLanguage")
      [] OTHER -> "any"
=============================================================================
