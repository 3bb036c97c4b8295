-------------------------------- MODULE FamMp4 --------------------------------
(* MP4 streams: C18. *)
EXTENDS Scope

\* Boxes with a 32-bit or (x) a 64-bit size.
Box(type, n, x) == IF x THEN P(<<0, 0, 0, 1>> \o type \o BE64(n + 16)) ELSE P(BE32(n + 8) \o type)
BLen(ps) == FoldLeft(LAMBDA a, p : a + Len(p.b) * p.r, 0, ps)
Boxed(type, ps, x) == <<Box(type, BLen(ps), x)>> \o ps
T_ftyp == <<102, 116, 121, 112>>
T_free == <<102, 114, 101, 101>>
T_mdat == <<109, 100, 97, 116>>
T_tkhd == <<116, 107, 104, 100>>
T_mdhd == <<109, 100, 104, 100>>
T_minf == <<109, 105, 110, 102>>
T_mvhd == <<109, 118, 104, 100>>
T_udta == <<117, 100, 116, 97>>
T_uuid == <<117, 117, 105, 100>>
\* The brands of the signature table.
Mp4Alts == SelectSeq([i \in 1..Len(Alts) |-> i], LAMBDA i : Alts[i].f = "Mpeg4Part14")
BrandOf(i) == Alts[Mp4Alts[i]].p[1].b
Ftyp(i) == LET b == BrandOf(i)
               pad == IF Len(b) < 8 THEN SubSeq(<<32, 32, 32, 32>>, 1, 8 - Len(b)) ELSE <<>>
           IN  P(<<0, 0, 0, 20>> \o b \o pad \o <<0, 0, 2, 0, 105, 115, 111, 54>>)
Mvhd(n) == <<Box(T_mvhd, n, FALSE), R(<<118, 105, 100, 101>>, n \div 4)>>
Handlers == [V |-> <<118, 105, 100, 101>>, A |-> <<115, 111, 117, 110>>, S |-> <<115, 98, 116, 108>>,
             T |-> <<116, 101, 120, 116>>, B |-> <<115, 117, 98, 116>>, H |-> <<104, 105, 110, 116>>,
             M |-> <<109, 101, 116, 97>>, N |-> <<0, 0, 0, 0>>, W |-> <<86, 73, 68, 69>>]
Hdlr(h, n, x) == <<Box(<<104, 100, 108, 114>>, 12 + n, x), P(<<0, 0, 0, 0, 1, 2, 3, 4>> \o Handlers[h]), R(<<0>>, n)>>
\* x: which boxes have 64-bit sizes
Trak(h, n, x) ==
    Boxed(<<116, 114, 97, 107>>,
          <<Box(T_tkhd, 84, "tkhd" \in x), Z(84)>>
          \o Boxed(<<109, 100, 105, 97>>,
                   <<Box(T_mdhd, 24, "mdhd" \in x), Z(24)>> \o Hdlr(h, n, "hdlr" \in x)
                   \o <<Box(T_minf, 40, "minf" \in x), R(<<104, 100, 108, 114>>, 10)>>, "mdia" \in x),
          "trak" \in x)
Moov(hs, n, x) == Boxed(<<109, 111, 111, 118>>, Mvhd(100) \o FlattenSeq([i \in DOMAIN hs |-> Trak(hs[i], n, x)]), "moov" \in x)
HandlersMean(hs) ==
    LET has(S_x) == \E i \in DOMAIN hs : hs[i] \in S_x
    IN  IF has({"V"}) THEN "Mpeg4Part14Video" ELSE IF has({"A"}) THEN "Mpeg4Part14Audio"
        ELSE IF has({"S", "T", "B"}) THEN "Mpeg4Part14Subtitles" ELSE "Mpeg4Part14"

\* Kinds of cases:
\* mp4.seq    handlers of up to four tracks, p: layout of the file
\* mp4.brand  all brands
\* mp4.ext    64-bit sizes in any set of boxes
\* mp4.size   handler box with n more bytes; unknown boxes of size n
\* mp4.many   n boxes before the track
\* mp4.hide   handlers in boxes that are not entered
\* mp4.zero   last box with size 0 (to the end of the file)
\* mp4.near   handler and box types next to the ones that matter
\* mp4.reg    handler types that decide nothing: registered ones, variants of the decisive ones
\* mp4.box    registered boxes with a handler inside, n bytes behind their header, at place p
\* mp4.head   fields of a handler box and of its neighbours
\* mp4.raw    boxes in any order, containers holding all that follows them
\* mp4.tkhd   fields of the track header before the handler
HNames == {"V", "A", "S", "T", "B", "H", "M", "N", "W"}
XSets == {{}, {"moov"}, {"trak"}, {"mdia"}, {"hdlr"}, {"tkhd"}, {"mdhd"}, {"mdat"}, {"free"}, {"minf"},
          {"moov", "trak", "mdia", "hdlr"}, {"moov", "trak", "mdia", "hdlr", "tkhd", "mdhd", "mdat", "free", "minf"},
          {"hdlr", "mdat"}, {"moov", "mdat"}}
XTab == SetToSeq(XSets)
Near == << <<104, 100, 108, 115>>, <<72, 68, 76, 82>>, <<104, 100, 108, 0>>, <<0, 100, 108, 114>>, <<114, 108, 100, 104>> >>
NearMaster == << <<109, 111, 111, 102>>, <<109, 111, 111, 117>>, <<116, 114, 97, 102>>, <<109, 100, 105, 98>>, <<77, 79, 79, 86>>,
                 T_udta, T_uuid, T_free, T_mdat, T_minf >>
\* o, t, d: containers, with 32-bit or (O, T, D) 64-bit sizes; k, f, m, e: track header, free space, media data, edit list
RawBoxes == {"o", "t", "d", "O", "D", "V", "A", "S", "H", "k", "f", "m", "e"}
RECURSIVE RawTree(_)
RawTree(xs) ==
    IF xs = <<>> THEN <<>>
    ELSE LET rest == RawTree(Tail(xs))
             c == <<109, 111, 111, 118>>
             x == Head(xs)
         IN  CASE x \in {"o", "O"} -> Boxed(<<109, 111, 111, 118>>, rest, x = "O")
               [] x = "t" -> Boxed(<<116, 114, 97, 107>>, rest, FALSE)
               [] x \in {"d", "D"} -> Boxed(<<109, 100, 105, 97>>, rest, x = "D")
               [] x \in {"V", "A", "S", "H"} -> Hdlr(x, 3, FALSE) \o rest
               [] x = "k" -> <<Box(T_tkhd, 84, FALSE), Z(84)>> \o rest
               [] x = "f" -> <<Box(T_free, 4, FALSE), Z(4)>> \o rest
               [] x = "m" -> <<Box(T_mdat, 12, TRUE), R(<<118, 105, 100, 101>>, 3)>> \o rest
               [] x = "e" -> <<Box(<<101, 100, 116, 115>>, 20, FALSE), Box(<<104, 100, 108, 114>>, 12, FALSE), P(<<0, 0, 0, 0, 0, 0, 0, 0, 118, 105, 100, 101>>)>> \o rest
RawHash(xs) == FoldLeft(LAMBDA a, x : (a * 23 + (CASE x = "o" -> 1 [] x = "t" -> 2 [] x = "d" -> 3 [] x = "O" -> 4 [] x = "D" -> 5 [] x = "V" -> 6 [] x = "A" -> 7 [] x = "S" -> 8 [] x = "H" -> 9
                                                   [] x = "k" -> 10 [] x = "f" -> 11 [] x = "m" -> 12 [] OTHER -> 13)) % 65521, 1, xs)
Mp4Cases(k) ==
    CASE k = "mp4.seq" ->
           {c \in [fam : {"mp4"}, k : {k}, hs : UNION {[1..n -> HNames] : n \in 0..(IF Thorough THEN 4 ELSE 3)}, p : 0..3] :
               \/ Len(c.hs) <= 1
               \/ Len(c.hs) = 2 /\ (Thorough \/ c.p \in {0, 1})
               \/ Len(c.hs) = 3 /\ (IF Thorough THEN c.p <= 1 ELSE c.p = 0)
               \/ Len(c.hs) = 4 /\ c.p = 0 /\ \A i \in 1..4 : c.hs[i] \in {"V", "A", "S", "H", "T"}}
      [] k = "mp4.brand" -> [fam : {"mp4"}, k : {k}, a : DOMAIN Mp4Alts, h : {"V", "A", "T", "H"}]
      [] k = "mp4.ext" -> [fam : {"mp4"}, k : {k}, x : DOMAIN XTab, p : 0..2, h : {"V", "A", "S"}]
      [] k = "mp4.size" -> [fam : {"mp4"}, k : {k}, n : {0, 1, 12, 13, 255, 256, 8191, 8192, 65535, 65536, 100000}, p : 0..3, x : BOOLEAN]
      [] k = "mp4.many" -> [fam : {"mp4"}, k : {k}, n : {1, 100, 240, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 300, 5000}, p : 0..2]
      [] k = "mp4.hide" -> [fam : {"mp4"}, k : {k}, a : DOMAIN NearMaster, h : {"V", "A"}]
      [] k = "mp4.zero" -> [fam : {"mp4"}, k : {k}, n : {0, 1, 7, 8, 1000}, h : {"V", "A", "S", "H"}]
      [] k = "mp4.near" -> [fam : {"mp4"}, k : {k}, a : DOMAIN Near, h : {"V", "A"}]
      [] k = "mp4.reg" -> [fam : {"mp4"}, k : {k}, a : DOMAIN MpHandlers, p : 0..2]
      [] k = "mp4.box" -> [fam : {"mp4"}, k : {k}, a : DOMAIN MpBoxes, n : {0, 4, 8, 16}, p : 0..3]
      [] k = "mp4.head" -> [fam : {"mp4"}, k : {k}, i : 1..24, v : {1, 32, 118, 255}, h : {"V", "A", "S", "H"}]
      [] k = "mp4.raw" ->
           {c \in [fam : {"mp4"}, k : {k}, hs : UNION {[1..n -> RawBoxes] : n \in 0..4}] :
              \/ Len(c.hs) <= 2
              \/ Len(c.hs) = 3 /\ (Thorough \/ Sampled(RawHash(c.hs), 2))
              \/ Len(c.hs) = 4 /\ Sampled(RawHash(c.hs), IF Thorough THEN 2 ELSE 24)}
      [] k = "mp4.tkhd" -> [fam : {"mp4"}, k : {k}, i : 1..84, v : {1, 2, 8, 14, 255}, h : {"V", "S"}]
                           \union [fam : {"mp4"}, k : {k}, i : {4}, v : 0..40, h : {"V", "A"}]
      [] k = "mp4.base" -> [fam : {"mp4"}, k : {k}, n : 0..9]

Mdat(n, x) == <<Box(T_mdat, n, x), R(<<118, 105, 100, 101>>, n \div 4), Z(n % 4)>>
Free(n, x) == <<Box(T_free, n, x), Z(n)>>
Mp4Pieces(c) ==
    CASE c.k = "mp4.seq" ->
           (CASE c.p = 0 -> <<Ftyp(1)>> \o Moov(c.hs, 1, {}) \o Mdat(40, FALSE)
              [] c.p = 1 -> <<Ftyp(1)>> \o Free(8, FALSE) \o Mdat(100, FALSE) \o Moov(c.hs, 20, {"moov"})
              [] c.p = 2 -> <<Ftyp(1)>> \o Mdat(70000, TRUE) \o Free(0, FALSE) \o Moov(c.hs, 5, {"mdia"}) \o Free(3, TRUE)
              [] c.p = 3 -> <<Ftyp(1)>> \o Moov(<<>>, 0, {}) \o Moov(c.hs, 0, {"hdlr"}))
      [] c.k = "mp4.brand" -> <<Ftyp(c.a)>> \o Moov(<<"H", c.h>>, 3, {}) \o Mdat(12, FALSE)
      [] c.k = "mp4.ext" ->
           LET x == XTab[c.x]
               mdat == Mdat(50, "mdat" \in x)
               free == Free(5, "free" \in x)
               moov == Moov(<<"H", c.h>>, 7, x)
           IN  (CASE c.p = 0 -> <<Ftyp(1)>> \o free \o moov \o mdat
                  [] c.p = 1 -> <<Ftyp(1)>> \o mdat \o free \o moov
                  [] c.p = 2 -> <<Ftyp(1)>> \o mdat \o moov \o free \o Moov(<<c.h, "N">>, 0, x))
      [] c.k = "mp4.size" ->
           (CASE c.p = 0 -> <<Ftyp(1)>> \o Moov(<<"H", "S", "A">>, c.n, IF c.x THEN {"hdlr"} ELSE {})
              [] c.p = 1 -> <<Ftyp(1)>> \o Mdat(c.n, c.x) \o Moov(<<"H", "A">>, 1, {})
              [] c.p = 2 -> <<Ftyp(1)>> \o Free(c.n, c.x) \o Free(c.n, ~c.x) \o Moov(<<"A", "N">>, 1, {})
              [] c.p = 3 -> <<Ftyp(1)>> \o Moov(<<"A">>, 1, {}) \o Mdat(c.n, c.x))
      [] c.k = "mp4.many" ->
           \* ftyp, moov, mvhd, trak, tkhd, mdia, mdhd come before hdlr
           LET n == R(BE32(8) \o T_free, c.n)
           IN  (CASE c.p = 0 -> <<Ftyp(1), n>> \o Moov(<<"V">>, 1, {})
                  [] c.p = 1 -> <<Ftyp(1)>> \o Moov(<<"S">>, 1, {}) \o <<n>> \o Moov(<<"A">>, 1, {})
                  [] c.p = 2 -> <<Ftyp(1), R(<<0, 0, 0, 1>> \o T_free \o BE64(16), c.n)>> \o Moov(<<"V">>, 1, {"moov", "trak", "hdlr"}))
      [] c.k = "mp4.hide" ->
           <<Ftyp(1)>> \o Boxed(NearMaster[c.a], Hdlr(c.h, 4, FALSE), FALSE)
           \o Moov(<<"S">>, 0, {}) \o Boxed(NearMaster[c.a], Trak(c.h, 4, {}), FALSE)
      [] c.k = "mp4.zero" -> <<Ftyp(1)>> \o Moov(<<c.h>>, 9, {}) \o <<P(<<0, 0, 0, 0>> \o T_mdat), R(<<7>>, c.n)>>
      [] c.k = "mp4.near" ->
           <<Ftyp(1)>> \o Boxed(<<109, 111, 111, 118>>, Boxed(Near[c.a], <<Z(8), P(Handlers[c.h]), Z(5)>>, FALSE), FALSE)
      [] c.k = "mp4.reg" ->
           LET h == <<Box(<<104, 100, 108, 114>>, 24, FALSE), P(<<0, 0, 0, 0, 109, 104, 108, 114>> \o MpHandlers[c.a]), Z(12)>>
           IN  <<Ftyp(1)>> \o Boxed(<<109, 111, 111, 118>>,
                 (IF c.p = 1 THEN Trak("S", 2, {}) ELSE <<>>)
                 \o Boxed(<<116, 114, 97, 107>>, Boxed(<<109, 100, 105, 97>>, h, FALSE), FALSE)
                 \o (IF c.p = 2 THEN Trak("A", 2, {}) ELSE <<>>), FALSE)
      [] c.k = "mp4.box" ->
           LET b == Boxed(MpBoxes[c.a], <<Z(c.n)>> \o Hdlr("V", 4, FALSE), FALSE)
               moov(ps) == Boxed(<<109, 111, 111, 118>>, ps, FALSE)
               trak(ps) == Boxed(<<116, 114, 97, 107>>, ps, FALSE)
               mdia(ps) == Boxed(<<109, 100, 105, 97>>, ps, FALSE)
           IN  <<Ftyp(1)>> \o (CASE c.p = 0 -> b \o moov(Trak("A", 0, {})) \o b
                                 [] c.p = 1 -> moov(b \o Trak("A", 0, {}) \o b)
                                 [] c.p = 2 -> moov(trak(b \o mdia(Hdlr("A", 0, FALSE)) \o b))
                                 [] c.p = 3 -> moov(trak(mdia(b \o Hdlr("A", 0, FALSE) \o b))))
      [] c.k = "mp4.head" ->
           LET set(b, from) == [j \in DOMAIN b |-> IF from + j = c.i THEN c.v ELSE b[j]]
           IN  <<Ftyp(1)>> \o Boxed(<<109, 111, 111, 118>>, Boxed(<<116, 114, 97, 107>>, Boxed(<<109, 100, 105, 97>>,
                   <<Box(<<104, 100, 108, 114>>, 28, FALSE), P(set(<<0, 0, 0, 0, 109, 104, 108, 114>>, 0)), P(Handlers[c.h]),
                     P(set(<<97, 112, 112, 108, 0, 0, 0, 0, 0, 0, 0, 0, 3, 65, 66, 67>>, 8))>>, FALSE), FALSE), FALSE)
      [] c.k = "mp4.raw" -> <<Ftyp(1)>> \o RawTree(c.hs)
      [] c.k = "mp4.tkhd" ->
           LET t(h, b) == Boxed(<<116, 114, 97, 107>>, <<Box(T_tkhd, 84, FALSE), P(b)>> \o Boxed(<<109, 100, 105, 97>>, <<Box(T_mdhd, 24, FALSE), Z(24)>> \o Hdlr(h, 5, FALSE), FALSE), FALSE)
               z == [j \in 1..84 |-> 0]
           IN  <<Ftyp(1)>> \o Boxed(<<109, 111, 111, 118>>, Mvhd(100) \o t(c.h, [z EXCEPT ![c.i] = c.v]) \o t("S", [z EXCEPT ![4] = 7]), FALSE)
      [] c.k = "mp4.base" ->
           CASE c.n = 0 -> <<Ftyp(1)>>
             [] c.n = 1 -> <<Ftyp(1)>> \o Moov(<<"V", "A">>, 3, {})
             [] c.n = 2 -> <<Ftyp(1)>> \o Mdat(30, FALSE) \o Moov(<<"A">>, 3, {})
             [] c.n = 3 -> <<Ftyp(1)>> \o Free(4, FALSE) \o Moov(<<"S">>, 3, {"moov", "hdlr"})
             [] c.n = 4 -> <<Ftyp(1)>> \o Mdat(90000, TRUE) \o Moov(<<"H", "V">>, 3, {"trak"})
             [] c.n = 5 -> <<Ftyp(1), R(BE32(8) \o T_free, 20000)>> \o Moov(<<"V">>, 1, {})
             [] c.n = 6 -> <<Ftyp(1)>> \o Moov(<<"A">>, 9, {}) \o <<P(<<0, 0, 0, 0>> \o T_mdat), R(<<7>>, 60)>>
             [] c.n = 7 -> <<Ftyp(4)>> \o Boxed(T_udta, Hdlr("V", 4, FALSE), FALSE) \o Moov(<<"N">>, 2, {})
             [] c.n = 8 -> <<Ftyp(1)>> \o Moov(<<"T", "A">>, 20000, {}) \o Mdat(10, FALSE)
             [] c.n = 9 -> <<Ftyp(1)>> \o Moov(<<"A">>, 9, {}) \o <<Box(T_mdat, 3, TRUE), P(<<1, 2, 3>>)>>
Mp4Enc(c) == Stream(Mp4Pieces(c))

Mp4Meaning(c) ==
    CASE c.k = "mp4.seq" -> HandlersMean(c.hs)
      [] c.k = "mp4.brand" -> HandlersMean(<<c.h>>)
      [] c.k = "mp4.ext" -> HandlersMean(<<c.h>>)
      [] c.k = "mp4.size" -> "Mpeg4Part14Audio"
      [] c.k = "mp4.many" ->
           (CASE c.p = 0 -> IF c.n + 7 < 256 THEN "Mpeg4Part14Video" ELSE "Mpeg4Part14"
              [] c.p = 1 -> IF c.n + 1 + 8 + 6 < 256 THEN "Mpeg4Part14Audio" ELSE "Mpeg4Part14Subtitles"
              [] c.p = 2 -> IF c.n + 7 < 256 THEN "Mpeg4Part14Video" ELSE "Mpeg4Part14")
      [] c.k = "mp4.hide" -> "Mpeg4Part14Subtitles"
      [] c.k = "mp4.zero" -> HandlersMean(<<c.h>>)
      [] c.k = "mp4.near" -> "Mpeg4Part14"
      [] c.k = "mp4.reg" -> (CASE c.p = 0 -> "Mpeg4Part14" [] c.p = 1 -> "Mpeg4Part14Subtitles" [] c.p = 2 -> "Mpeg4Part14Audio")
      [] c.k = "mp4.box" -> "Mpeg4Part14Audio"
      [] c.k = "mp4.head" -> HandlersMean(<<c.h>>)
      [] c.k = "mp4.raw" -> HandlersMean(c.hs)
      [] c.k = "mp4.tkhd" -> HandlersMean(<<c.h, "S">>)
      [] OTHER -> "any"
=============================================================================
