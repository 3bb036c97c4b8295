-------------------------------- MODULE FamCfb --------------------------------
(* Compound files: C21. *)
EXTENDS Scope

CfbSig == <<208, 207, 17, 224, 161, 177, 26, 225>>
\* The 512 header bytes: major version and first directory sector.
CfbHead(version, sector) ==
    <<P(CfbSig), Z(16), P(<<62, 0>> \o LE16(version) \o <<254, 255>>), P(<<9, 0, 6, 0>>), Z(14), P(LE32(sector)),
      Z(460)>>
\* A directory entry: name bytes, class id.
CfbEntry(name, clsid) == <<P(name), Z(64 - Len(name)), P(LE16(Len(name) + 2)), P(<<5, 1>>), R(<<255>>, 12), P(clsid), Z(32)>>
NoClass == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
RootName == <<82, 0, 111, 0, 111, 0, 116, 0, 32, 0, 69, 0, 110, 0, 116, 0, 114, 0, 121, 0>>
SomeName == <<67, 0, 79, 0, 78, 0, 84, 0, 69, 0, 78, 0, 84, 0, 83, 0>>
SectorSize(version) == IF version = 3 THEN 512 ELSE 4096
\* A file with the directory in the given sector; sectors before it hold filler.
CfbFile(version, sector, fill, clsid, second, third, after) ==
    CfbHead(version, sector) \o <<Z(SectorSize(version) - 512), R(fill, (sector * SectorSize(version)) \div Len(fill))>>
    \o CfbEntry(RootName, clsid) \o CfbEntry(second, NoClass) \o CfbEntry(third, NoClass) \o <<Z(after)>>
\* A filler that looks like a root entry with a class id at every possible place.
FillEntry(clsid) == [i \in 1..80 |-> 65] \o clsid \o [i \in 1..32 |-> 66]

\* Kinds of cases:
\* cfb.cls   all class ids
\* cfb.pos   sectors and versions
\* cfb.near  class ids next to known ones
\* cfb.name  names of the second and third entry
\* cfb.both  known class id together with decisive names
\* cfb.fill  other class ids elsewhere
\* cfb.reg   registered class ids that decide nothing
\* cfb.word  names of other applications, or near the decisive ones, in the entries
\* cfb.entry byte p of a directory entry set to v: none decides but the names' and the root's class id
\* cfb.head  byte p of the header set to v
CfbVersions == {3, 4, 0, 2, 5, 259, 768, 65535}
CfbNames == << <<>>, SomeName, WorksWordName, WorksSheetName,
               SubSeq(WorksWordName, 1, 10), SubSeq(WorksSheetName, 1, 24),
               <<77, 97, 116, 79, 83, 84>>, <<87, 107, 115, 83, 83, 87, 111, 114, 107, 66, 111, 111, 107>>,
               <<109, 0, 97, 0, 116, 0, 79, 0, 83, 0, 84, 0>>, <<1, 0>> \o WorksWordName, <<1, 0>> \o WorksSheetName,
               <<0>> \o WorksWordName, <<87, 0, 107, 0, 115, 0, 83, 0, 83, 0, 87, 0, 111, 0, 114, 0, 107, 0, 98, 0, 111, 0, 111, 0, 107, 0>> >>
CfbCases(k) ==
    CASE k = "cfb.cls" -> [fam : {"cfb"}, k : {k}, a : DOMAIN ClassIds, v : {3, 4}, p : {0, 1, 7}]
      [] k = "cfb.pos" ->
           {c \in [fam : {"cfb"}, k : {k}, a : {1, 14, 46}, v : CfbVersions,
                   p : {0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 65535, 65536, 100000}] :
               (c.p > 1000 => c.v \in {3, 4}) /\ (Thorough \/ c.p < 1000 \/ c.a = 1)}
      [] k = "cfb.near" ->
           {c \in [fam : {"cfb"}, k : {k}, a : DOMAIN ClassIds, p : 1..16, d : {1, 2, 4, 8, 16, 32, 64, 128}] :
               ClassIdIndex([ClassIdBytes[c.a] EXCEPT ![c.p] = IF (@ \div c.d) % 2 = 1 THEN @ - c.d ELSE @ + c.d]) = 0
               /\ (Thorough \/ Sampled(c.a * 128 + c.p * 8 + c.d, 4))}
      [] k = "cfb.name" -> [fam : {"cfb"}, k : {k}, a : DOMAIN CfbNames, b : DOMAIN CfbNames, v : {3, 4}, p : {0, 5}]
      [] k = "cfb.both" -> [fam : {"cfb"}, k : {k}, a : DOMAIN ClassIds, b : {0, 1}]
      [] k = "cfb.fill" -> [fam : {"cfb"}, k : {k}, a : {1, 9, 20, 33, 46}, b : {0, 2, 19, 45}, v : {3, 4}, p : {1, 2, 8}]
      [] k = "cfb.reg" -> {c \in [fam : {"cfb"}, k : {k}, a : DOMAIN CfIds, v : {3, 4}, p : {0, 1}] : ClassIdIndex(CfIds[c.a]) = 0}
      [] k = "cfb.word" -> [fam : {"cfb"}, k : {k}, a : DOMAIN CfNames, p : 0..5]
      [] k = "cfb.entry" ->
           {c \in [fam : {"cfb"}, k : {k}, e : 0..2, p : 1..128, v : {1, 2, 5, 77, 255}, a : {0, 3, 20}] :
              Thorough \/ c.p > 64 \/ c.v \in {77, 255}}
      [] k = "cfb.head" ->
           {c \in [fam : {"cfb"}, k : {k}, p : 9..512, v : {0, 1, 3, 4, 255}, a : {20}] :
              /\ c.p \notin {27, 28} \union (49..52)
              /\ Thorough \/ c.p <= 90 \/ c.v = 255}
      [] k = "cfb.base" -> [fam : {"cfb"}, k : {k}, n : 0..6]
NearClass(c) == [ClassIdBytes[c.a] EXCEPT ![c.p] = IF (@ \div c.d) % 2 = 1 THEN @ - c.d ELSE @ + c.d]
CfbPieces(c) ==
    CASE c.k = "cfb.cls" -> CfbFile(c.v, c.p, <<255>>, ClassIdBytes[c.a], SomeName, <<>>, 200)
      [] c.k = "cfb.pos" -> CfbFile(c.v, c.p, <<0>>, ClassIdBytes[c.a], SomeName, SomeName, 128)
      [] c.k = "cfb.near" -> CfbFile(3 + (c.p % 2), c.d % 3, <<0>>, NearClass(c), SomeName, SomeName, 128)
      [] c.k = "cfb.name" -> CfbFile(c.v, c.p, <<255>>, NoClass, CfbNames[c.a], CfbNames[c.b], 128)
      [] c.k = "cfb.both" ->
           IF c.b = 0 THEN CfbFile(3, 2, <<0>>, ClassIdBytes[c.a], WorksWordName, WorksSheetName, 0)
           ELSE CfbFile(4, 1, <<0>>, ClassIdBytes[c.a], SomeName, WorksSheetName, 0)
      [] c.k = "cfb.fill" ->
           CfbFile(c.v, c.p, FillEntry(ClassIdBytes[c.a]), IF c.b = 0 THEN NoClass ELSE ClassIdBytes[c.b], <<>>, <<>>, 0)
           \o <<R(FillEntry(ClassIdBytes[c.a]), 100)>>
      [] c.k = "cfb.reg" -> CfbFile(c.v, c.p, <<255>>, CfIds[c.a], SomeName, SomeName, 128)
      [] c.k = "cfb.word" ->
           (CASE c.p = 0 -> CfbFile(3, 1, <<0>>, NoClass, CfNames[c.a], SomeName, 128)
              [] c.p = 1 -> CfbFile(3, 1, <<0>>, NoClass, SomeName, CfNames[c.a], 128)
              [] c.p = 2 -> CfbFile(4, 1, <<0>>, NoClass, CfNames[c.a], WorksSheetName, 128)
              [] c.p = 3 -> CfbFile(3, 1, <<0>>, ClassIdBytes[20], CfNames[c.a], CfNames[c.a], 128)
              [] c.p = 4 -> CfbFile(3, 1, <<0>>, NoClass, SomeName, SomeName, 0) \o CfbEntry(CfNames[c.a], ClassIdBytes[20]) \o CfbEntry(WorksSheetName, NoClass)
              [] c.p = 5 -> CfbFile(3, 1, <<0>>, NoClass, SubSeq(CfNames[c.a], 1, Len(CfNames[c.a]) - 1), WorksWordName, 128))
      [] c.k \in {"cfb.entry", "cfb.head"} ->
           LET f == Stream(CfbFile(3, 1, <<0>>, IF c.a <= 3 THEN NoClass ELSE ClassIdBytes[c.a], IF c.a = 3 THEN WorksWordName ELSE SomeName, SomeName, 128))
               b == Slice(f, 0, f.len)
               at == IF c.k = "cfb.head" THEN c.p ELSE 1024 + 128 * c.e + c.p
           IN  <<P([b EXCEPT ![at] = c.v])>>
      [] c.k = "cfb.base" ->
           (CASE c.n = 0 -> CfbFile(3, 0, <<0>>, ClassIdBytes[18], SomeName, SomeName, 0)
              [] c.n = 1 -> CfbFile(3, 1, <<255>>, NoClass, WorksWordName, SomeName, 10)
              [] c.n = 2 -> CfbFile(4, 1, <<7>>, NoClass, SomeName, WorksSheetName, 0)
              [] c.n = 3 -> CfbFile(3, 2, <<0>>, NoClass, SomeName, SomeName, 0)
              [] c.n = 4 -> CfbFile(4, 20, <<0>>, ClassIdBytes[30], SomeName, SomeName, 1)
              [] c.n = 5 -> CfbFile(3, 100, <<0>>, ClassIdBytes[8], <<>>, <<>>, 600)
              [] c.n = 6 -> CfbFile(3, 0, <<0>>, NoClass, <<>>, <<>>, 20000))
CfbEnc(c) == Stream(CfbPieces(c))
CfbMeaning(c) ==
    CASE c.k \in {"cfb.cls", "cfb.pos", "cfb.both"} -> ClassIds[c.a][2]
      [] c.k \in {"cfb.near", "cfb.reg"} -> "CompoundFileBinary"
      [] c.k = "cfb.word" ->
           LET w == CfNameWords[c.a]
               word == w = "MatOST1"
               sheet == w = "WksSSWorkBook1"
           IN  (CASE c.p = 0 -> IF word THEN "MicrosoftWorksWordProcessor" ELSE "CompoundFileBinary"
                  [] c.p = 1 -> IF sheet THEN "MicrosoftWorks6Spreadsheet" ELSE "CompoundFileBinary"
                  [] c.p = 2 -> IF word THEN "MicrosoftWorksWordProcessor" ELSE "MicrosoftWorks6Spreadsheet"
                  [] c.p = 3 -> ClassIds[20][2]
                  [] c.p = 4 -> "CompoundFileBinary"
                  [] c.p = 5 -> IF word THEN "MicrosoftWorksWordProcessor" ELSE "CompoundFileBinary")
      [] c.k = "cfb.entry" ->
           IF c.a = 3 THEN IF c.e = 1 /\ c.p <= 12 THEN "any" ELSE IF c.e = 0 /\ c.p \in 81..96 THEN "any" ELSE "MicrosoftWorksWordProcessor"
           ELSE IF c.a = 0 THEN "CompoundFileBinary"
           ELSE IF c.e = 0 /\ c.p \in 81..96 THEN "any" ELSE ClassIds[c.a][2]
      [] c.k = "cfb.head" -> ClassIds[c.a][2]
      [] c.k = "cfb.name" -> IF c.a = 3 THEN "MicrosoftWorksWordProcessor"
                             ELSE IF c.b = 4 THEN "MicrosoftWorks6Spreadsheet" ELSE "CompoundFileBinary"
      [] c.k = "cfb.fill" -> IF c.b = 0 THEN "CompoundFileBinary" ELSE ClassIds[c.b][2]
      [] OTHER -> "any"
=============================================================================
