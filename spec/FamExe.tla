-------------------------------- MODULE FamExe --------------------------------
(* MS-DOS executables: C22. *)
EXTENDS Scope

ExeMagics == << <<77, 90>>, <<90, 77>> >>
\* The 64-byte header with the pointer (four bytes).
ExeHead(a, ptr) == P(ExeMagics[a] \o <<144, 0, 3, 0, 0, 0, 4, 0, 0, 0, 255, 255>> \o [i \in 1..46 |-> i] \o ptr)
\* File header behind "PE\0\0": characteristics as two bytes.
PeHeader(lo, hi) == <<P(<<80, 69, 0, 0, 76, 1, 3, 0, 1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 224, 0>> \o <<lo, hi>>)>>
ExeSigs == << <<80, 69, 0, 0>>, <<76, 69, 0, 0>>, <<76, 88, 0, 0>>, <<78, 69, 5, 1>>, <<76, 69, 255, 255>>, <<76, 88, 80, 69>>, <<78, 69, 80, 69>>,
              <<80, 69, 0, 1>>, <<80, 69, 1, 0>>, <<80, 69, 76, 69>>, <<80, 0, 0, 0>>, <<69, 80, 0, 0>>, <<76, 0, 0, 0>>, <<69, 76, 0, 0>>,
              <<78, 0, 0, 0>>, <<78, 68, 0, 0>>, <<76, 70, 0, 0>>, <<76, 89, 0, 0>>, <<77, 90, 0, 0>>, <<0, 0, 0, 0>>, <<0, 80, 69, 0>>,
              <<0, 76, 69, 0>>, <<112, 101, 0, 0>>, <<110, 101, 0, 0>>, <<255, 255, 255, 255>> >>
ExeSigMean(i) == CASE i = 1 -> "PortableExecutable" [] i \in {2, 3, 5, 6} -> "LinearExecutable" [] i \in {4, 7} -> "NewExecutable"
                   [] OTHER -> "MsDosExecutable"

\* Kinds of cases:
\* exe.sig   signatures at pointer p
\* exe.chr   characteristics: low byte, high byte
\* exe.ptr   pointer p (also inside the header) to signature a
\* exe.out   pointers out of the stream: n bytes from its end
\* exe.wild  pointers with arbitrary bytes
\* exe.low   pointers into the DOS header itself
\* exe.word  signatures near the known ones
\* exe.field headers of the other kinds with byte p set to v
\* exe.pe    bytes of the PE headers that decide nothing
\* exe.dos   bytes of the DOS header that decide nothing
ExePtrs == {64, 65, 127, 128, 255, 256, 257, 1000, 4096, 8191, 8192, 36860, 36870, 36871, 65535, 65536, 100000, 1000000}
ExeCases(k) ==
    CASE k = "exe.sig" -> [fam : {"exe"}, k : {k}, a : {1, 2}, i : DOMAIN ExeSigs, p : {64, 128, 255, 256, 70000}, n : {1, 20, 300}]
      [] k = "exe.chr" ->
           {c \in [fam : {"exe"}, k : {k}, lo : {0, 1, 2, 15, 32, 33, 34, 127, 128, 255}, hi : 0..255] :
              Thorough \/ c.lo \in {0, 34} \/ c.hi \in {0, 32, 223, 255}}
      [] k = "exe.ptr" -> [fam : {"exe"}, k : {k}, i : {1, 2, 3, 4, 20}, p : ExePtrs, q : {0, 32}]
      [] k = "exe.out" -> [fam : {"exe"}, k : {k}, i : {2, 3, 4}, n : 0..8, len : {64, 65, 68, 69, 100, 36870, 40000}]
      [] k = "exe.wild" ->
           [fam : {"exe"}, k : {k}, ptr : {<<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<252, 255, 255, 255>>, <<251, 255, 255, 255>>, <<0, 0, 0, 1>>,
                                            <<64, 0, 0, 1>>, <<128, 0, 0, 128>>, <<128, 0, 1, 0>>, <<128, 1, 0, 0>>, <<255, 255, 255, 127>>, <<253, 255, 255, 255>>,
                                            <<254, 255, 255, 255>>}, i : {1, 2, 4}]
           \union [fam : {"exe"}, k : {k}, ptr : {<<p, 0, 0, 0>> : p \in {0, 1, 2, 3, 10, 30, 58, 59, 60, 61, 62, 63}}, i : {1}]
      [] k = "exe.low" -> [fam : {"exe"}, k : {k}, p : 2..63, i : {2, 3, 4, 20}, q : {0}, n : {0, 40}]
                          \union [fam : {"exe"}, k : {k}, p : 2..63, i : {1}, q : {0, 32}, n : {0, 40}]
      [] k = "exe.word" -> [fam : {"exe"}, k : {k}, i : DOMAIN ExSigs, p : {64, 250}]
      [] k = "exe.field" ->
           {c \in [fam : {"exe"}, k : {k}, i : {2, 3, 4, 20}, p : 4..67, v : {1, 2, 4, 8, 16, 32, 64, 128, 255}] : Thorough \/ c.i \in {3, 4} \/ c.v \in {1, 32, 128, 255}}
      [] k = "exe.pe" ->
           [fam : {"exe"}, k : {k}, p : (1..18) \union (21..140), v : {1, 2, 11, 32, 128, 255}, q : {0, 32}]
      [] k = "exe.dos" -> [fam : {"exe"}, k : {k}, p : 3..60, v : {0, 1, 32, 64, 80, 255}, i : {1, 4}]
      [] k = "exe.base" -> [fam : {"exe"}, k : {k}, n : 0..7]
ExeFile(a, p, sigps, after) == <<ExeHead(a, LE32(p)), R(<<80, 69, 0, 0>>, (p - 64) \div 4), Z((p - 64) % 4)>> \o sigps \o <<R(<<69>>, after)>>
ExePieces(c) ==
    CASE c.k = "exe.sig" -> ExeFile(c.a, c.p, <<P(ExeSigs[c.i])>> \o (IF c.i = 1 THEN <<Z(20)>> ELSE <<>>), c.n)
      [] c.k = "exe.chr" -> ExeFile(1, 128, PeHeader(c.lo, c.hi), 224)
      [] c.k = "exe.ptr" ->
           <<ExeHead(1, LE32(c.p)), R(<<78, 69>>, (c.p - 64) \div 2), Z((c.p - 64) % 2)>>
           \o (IF c.i = 1 THEN PeHeader(0, c.q) ELSE <<P(ExeSigs[c.i])>>) \o <<Z(10)>>
      [] c.k = "exe.out" ->
           \* the signature starts n bytes before the end
           LET p == c.len - c.n
           IN  <<ExeHead(1, LE32(p)), Z(Max2(0, p - 64)), P(IF p < 64 THEN <<>> ELSE SubSeq(ExeSigs[c.i] \o <<1, 2, 3, 4>>, 1, c.n)), Z(IF p < 64 THEN c.len - 64 ELSE 0)>>
      [] c.k = "exe.wild" -> <<ExeHead(1, c.ptr), Z(64), P(ExeSigs[c.i]), Z(100)>>
      [] c.k = "exe.low" ->
           \* the signature (and characteristics) first, then the magic and the pointer over them
           LET sg == IF c.i = 1 THEN PeHeader(2, c.q)[1].b ELSE ExeSigs[c.i]
               h == Overwrite(Stream(<<R(<<7>>, 64)>>), c.p, sg)
               b == Slice(Overwrite(h, 60, LE32(c.p)), 0, 64)
               rest == IF h.len > 64 THEN Slice(h, 64, h.len - 64) ELSE <<>>
           IN  <<P(ExeMagics[1] \o SubSeq(b, 3, 64) \o rest), Z(c.n)>>
      [] c.k = "exe.word" -> ExeFile(1, c.p, <<P(ExSigs[c.i])>>, 300)
      [] c.k = "exe.field" -> ExeFile(1, 128, <<P(ExeSigs[c.i]), P([j \in 1..64 |-> IF j + 3 = c.p THEN c.v ELSE 0])>>, 40)
      [] c.k = "exe.pe" ->
           LET h == <<76, 1, 3, 0, 1, 2, 3, 4, 0, 0, 0, 0, 0, 0, 0, 0, 224, 0, 2, c.q>> \o <<11, 1>> \o [j \in 1..118 |-> 0]
           IN  ExeFile(1, 128, <<P(<<80, 69, 0, 0>>), P([h EXCEPT ![c.p] = c.v])>>, 100)
      [] c.k = "exe.dos" ->
           LET f == Stream(ExeFile(1, 128, IF c.i = 1 THEN PeHeader(2, 33) ELSE <<P(ExeSigs[c.i])>>, 100))
               b == Slice(f, 0, f.len)
           IN  <<P([b EXCEPT ![c.p] = c.v])>>
      [] c.k = "exe.base" ->
           (CASE c.n = 0 -> <<ExeHead(1, <<0, 0, 0, 0>>), Z(20)>>
              [] c.n = 1 -> ExeFile(1, 128, PeHeader(2, 1), 30)
              [] c.n = 2 -> ExeFile(1, 200, PeHeader(2, 33), 30)
              [] c.n = 3 -> ExeFile(2, 64, <<P(ExeSigs[2])>>, 30)
              [] c.n = 4 -> ExeFile(1, 50000, <<P(ExeSigs[4])>>, 30)
              [] c.n = 5 -> ExeFile(1, 70, <<P(ExeSigs[3])>>, 1)
              [] c.n = 6 -> <<ExeHead(1, <<0, 0, 1, 0>>), Z(300)>>
              [] c.n = 7 -> ExeFile(1, 40000, PeHeader(2, 33), 0))
ExeEnc(c) == Stream(ExePieces(c))
ExeMeaning(c) ==
    CASE c.k = "exe.sig" -> ExeSigMean(c.i)
      [] c.k = "exe.chr" -> IF (c.hi \div 32) % 2 = 1 THEN "DynamicLinkLibrary" ELSE "PortableExecutable"
      [] c.k = "exe.ptr" -> IF c.i = 1 /\ c.q = 32 THEN "DynamicLinkLibrary" ELSE ExeSigMean(c.i)
      [] c.k = "exe.out" -> IF c.n > 4 /\ c.len - c.n >= 64 THEN ExeSigMean(c.i) ELSE IF c.len - c.n < 64 THEN "any" ELSE "MsDosExecutable"
      [] c.k = "exe.wild" -> "MsDosExecutable"
      [] c.k = "exe.word" -> "MsDosExecutable"
      [] c.k = "exe.field" -> ExeSigMean(c.i)
      [] c.k = "exe.pe" -> IF c.q = 32 THEN "DynamicLinkLibrary" ELSE "PortableExecutable"
      [] c.k = "exe.dos" -> IF c.i = 1 THEN "DynamicLinkLibrary" ELSE ExeSigMean(c.i)
      [] c.k = "exe.low" -> IF c.i = 1 THEN IF c.p > 36 THEN "any" ELSE IF c.q = 32 THEN "DynamicLinkLibrary" ELSE "PortableExecutable"
                            ELSE IF c.p <= 56 THEN ExeSigMean(c.i) ELSE "any"
      [] OTHER -> "any"
=============================================================================
