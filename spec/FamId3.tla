-------------------------------- MODULE FamId3 --------------------------------
(* ID3v2 tags and what follows them: C23. *)
EXTENDS Scope

Syncsafe(n) == <<(n \div 2097152) % 128, (n \div 16384) % 128, (n \div 128) % 128, n % 128>>
\* A tag: version, flags, n bytes of data; a footer if its flag (16) is set.
TagBody(n) == <<R(<<84, 73, 84, 50, 0, 73, 68, 51, 255, 251>>, n \div 10), Z(n % 10)>>
Tag(v, flags, n) ==
    <<P(L_ID3 \o <<v, 0, flags>> \o Syncsafe(n))>> \o TagBody(n)
    \o (IF (flags \div 16) % 2 = 1 THEN <<P(<<51, 68, 73>> \o <<v, 0, flags>> \o Syncsafe(n))>> ELSE <<>>)
\* What follows: bytes and meaning.
Payloads == <<
  << <<102, 76, 97, 67, 0, 0, 0, 34>>, "FreeLosslessAudioCodec">>, << <<102, 76, 97, 67>>, "FreeLosslessAudioCodec">>,
  << <<255, 251, 144, 100, 0, 15>>, "Mpeg12AudioLayer3">>, << <<255, 250, 144, 100>>, "Mpeg12AudioLayer3">>,
  << <<255, 243, 0, 0>>, "Mpeg12AudioLayer3">>, << <<255, 242, 255, 255, 1>>, "Mpeg12AudioLayer3">>,
  << <<255, 227, 24, 196>>, "Mpeg12AudioLayer3">>, << <<255, 226, 24, 196>>, "Mpeg12AudioLayer3">>,
  << <<102, 76, 97, 99, 0, 0, 0, 34>>, "Id3v2">>, << <<70, 76, 97, 67, 0>>, "Id3v2">>, << <<0, 102, 76, 97, 67>>, "Id3v2">>, << <<102, 76, 97, 66, 1>>, "Id3v2">>,
  << <<255, 241, 80, 128>>, "Id3v2">>, << <<255, 249, 80, 128>>, "Id3v2">>, << <<255, 253, 0, 0>>, "Id3v2">>, << <<255, 255, 0, 0>>, "Id3v2">>,
  << <<255, 244, 0, 0>>, "Id3v2">>, << <<255, 225, 0, 0>>, "Id3v2">>, << <<255, 228, 0, 0>>, "Id3v2">>, << <<255, 235, 0, 0>>, "Id3v2">>, << <<255, 234, 0, 0>>, "Id3v2">>,
  << <<254, 251, 144, 100>>, "Id3v2">>, << <<251, 255, 0, 0>>, "Id3v2">>, << <<0, 255, 251, 0>>, "Id3v2">>, << <<0, 0, 0, 0, 0>>, "Id3v2">>,
  << <<84, 65, 71, 0, 0>>, "Id3v2">>, << <<77, 65, 67, 32, 1>>, "Id3v2">>, << <<79, 103, 103, 83, 0>>, "Id3v2">>, << <<73, 68, 0, 51>>, "Id3v2">>, << <<73, 68, 50, 51>>, "Id3v2">> >>

\* Kinds of cases:
\* id3.pay    payloads behind one to three tags
\* id3.byte   every second byte behind 255
\* id3.size   tag of n bytes
\* id3.flag   all flags and versions
\* id3.chain  n tags
\* id3.mix    tags of mixed sizes and flags
\* id3.syn    size bytes with their eighth bit set
\* id3.short  n bytes behind the last tag
\* id3.word   other words behind the tag
\* id3.pad    n bytes b between the tag and the audio
\* id3.field  byte p of a tag's header set to v
Id3Sizes == {0, 1, 9, 10, 11, 63, 126, 127, 128, 129, 255, 256, 257, 8191, 8192, 16382, 16383, 16384, 16385, 36860, 36870, 65535, 65536, 100000, 2097151, 2097152, 2097153, 5000000}
Id3Cases(k) ==
    CASE k = "id3.pay" -> [fam : {"id3"}, k : {k}, i : DOMAIN Payloads, n : 1..3, p : {0, 40000}]
      [] k = "id3.byte" -> [fam : {"id3"}, k : {k}, b : 0..255, p : {0, 10}]
      [] k = "id3.size" -> [fam : {"id3"}, k : {k}, n : Id3Sizes, i : {1, 3, 25}, p : {0, 16, 64, 80}]
      [] k = "id3.flag" -> [fam : {"id3"}, k : {k}, v : {2, 3, 4}, f : IF Thorough THEN 0..255 ELSE {0, 1, 8, 15, 16, 31, 32, 48, 64, 80, 96, 112, 128, 144, 160, 192, 208, 224, 240, 255}, i : {2, 3, 25}]
      [] k = "id3.chain" -> [fam : {"id3"}, k : {k}, n : {1, 2, 3, 10, 63, 64, 100, 127, 128, 200, 254, 255, 256, 257, 258, 300}, i : {1, 3}, p : {0, 5, 16}]
      [] k = "id3.mix" ->
           {c \in [fam : {"id3"}, k : {k}, ts : UNION {[1..n -> [n : {0, 1, 300}, f : {0, 16, 64}, v : {2, 4, 9}]] : n \in 1..3}, i : {1, 3}] :
               /\ c.ts[1].v # 9
               /\ Len(c.ts) <= 2 \/ (IF Thorough THEN TRUE ELSE c.ts[2].n # c.ts[1].n /\ c.ts[3].f = 0 /\ c.ts[3].v = 4)}
      [] k = "id3.syn" -> [fam : {"id3"}, k : {k}, n : {0, 128, 20000}, p : 1..15, i : {1, 3}]
      [] k = "id3.short" -> [fam : {"id3"}, k : {k}, n : 0..12, i : {1, 3, 25, 29}, p : {0, 40, 300}]
      [] k = "id3.word" -> [fam : {"id3"}, k : {k}, i : DOMAIN IdNear, p : {0, 20}]
      [] k = "id3.pad" -> [fam : {"id3"}, k : {k}, n : {1, 2, 3, 4, 5, 8, 10, 16, 100, 128, 255, 256, 1000, 4096, 10000}, b : {0, 32, 65, 255, 73}, i : {1, 3}, p : {0, 100}]
      [] k = "id3.field" ->
           {c \in [fam : {"id3"}, k : {k}, p : 4..10, v : {0, 1, 2, 5, 15, 127, 128, 129, 254, 255}, i : {1, 3, 25}, q : {0, 1}] :
              c.p = 4 /\ c.q = 0 => c.v = 2}
      [] k = "id3.base" -> [fam : {"id3"}, k : {k}, n : 0..7]
Audio(i) == <<P(Payloads[i][1]), P(<<1, 2, 3, 4, 5, 6>>)>>
Id3Pieces(c) ==
    CASE c.k = "id3.pay" -> FlattenSeq([j \in 1..c.n |-> Tag(2 + j, 0, IF j = 1 THEN c.p ELSE 33)]) \o Audio(c.i)
      [] c.k = "id3.byte" -> Tag(3, 0, c.p) \o <<P(<<255, c.b, 144, 100>>)>> \o Audio(25)
      [] c.k = "id3.size" -> Tag(4, c.p, c.n) \o Audio(c.i)
      [] c.k = "id3.flag" -> Tag(c.v, c.f, 50) \o Audio(c.i)
      [] c.k = "id3.chain" ->
           LET b == Slice(Stream(Tag(4, IF c.p = 16 THEN 16 ELSE 0, c.p)), 0, 10 + c.p + (IF c.p = 16 THEN 10 ELSE 0))
           IN  <<R(b, c.n)>> \o Audio(c.i)
      [] c.k = "id3.mix" -> FlattenSeq([j \in DOMAIN c.ts |-> Tag(c.ts[j].v, c.ts[j].f, c.ts[j].n)]) \o Audio(c.i)
      [] c.k = "id3.syn" ->
           LET sz == Syncsafe(c.n)
               bit(j) == (c.p \div Pow2[j]) % 2
           IN  <<P(L_ID3 \o <<3, 0, 0>> \o [j \in 1..4 |-> sz[j] + 128 * bit(j)])>> \o TagBody(c.n) \o Audio(c.i)
      [] c.k = "id3.short" -> Tag(3, 0, c.p) \o <<P(SubSeq(Payloads[c.i][1] \o [j \in 1..12 |-> j], 1, c.n))>>
      [] c.k = "id3.word" -> Tag(3, 0, c.p) \o <<P(IdNear[c.i]), R(<<3>>, 200)>>
      [] c.k = "id3.pad" -> Tag(3, 0, c.p) \o <<R(<<c.b>>, c.n)>> \o Audio(c.i)
      [] c.k = "id3.field" ->
           LET t == Slice(Stream(Tag(3, 0, 100)), 0, 110)
           IN  (IF c.q = 1 THEN Tag(4, 0, 30) ELSE <<>>) \o <<P([t EXCEPT ![c.p] = c.v])>> \o Audio(c.i) \o <<Z(400)>>
      [] c.k = "id3.base" ->
           (CASE c.n = 0 -> Tag(3, 0, 20) \o Audio(3)
              [] c.n = 1 -> Tag(4, 16, 20) \o Audio(1)
              [] c.n = 2 -> Tag(3, 0, 20) \o Tag(4, 64, 5) \o Audio(25)
              [] c.n = 3 -> Tag(2, 0, 50000) \o Tag(4, 80, 5) \o Audio(5)
              [] c.n = 4 -> <<R(<<73, 68, 51, 4, 0, 0, 0, 0, 0, 0>>, 400)>> \o Audio(1)
              [] c.n = 5 -> Tag(3, 0, 0) \o Audio(26)
              [] c.n = 6 -> Tag(4, 0, 2100000) \o Audio(1)
              [] c.n = 7 -> Tag(4, 16, 40000) \o Tag(4, 16, 40000) \o Audio(3))
Id3Enc(c) == Stream(Id3Pieces(c))
Id3Meaning(c) ==
    CASE c.k = "id3.byte" -> IF c.b \in {226, 227, 242, 243, 250, 251} THEN "Mpeg12AudioLayer3" ELSE "Id3v2"
      [] c.k = "id3.chain" -> IF c.n <= 256 THEN Payloads[c.i][2] ELSE "Id3v2"
      [] c.k = "id3.word" -> "Id3v2"
      [] c.k = "id3.field" -> IF c.p <= 5 THEN Payloads[c.i][2] ELSE "any"
      [] c.k = "id3.short" -> IF c.n >= 10 THEN Payloads[c.i][2] ELSE "ERR"
      [] c.k \in {"id3.pay", "id3.size", "id3.flag", "id3.mix", "id3.syn"} -> Payloads[c.i][2]
      [] OTHER -> "any"
=============================================================================
