-------------------------------- MODULE Bytes --------------------------------
(* Byte streams and the reading primitives of the detector.

   A stream is [len, segs]: contiguous segments [at, n, b], each covering positions at .. at+n-1
   with the byte string b repeated as often as needed.  Repetition keeps long streams (a thousand
   ZIP entries, 32 MiB of PDF) small.

   Numbers: TLC integers have 32 bits, the formats' fields up to 64.  Every field is saturated at
   BIG = 2^29 (or -BIG when read as a signed number).  All streams are far shorter than BIG, so a
   saturated number behaves like the original: as a size or an offset it leads out of the stream. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

BIG == 536870912

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* Text literals                                                           *)
(***************************************************************************)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]

\* The bytes of an ASCII string.
S(str) == SubSeq([i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]], 1, Len(str))

\* The bytes of an ASCII string in UTF-16LE.
W(str) == FlattenSeq([i \in 1..Len(str) |-> <<CodeOf[SubSeq(str, i, i)], 0>>])

HexVal(c) == LET x == CodeOf[c] IN IF x < 58 THEN x - 48 ELSE x - 87
HexByte(str, i) == 16 * HexVal(SubSeq(str, i, i)) + HexVal(SubSeq(str, i + 1, i + 1))
\* The sixteen stored bytes of a GUID in text form: three little-endian groups, then eight bytes.
Guid(str) == << HexByte(str, 7), HexByte(str, 5), HexByte(str, 3), HexByte(str, 1),
                HexByte(str, 12), HexByte(str, 10), HexByte(str, 17), HexByte(str, 15),
                HexByte(str, 20), HexByte(str, 22), HexByte(str, 25), HexByte(str, 27),
                HexByte(str, 29), HexByte(str, 31), HexByte(str, 33), HexByte(str, 35) >>

(***************************************************************************)
(* Building streams                                                        *)
(***************************************************************************)
P(b) == [b |-> b, r |-> 1]              \* a piece: b once
R(b, r) == [b |-> b, r |-> r]           \* a piece: b, r times
Z(n) == R(<<0>>, n)                     \* n zero bytes
Q(str) == P(S(str))

EmptyStream == [len |-> 0, segs |-> <<>>]
AddPiece(s, p) ==
    LET n == Len(p.b) * p.r
        k == Len(s.segs)
    IN  IF n = 0 THEN s
        ELSE IF k > 0 /\ p.r = 1 /\ s.segs[k].n = Len(s.segs[k].b)
        THEN [len |-> s.len + n,
              segs |-> [s.segs EXCEPT ![k] = [at |-> @.at, n |-> @.n + n, b |-> @.b \o p.b]]]
        ELSE [len |-> s.len + n,
              segs |-> Append(s.segs, [at |-> s.len, n |-> n, b |-> p.b])]
Stream(pieces) == FoldLeft(AddPiece, EmptyStream, pieces)
OfBytes(b) == Stream(<<P(b)>>)

\* The first k bytes of a stream.
Trunc(s, k) ==
    IF k >= s.len THEN s
    ELSE [len |-> k,
          segs |-> LET keep == SelectSeq(s.segs, LAMBDA g : g.at < k)
                   IN  [i \in 1..Len(keep) |->
                          [keep[i] EXCEPT !.n = Min2(@, k - keep[i].at)]]]

\* Segments of a stream from position k on, moved to start at 0.
DropSegs(s, k) ==
    LET keep == SelectSeq(s.segs, LAMBDA g : g.at + g.n > k)
    IN  [i \in 1..Len(keep) |->
           LET g == keep[i]
               d == IF g.at < k THEN k - g.at ELSE 0
               l == Len(g.b)
               \* rotate the period when the cut falls inside the segment
               q == d % l
           IN  [at |-> Max2(g.at - k, 0), n |-> g.n - d,
                b |-> IF q = 0 THEN (IF g.n - d < l THEN SubSeq(g.b, 1, g.n - d) ELSE g.b)
                      ELSE LET rot == SubSeq(g.b, q + 1, l) \o SubSeq(g.b, 1, q)
                           IN  IF g.n - d < l THEN SubSeq(rot, 1, g.n - d) ELSE rot]]
ConcatStreams(s, t) ==
    [len |-> s.len + t.len,
     segs |-> s.segs \o [i \in 1..Len(t.segs) |-> [t.segs[i] EXCEPT !.at = @ + s.len]]]
Drop(s, k) == [len |-> s.len - k, segs |-> DropSegs(s, k)]
\* s with the bytes from position p on replaced by b (may extend the stream).
Overwrite(s, p, b) ==
    LET head == Trunc(s, p)
        pad == IF p > s.len THEN Stream(<<Z(p - s.len)>>) ELSE EmptyStream
        tail == IF p + Len(b) < s.len THEN Drop(s, p + Len(b)) ELSE EmptyStream
    IN  ConcatStreams(ConcatStreams(ConcatStreams(head, pad), OfBytes(b)), tail)

(***************************************************************************)
(* Reading streams                                                         *)
(***************************************************************************)
SegAt(s, i) == s.segs[CHOOSE k \in DOMAIN s.segs :
                          s.segs[k].at <= i /\ i < s.segs[k].at + s.segs[k].n]
\* The byte at position i (0-based).
At(s, i) == LET g == SegAt(s, i) IN g.b[((i - g.at) % Len(g.b)) + 1]

\* Whether n bytes can be read at position p (reading nothing always succeeds).
CanRead(s, p, n) == n = 0 \/ p + n <= s.len
\* The n bytes at position p.
Slice(s, p, n) ==
    IF n = 0 THEN <<>>
    ELSE LET g == SegAt(s, p)
             o == p - g.at
             r == o % Len(g.b)
         IN  IF o + n <= g.n /\ r + n <= Len(g.b)
             THEN SubSeq(g.b, r + 1, r + n)
             ELSE SubSeq([i \in 1..n |-> At(s, p + i - 1)], 1, n)
\* Whether the bytes b are found at position p.
EqAt(s, p, b) ==
    /\ p >= 0 /\ p + Len(b) <= s.len
    /\ \A i \in 1..Len(b) : At(s, p + i - 1) = b[i]
StartsWith(b, pre) == Len(b) >= Len(pre) /\ SubSeq(b, 1, Len(pre)) = pre
EndsWith(b, suf) == Len(b) >= Len(suf) /\ SubSeq(b, Len(b) - Len(suf) + 1, Len(b)) = suf
HasByte(b, c) == \E i \in 1..Len(b) : b[i] = c
HasBytes(b, pat) == \E i \in 0..(Len(b) - Len(pat)) : SubSeq(b, i + 1, i + Len(pat)) = pat

(***************************************************************************)
(* Fields                                                                  *)
(***************************************************************************)
U16LE(b) == b[1] + 256 * b[2]
U32LE(b) == IF b[4] >= 32 THEN BIG ELSE b[1] + 256 * (b[2] + 256 * (b[3] + 256 * b[4]))
U64LE(b) == IF b[5] + b[6] + b[7] + b[8] > 0 THEN BIG ELSE U32LE(b)
\* The same eight bytes as a signed number (the detector seeks by sizes cast to i64).
I64LE(b) ==
    IF b[8] < 128 THEN U64LE(b)
    ELSE IF b[8] = 255 /\ b[7] = 255 /\ b[6] = 255 /\ b[5] = 255 /\ b[4] >= 224
    THEN -(1 + (255 - b[1]) + 256 * ((255 - b[2]) + 256 * ((255 - b[3]) + 256 * (255 - b[4]))))
    ELSE -BIG
U16BE(b) == U16LE(Reverse(b))
U32BE(b) == U32LE(Reverse(b))
U64BE(b) == U64LE(Reverse(b))
I64BE(b) == I64LE(Reverse(b))

\* Encoders (of numbers below BIG).
LE16(n) == <<n % 256, (n \div 256) % 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
LE64(n) == LE32(n) \o <<0, 0, 0, 0>>
BE16(n) == Reverse(LE16(n))
BE32(n) == Reverse(LE32(n))
BE64(n) == Reverse(LE64(n))

\* Saturating position arithmetic; a negative position is an error, shown as -1.
Move(p, d) == IF p + d < 0 THEN -1 ELSE Min2(BIG, p + d)

(***************************************************************************)
(* Searching                                                               *)
(***************************************************************************)
\* Positions in [lo, hi) holding byte c.  In a repeated segment only a few repetitions next to the
\* borders are listed (w of them on each side): a pattern of at most w periods that occurs in the
\* segment at all also occurs there.
PosInSeg(g, c, lo, hi, w) ==
    LET l == Len(g.b)
        a == Max2(lo, g.at)
        z == Min2(hi, g.at + g.n)          \* exclusive
    IN  IF a >= z THEN {}
        ELSE LET off == {j \in 1..Min2(l, g.n) : g.b[j] = c}
                 kmin == (a - g.at) \div l
                 kmax == (z - 1 - g.at) \div l
                 ks == (kmin..Min2(kmax, kmin + w)) \union (Max2(kmin, kmax - w)..kmax)
             IN  IF off = {} THEN {}
                 ELSE {x \in {g.at + k * l + j - 1 : k \in ks, j \in off} : x >= a /\ x < z}
CandPos(s, c, lo, hi, w) ==
    UNION {PosInSeg(s.segs[k], c, lo, hi, w) : k \in DOMAIN s.segs}
Matches(s, lo, hi, pat) ==
    {p \in CandPos(s, pat[1], lo, hi - Len(pat) + 1, Len(pat) + 1) : EqAt(s, p, pat)}
\* Whether pat occurs completely within [lo, hi).
Holds(s, lo, hi, pat) == Matches(s, lo, Min2(hi, s.len), pat) # {}
=============================================================================
