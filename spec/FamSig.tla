-------------------------------- MODULE FamSig --------------------------------
(* Streams around the published signatures: C06 to C09. *)
EXTENDS Scope

NAlts == Len(Alts)
AltEnd == [i \in 1..Len(Alts) |->
              FoldLeft(LAMBDA acc, p : IF p.o + Len(p.b) > acc THEN p.o + Len(p.b) ELSE acc, 0, Alts[i].p)]
\* The positions covered by an alternative, in a short list of intervals.
Parts(i) == Alts[i].p
Covered(i, x) == \E k \in DOMAIN Parts(i) : Parts(i)[k].o <= x /\ x < Parts(i)[k].o + Len(Parts(i)[k].b)

\* A stream of n bytes of filler with the parts of alternatives written into it, later ones first.
RECURSIVE WriteParts(_, _, _)
WriteParts(st, ps, k) == IF k = 0 THEN st ELSE WriteParts(Overwrite(st, ps[k].o, ps[k].b), ps, k - 1)
AltStream(i, filler, n) ==
    LET base == Stream(<<R(<<filler>>, n)>>)
    IN  WriteParts(base, Parts(i), Len(Parts(i)))

\* Kinds of cases:
\* exact    a = alternative, b = filler, d = bytes after it
\* cut      a = alternative, b = filler, d = length of the stream
\* flip     a = alternative, b = position, d = change of the byte
\* move     a = alternative, b = 0: one byte later, 1: one byte earlier (if its first part allows)
\* pair     a, b = alternatives that can both match
\* single   a = byte value: one-byte streams; b = 1: repeated
\* lead     a = alternative, b = what precedes the signature
\* trail    a = alternative, b = trailer, d = where it stands
\* window   a = alternative, b = kind of tail, d = position at which the tail starts
\* tail     as window, for the alternatives whose base format has a reader

Fillers == IF Thorough THEN {0, 255, 170, 32, 97} ELSE {0, 170, 97}
CutPoints(i) ==
    UNION {{Parts(i)[k].o + j : j \in 0..Len(Parts(i)[k].b)} : k \in DOMAIN Parts(i)}
      \union {0, 1} \union {AltEnd[i] + 1}
Flips == IF Thorough THEN {1, 2, 4, 8, 16, 32, 64, 128, 255} ELSE {1, 32, 128}
Xor(x, y) == LET bit(v, n) == (v \div n) % 2
             IN  FoldLeft(LAMBDA acc, n : acc + (IF bit(x, n) # bit(y, n) THEN n ELSE 0), 0,
                          <<1, 2, 4, 8, 16, 32, 64, 128>>)
SigPositions(i) == UNION {{Parts(i)[k].o + j : j \in 0..(Len(Parts(i)[k].b) - 1)} : k \in DOMAIN Parts(i)}
\* Whether the parts of i and j agree where they overlap.
PartsAgree(p, q) ==
    \A x \in Max2(p.o, q.o)..(Min2(p.o + Len(p.b), q.o + Len(q.b)) - 1) :
        p.b[x - p.o + 1] = q.b[x - q.o + 1]
Compatible(i, j) == \A k \in DOMAIN Parts(i) : \A l \in DOMAIN Parts(j) : PartsAgree(Parts(i)[k], Parts(j)[l])

SigCases(k) ==
    CASE k = "sig.exact" -> [fam : {"sig"}, k : {k}, a : 1..NAlts, b : Fillers, d : {0, 1, 3000}]
      [] k = "sig.cut" -> UNION {[fam : {"sig"}, k : {k}, a : {i}, b : {170}, d : CutPoints(i)] : i \in 1..NAlts}
      [] k = "sig.flip" -> UNION {[fam : {"sig"}, k : {k}, a : {i}, b : SigPositions(i), d : Flips] : i \in 1..NAlts}
      [] k = "sig.move" -> [fam : {"sig"}, k : {k}, a : 1..NAlts, b : {0, 1}, d : {0}]
      [] k = "sig.lead" ->
           {c \in [fam : {"sig"}, k : {k}, a : 1..NAlts, b : DOMAIN Leads, d : {0}] : Thorough \/ Sampled(c.a * 53 + c.b, 3)}
      [] k = "sig.pair" ->
           UNION {LET js == {j \in (i + 1)..NAlts : Alts[j].f # Alts[i].f /\ Compatible(i, j)}
                  IN  [fam : {"sig"}, k : {k}, a : {i}, b : js, d : {170}] : i \in 1..NAlts}
      [] k = "sig.late" ->     \* one of the two lies near the end of the window
           UNION {LET js == {j \in (i + 1)..NAlts : Alts[j].f # Alts[i].f /\ Compatible(i, j)
                                                    /\ (AltEnd[i] > 30000 \/ AltEnd[j] > 30000)}
                  IN  [fam : {"sig"}, k : {k}, a : {i}, b : js, d : {170}] : i \in 1..NAlts}
      [] k = "sig.single" -> [fam : {"sig"}, k : {k}, a : 0..255, b : {1, 2, 3, 40, 5000, 40000}, d : {0}]
      [] k = "sig.window" ->
           {c \in [fam : {"sig"}, k : {k}, a : 1..NAlts, b : 0..4, d : {Window, Window + 1, Window + 5000}] :
                Alts[c.a].f \notin BaseFormats /\ (Thorough \/ Sampled(c.a * 4 + c.b, 3))}
      [] k = "sig.tail" ->
           {c \in [fam : {"sig"}, k : {k}, a : 1..NAlts, b : 0..4, d : {Window, Window + 1}] :
                Alts[c.a].f \in BaseFormats}
      [] k = "sig.trail" ->    \* a trailer that other programs know; a = 0: no signature at all
           {c \in [fam : {"sig"}, k : {k}, a : 0..NAlts, b : DOMAIN Trailers, d : DOMAIN TrailAt] :
                c.a = 0 \/ Sampled(c.a * 7919 + c.b * 613 + c.d, IF Thorough THEN 40 ELSE 400)}
      [] k = "sig.notail" ->
           {c \in [fam : {"sig"}, k : {k}, a : {97, 0, 200}, b : 0..4, d : {Window, Window + 1}] : TRUE}

L_Pk == <<80, 75, 5, 6>>
L_Ai == <<65, 73, 80, 114, 105, 118, 97, 116, 101, 68, 97, 116, 97>>
\* What follows the window: nothing, zeros, ones, text, or other signatures and markers.
TailOf(kind, n) ==
    CASE kind = 0 -> EmptyStream
      [] kind = 1 -> Stream(<<Z(n)>>)
      [] kind = 2 -> Stream(<<R(<<255>>, n)>>)
      [] kind = 3 -> Stream(<<R(<<97, 98, 10>>, n)>>)
      [] kind = 4 -> Stream(<<P(L_Ai), P(<<137, 80, 78, 71, 13, 10, 26, 10, 0, 0, 0, 13, 73, 72, 68, 82>>),
                              P(<<67, 68, 48, 48, 49>>), R(<<7>>, n), P(L_Pk), Z(18)>>)
SigEnc(c) ==
    CASE c.k = "sig.exact" -> AltStream(c.a, c.b, AltEnd[c.a] + c.d)
      [] c.k = "sig.cut" -> Trunc(AltStream(c.a, c.b, AltEnd[c.a] + 1), c.d)
      [] c.k = "sig.flip" -> LET st == AltStream(c.a, 170, AltEnd[c.a])
                             IN  Overwrite(st, c.b, <<Xor(At(st, c.b), c.d)>>)
      [] c.k = "sig.move" ->
           LET st == AltStream(c.a, 170, AltEnd[c.a])
           IN  IF c.b = 0 THEN ConcatStreams(OfBytes(<<170>>), st) ELSE Drop(st, 1)
      [] c.k = "sig.lead" -> ConcatStreams(Stream(<<Leads[c.b]>>), AltStream(c.a, 170, AltEnd[c.a]))
      [] c.k \in {"sig.pair", "sig.late"} ->
           LET st == AltStream(c.b, c.d, Max2(AltEnd[c.a], AltEnd[c.b]))
           IN  WriteParts(st, Parts(c.a), Len(Parts(c.a)))
      [] c.k = "sig.single" -> Stream(<<R(<<c.a>>, c.b)>>)
      [] c.k \in {"sig.window", "sig.tail"} ->
           ConcatStreams(AltStream(c.a, 170, c.d), TailOf(c.b, 700))
      [] c.k = "sig.trail" ->
           LET word == Trailers[c.b]
               back == TrailAt[c.d]
               n == 37000 + 512 * (c.b % 5)
           IN  ConcatStreams(IF c.a = 0 THEN Stream(<<R(<<1>>, n)>>) ELSE AltStream(c.a, 170, n),
                             Stream(<<P(word), Z(IF back > Len(word) THEN back - Len(word) ELSE 0)>>))
      [] c.k = "sig.notail" -> ConcatStreams(Stream(<<R(<<c.a>>, c.d)>>), TailOf(c.b, 700))

\* What the signature of a case must be.
SigSigMeaning(c) ==
    CASE c.k = "sig.exact" /\ c.b = 170 -> Alts[c.a].f
      [] c.k \in {"sig.pair", "sig.late"} -> Alts[c.a].f
      [] c.k \in {"sig.window", "sig.tail"} -> Alts[c.a].f
      [] c.k = "sig.notail" \/ (c.k = "sig.trail" /\ c.a = 0) -> "none"
      [] c.k = "sig.trail" -> Alts[c.a].f
      [] OTHER -> "any"
=============================================================================
