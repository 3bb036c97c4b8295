--------------------------------- MODULE Lefi ---------------------------------
(* The lefi example: one line per argument, in order, aligned; a missing file ends it.

   The pool of paths covers files (with and without a short name), directories, links to each of
   them and to nothing, missing files, and names of different lengths and scripts; w is the number
   of characters of a path (TLC counts UTF-16 units, so it is given). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Catalog

CONSTANTS MaxArgs, Tier, Seed

VARIABLES args,   \* indices into the pool
          k,      \* argument at hand
          width,  \* longest argument so far in the first pass, then the width of the first column
          out,    \* lines printed
          ph      \* measure, print, ok, failed, shown
vars == <<args, k, width, out, ph>>

\* f: format variant, "dir", "link" or "missing"; to: content of a file or target of a link.
Pool == <<
  [p |-> "a.png", w |-> 5, f |-> "PortableNetworkGraphics", to |-> "89504e470d0a1a0a"],
  [p |-> "b", w |-> 1, f |-> "Empty", to |-> ""],
  [p |-> "some longer name.bin", w |-> 20, f |-> "ArbitraryBinaryData", to |-> "00ff"],
  [p |-> "d", w |-> 1, f |-> "dir", to |-> ""],
  [p |-> "directory with a name", w |-> 21, f |-> "dir", to |-> ""],
  [p |-> "link to file", w |-> 12, f |-> "link", to |-> "a.png"],
  [p |-> "l2d", w |-> 3, f |-> "link", to |-> "d"],
  [p |-> "dangling", w |-> 8, f |-> "link", to |-> "nowhere"],
  [p |-> "missing", w |-> 7, f |-> "missing", to |-> ""],
  [p |-> "été", w |-> 3, f |-> "PortableDocumentFormat", to |-> "255044462d"],
  [p |-> "Ωμέγα-данные", w |-> 12, f |-> "PlainText", to |-> "68656c6c6f0a"],
  [p |-> "日本語テキスト.zip", w |-> 11, f |-> "Zip", to |-> "504b0506000000000000000000000000000000000000"],
  [p |-> "😀😀😀😀😀😀😀😀😀😀😀😀😀😀", w |-> 14, f |-> "JointPhotographicExpertsGroup", to |-> "ffd8ff"],
  [p |-> "./d/../a.png", w |-> 12, f |-> "PortableNetworkGraphics", to |-> "-"],
  [p |-> "-", w |-> 1, f |-> "WebassemblyBinary", to |-> "0061736d"],
  [p |-> "--help", w |-> 6, f |-> "Empty", to |-> ""],
  [p |-> "{input:width$}", w |-> 14, f |-> "PlainText", to |-> "78"],
  [p |-> "e\tf", w |-> 3, f |-> "PlainText", to |-> "79"],
  [p |-> "x��y.bin", w |-> 8, f |-> "ArbitraryBinaryData", to |-> "fe"],
  [p |-> "�", w |-> 1, f |-> "PortableDocumentFormat", to |-> "255044462d"],
  [p |-> "�.d", w |-> 3, f |-> "dir", to |-> ""],
  [p |-> "a�", w |-> 2, f |-> "missing", to |-> ""],
  [p |-> "", w |-> 0, f |-> "missing", to |-> ""],
  [p |-> "d/", w |-> 2, f |-> "dir", to |-> "-"],
  [p |-> "l2d/", w |-> 4, f |-> "dir", to |-> "-"] >>
\* The bytes of the names that are not valid UTF-8: each maximal invalid part is shown as one U+FFFD.
Raw == [n \in {"x��y.bin", "�", "�.d", "a�"} |->
          CASE n = "x��y.bin" -> "78ffc3792e62696e" [] n = "�" -> "f09f98" [] n = "�.d" -> "80" \o "2e64" [] n = "a�" -> "61fe"]
ASSUME PrintT(ToJson([raw |-> Raw]))
ASSUME PrintT(ToJson([pool |-> Pool]))
Lists == UNION {[1..n -> DOMAIN Pool] : n \in 0..2}
         \union {<<x, y, z>> : x \in DOMAIN Pool, y \in DOMAIN Pool, z \in DOMAIN Pool}
Picked(l) == Len(l) <= 1 \/ (FoldLeft(LAMBDA acc, x : acc * 19 + x, Seed, l) % (IF Tier = "thorough" THEN 2 ELSE IF Len(l) = 2 THEN 2 ELSE 17) = 0)
\* Long lists: all of the pool without the missing file, forwards and backwards.
NoMiss == SelectSeq([x \in 1..Len(Pool) |-> x], LAMBDA x : Pool[x].f # "missing")
Long == {NoMiss, Reverse(NoMiss), NoMiss \o <<9>> \o NoMiss, NoMiss \o NoMiss \o NoMiss}

LInit == /\ args \in {l \in Lists : Len(l) <= MaxArgs /\ Picked(l)} \union Long
         /\ k = 1 /\ width = 0 /\ out = <<>> /\ ph = "measure"
Spaces == "                                                            "
RowOf(v) == Catalog[CHOOSE x \in DOMAIN Catalog : Catalog[x].v = v]
Verdict(a) == CASE a.f = "link" -> "Symbolic Link"
                [] a.f = "dir" -> "Directory"
                [] OTHER -> LET r == RowOf(a.f) IN IF r.s = "" THEN r.n ELSE r.n \o " (" \o r.s \o ")"
Measure == /\ ph = "measure"
           /\ IF k <= Len(args)
              THEN width' = (IF Pool[args[k]].w > width THEN Pool[args[k]].w ELSE width) /\ k' = k + 1 /\ UNCHANGED ph
              ELSE width' = width + 1 /\ k' = 1 /\ ph' = "print"
           /\ UNCHANGED <<args, out>>
Line ==  /\ ph = "print" /\ k <= Len(args)
         /\ LET a == Pool[args[k]]
            IN  IF a.f = "missing" THEN ph' = "failed" /\ UNCHANGED <<k, out>>
                ELSE /\ out' = Append(out, a.p \o ":" \o SubSeq(Spaces, 1, width - a.w - 1) \o " " \o Verdict(a))
                     /\ k' = k + 1 /\ UNCHANGED ph
         /\ UNCHANGED <<args, width>>
Finish == ph = "print" /\ k > Len(args) /\ ph' = "ok" /\ UNCHANGED <<args, k, width, out>>
Show == /\ ph \in {"ok", "failed"}
        /\ PrintT(ToJson([a |-> [x \in 1..Len(args) |-> Pool[args[x]].p], o |-> out, ok |-> ph = "ok"]))
        /\ ph' = "shown" /\ UNCHANGED <<args, k, width, out>>
LNext == Measure \/ Line \/ Finish \/ Show

\* One line for each argument before the first missing one.
FirstMissing == IF \E x \in DOMAIN args : Pool[args[x]].f = "missing"
                THEN (CHOOSE x \in DOMAIN args : Pool[args[x]].f = "missing" /\ \A y \in 1..(x - 1) : Pool[args[y]].f # "missing")
                ELSE Len(args) + 1
LinesSoFar == ph \in {"ok", "failed", "shown"} => Len(out) = FirstMissing - 1
Wide == ph # "measure" => \A x \in DOMAIN args : Pool[args[x]].w < width
=============================================================================
