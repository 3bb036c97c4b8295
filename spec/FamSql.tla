-------------------------------- MODULE FamSql --------------------------------
(* SQLite databases: C26. *)
EXTENDS Scope

SqlSig == <<83, 81, 76, 105, 116, 101, 32, 102, 111, 114, 109, 97, 116, 32, 51, 0>>
\* The 100 bytes of the header, then the searched part; positions count from there.
SqlHead == <<P(SqlSig), P(<<16, 0, 1, 1, 0, 64, 32, 32>>), Z(76)>>

\* Kinds of cases: as in FamPdf; sql.short: n bytes in all; sql.head: marker within the header
SqlBoundary == UNION {{b + d : d \in -27..3} : b \in {924, 4096, 8092, 8192, 16384, 28672}}
\* Words near the marker that do not contain it.
SqlContains(b) == \E i \in 1..(Len(b) - Len(SqliteMarker) + 1) : SubSeq(b, i, i + Len(SqliteMarker) - 1) = SqliteMarker
SqlNear == ListOf({b \in NearWords(SqliteMarker) \union ToSet(WordList(<<"com.bohemiancoding.sketch", "com.bohemiancoding.sketch2", "com.bohemiancoding.sketch4", "bohemiancoding.sketch3", "com.sketch3", "sketch3">>)) : ~SqlContains(b)})
SqlCases(k) ==
    CASE k = "sql.pos" -> [fam : {"sql"}, k : {k}, p : (IF Thorough THEN 0..2100 ELSE 0..30) \union SqlBoundary \union {30000}, e : {0, 1}]
      [] k = "sql.part" ->
           {c \in [fam : {"sql"}, k : {k}, n : 1..25, p : {0, 7, 8165, 8166, 8180, 8191, 8192}, e : {1, 2, 3}] : Thorough \/ (c.n + c.p + c.e) % 2 = 0}
      [] k = "sql.flip" -> [fam : {"sql"}, k : {k}, n : 1..26, d : {1, 32, 64}, p : {0, 100, 8180}]
      [] k = "sql.limit" -> [fam : {"sql"}, k : {k}, p : 32730..32775, e : {0, 100, 60000}]
      [] k = "sql.rep" -> [fam : {"sql"}, k : {k}, n : 1..25, r : {2, 3, 100, 1000}, e : {0, 1}]
      [] k = "sql.end" -> [fam : {"sql"}, k : {k}, n : 0..26, p : {0, 1, 8180, 8192, 32735}]
      [] k = "sql.short" -> [fam : {"sql"}, k : {k}, n : (16..130) \union {512, 4096, 32867, 32868, 32869}]
      [] k = "sql.head" -> [fam : {"sql"}, k : {k}, p : 16..99]
      [] k = "sql.word" -> [fam : {"sql"}, k : {k}, n : DOMAIN SqlNear, p : {0, 300}]
      [] k = "sql.base" -> [fam : {"sql"}, k : {k}, n : 0..5]
SqlFlip(b, i, d) == [b EXCEPT ![i] = IF (@ \div d) % 2 = 1 THEN @ - d ELSE @ + d]
SqlPieces(c) ==
    CASE c.k = "sql.pos" -> SqlHead \o <<R(<<99>>, c.p), P(SqliteMarker), R(<<0>>, c.e * 9000)>>
      [] c.k = "sql.part" -> SqlHead \o <<R(<<46>>, c.p), R(SubSeq(SqliteMarker, 1, c.n), c.e), P(SqliteMarker), P(<<53, 10>>)>>
      [] c.k = "sql.flip" -> SqlHead \o <<R(<<46>>, c.p), P(SqlFlip(SqliteMarker, c.n, c.d)), Z(300)>>
      [] c.k = "sql.limit" -> SqlHead \o <<R(<<46>>, c.p), P(SqliteMarker), Z(c.e)>>
      [] c.k = "sql.rep" -> SqlHead \o <<R(SubSeq(SqliteMarker, 1, c.n), c.r), P(IF c.e = 1 THEN SqliteMarker ELSE <<1>>), P(<<10>>)>>
      [] c.k = "sql.end" -> SqlHead \o <<R(<<46>>, c.p), P(SubSeq(SqliteMarker, 1, c.n))>>
      [] c.k = "sql.short" -> <<P(SqlSig), R(<<99>>, c.n - 16)>>
      [] c.k = "sql.head" -> <<P(SqlSig), Z(c.p - 16), P(SqliteMarker), Z(200)>>
      [] c.k = "sql.word" -> SqlHead \o <<R(<<10>>, c.p), P(SqlNear[c.n]), R(<<32>>, 50)>>
      [] c.k = "sql.base" ->
           (CASE c.n = 0 -> SqlHead
              [] c.n = 1 -> SqlHead \o <<Z(50), P(SqliteMarker), Z(10)>>
              [] c.n = 2 -> SqlHead \o <<Z(20000), P(SqliteMarker), Z(10)>>
              [] c.n = 3 -> SqlHead \o <<Z(40000)>>
              [] c.n = 4 -> <<P(SqlSig)>>
              [] c.n = 5 -> SqlHead \o <<R(<<99>>, 8090), P(SqliteMarker), R(<<255>>, 60000)>>)
SqlEnc(c) == Stream(SqlPieces(c))
Sk(b) == IF b THEN "Sketch" ELSE "Sqlite3"
SqlMeaning(c) ==
    CASE c.k \in {"sql.pos", "sql.part"} -> Sk(TRUE)
      [] c.k \in {"sql.flip", "sql.short"} -> Sk(FALSE)
      [] c.k = "sql.head" -> Sk(FALSE)
      [] c.k = "sql.limit" -> Sk(c.p + 26 <= 32768)
      [] c.k = "sql.rep" -> Sk(c.e = 1 /\ c.n * c.r + 26 <= 32768)
      [] c.k = "sql.end" -> Sk(c.n = 26)
      [] c.k = "sql.word" -> "Sqlite3"
      [] OTHER -> "any"
=============================================================================
