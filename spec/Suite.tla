-------------------------------- MODULE Suite --------------------------------
(* The case families together.  Kinds selects the kinds of cases to explore. *)
EXTENDS Detector, FamHostile, FamStretch
CONSTANT Kinds

Fam(k) == SubSeq(k, 1, 3)
CasesOf(k) == CASE Fam(k) = "sig" -> SigCases(k)
                [] Fam(k) = "txt" -> TxtCases(k)
                [] Fam(k) = "zip" -> ZipCases(k)
                [] Fam(k) = "mp4" -> Mp4Cases(k)
                [] Fam(k) = "ebm" -> EbmlCases(k)
                [] Fam(k) = "asf" -> AsfCases(k)
                [] Fam(k) = "rms" -> RmCases(k)
                [] Fam(k) = "cfb" -> CfbCases(k)
                [] Fam(k) = "exe" -> ExeCases(k)
                [] Fam(k) = "id3" -> Id3Cases(k)
                [] Fam(k) = "pdf" -> PdfCases(k)
                [] Fam(k) = "xml" -> XCases(k)
                [] Fam(k) = "sql" -> SqlCases(k)
                [] Fam(k) = "str" -> StrCases(k)
                [] OTHER -> HostileCases(k)
SuiteEnc(case) == CASE case.fam = "sig" -> SigEnc(case)
                    [] case.fam = "txt" -> TxtEnc(case)
                    [] case.fam = "zip" -> ZipEnc(case)
                    [] case.fam = "mp4" -> Mp4Enc(case)
                    [] case.fam = "ebm" -> EbmlEnc(case)
                    [] case.fam = "asf" -> AsfEnc(case)
                    [] case.fam = "rms" -> RmEnc(case)
                    [] case.fam = "cfb" -> CfbEnc(case)
                    [] case.fam = "exe" -> ExeEnc(case)
                    [] case.fam = "id3" -> Id3Enc(case)
                    [] case.fam = "pdf" -> PdfEnc(case)
                    [] case.fam = "xml" -> XEnc(case)
                    [] case.fam = "sql" -> SqlEnc(case)
                    [] case.fam = "str" -> StrEnc(case)
                    [] OTHER -> HostileEnc(case)
SuiteMeaning(case) == CASE case.fam = "sig" -> "any"
                        [] case.fam = "txt" -> TxtMeaning(case)
                        [] case.fam = "zip" -> ZipMeaning(case)
                        [] case.fam = "mp4" -> Mp4Meaning(case)
                        [] case.fam = "ebm" -> EbmlMeaning(case)
                        [] case.fam = "asf" -> AsfMeaning(case)
                        [] case.fam = "rms" -> RmMeaning(case)
                        [] case.fam = "cfb" -> CfbMeaning(case)
                        [] case.fam = "exe" -> ExeMeaning(case)
                        [] case.fam = "id3" -> Id3Meaning(case)
                        [] case.fam = "pdf" -> PdfMeaning(case)
                        [] case.fam = "xml" -> XMeaning(case)
                        [] case.fam = "sql" -> SqlMeaning(case)
                        [] case.fam = "str" -> StrMeaning(case)
                        [] OTHER -> HostileMeaning(case)
SuiteSigMeaning(case) == CASE case.fam = "sig" -> SigSigMeaning(case)
                           [] case.fam = "txt" -> IF case.k \in {"txt.byte", "txt.line"} THEN "any" ELSE "none"
                           [] case.fam = "zip" -> "Zip"
                           [] case.fam = "mp4" -> "Mpeg4Part14"
                           [] case.fam = "ebm" -> "ExtensibleBinaryMetaLanguage"
                           [] case.fam = "asf" -> "AdvancedSystemsFormat"
                           [] case.fam = "rms" -> "Realmedia"
                           [] case.fam = "cfb" -> "CompoundFileBinary"
                           [] case.fam = "exe" -> "MsDosExecutable"
                           [] case.fam = "id3" -> "Id3v2"
                           [] case.fam = "pdf" -> "PortableDocumentFormat"
                           [] case.fam = "xml" -> "ExtensibleMarkupLanguage"
                           [] case.fam = "sql" -> "Sqlite3"
                           [] OTHER -> "any"

SuiteExtra(case) == IF case.fam = "str" THEN StrExtra(case) ELSE <<>>
SuiteInit == \E k \in Kinds : \E case \in CasesOf(k) : Start(case)
SuiteNext == Next
=============================================================================
