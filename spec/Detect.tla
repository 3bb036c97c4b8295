-------------------------------- MODULE Detect --------------------------------
(* The detector: probe the leading window for a signature, let the base format's reader (if its
   feature is enabled) look deeper, fall back to the generic reader. *)
EXTENDS Readers, SigTable

Window == 36870

\* Signatures -----------------------------------------------------------------
AltMatches(s, a) == \A k \in DOMAIN a.p : EqAt(s, a.p[k].o, a.p[k].b)
\* Alternatives that can match a stream starting with byte c, in table order.
FirstByteOk(a, c) == \A k \in DOMAIN a.p : a.p[k].o = 0 => a.p[k].b[1] = c
CandIdx == [c \in 0..255 |-> SelectSeq([i \in 1..Len(Alts) |-> i], LAMBDA i : FirstByteOk(Alts[i], c))]
\* Index of the first alternative that matches a non-empty stream, 0 if there is none.
SigIndex(s) ==
    LET c == CandIdx[At(s, 0)]
        i == SelectInSeq(c, LAMBDA k : AltMatches(s, Alts[k]))
    IN  IF i = 0 THEN 0 ELSE c[i]
\* The signature format, or "none".
SigOf(s) == LET i == SigIndex(s) IN IF i = 0 THEN "none" ELSE Alts[i].f

\* Readers --------------------------------------------------------------------
ReaderOf == [ AdvancedSystemsFormat |-> "asf",
              CompoundFileBinary |-> "cfb",
              ExtensibleBinaryMetaLanguage |-> "ebml",
              MsDosExecutable |-> "exe",
              Id3v2 |-> "id3v2",
              Mpeg4Part14 |-> "mp4",
              PortableDocumentFormat |-> "pdf",
              Realmedia |-> "rm",
              Sqlite3 |-> "sqlite3",
              ExtensibleMarkupLanguage |-> "xml",
              Zip |-> "zip" ]
BaseFormats == DOMAIN ReaderOf
DeepReaders == {"asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "xml", "zip"}
AllFeatures == {"txt", "asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "xml", "zip"}
BaseOf(r) == CHOOSE f \in BaseFormats : ReaderOf[f] = r

Default == "ArbitraryBinaryData"
GenericOf(s, F) == IF "txt" \in F /\ Run(s, "txt") = "PlainText" THEN "PlainText" ELSE Default

\* The format of a stream under the enabled reader features F.
DetectOf(s, F) ==
    IF s.len = 0 THEN "Empty"
    ELSE LET g == SigOf(s)
         IN  IF g = "none" THEN GenericOf(s, F)
             ELSE IF g \in BaseFormats /\ ReaderOf[g] \in F
             THEN LET o == Run(s, ReaderOf[g]) IN IF o = "ERR" THEN GenericOf(s, F) ELSE o
             ELSE g

\* Documented families: what each reader may report.
Family == [
    asf |-> {"AdvancedSystemsFormat", "MicrosoftDigitalVideoRecording", "WindowsMediaAudio", "WindowsMediaVideo"},
    cfb |-> {"CompoundFileBinary", "ThreeDimensionalStudioMax", "AutodeskInventorAssembly",
            "AutodeskInventorDrawing", "AutodeskInventorPart", "AutodeskInventorPresentation",
            "CorelPresentations7", "FlashProject", "MicrosoftExcelSpreadsheet",
            "MicrosoftPowerpointPresentation", "MicrosoftProjectPlan", "MicrosoftPublisherDocument",
            "MicrosoftSoftwareInstaller", "MicrosoftVisioDrawing", "MicrosoftWordDocument",
            "MicrosoftWorks6Spreadsheet", "MicrosoftWorksDatabase", "MicrosoftWorksWordProcessor",
            "SolidworksAssembly", "SolidworksDrawing", "SolidworksPart", "Starcalc", "Starchart",
            "Stardraw", "Starimpress", "Starmath", "Starwriter", "WordperfectDocument",
            "WordperfectGraphics"},
    ebml |-> {"ExtensibleBinaryMetaLanguage", "Matroska3dVideo", "MatroskaAudio",
            "MatroskaSubtitles", "MatroskaVideo", "Webm"},
    exe |-> {"MsDosExecutable", "DynamicLinkLibrary", "LinearExecutable", "NewExecutable", "PortableExecutable"},
    id3v2 |-> {"Id3v2", "FreeLosslessAudioCodec", "Mpeg12AudioLayer3"},
    mp4 |-> {"Mpeg4Part14", "Mpeg4Part14Audio", "Mpeg4Part14Subtitles", "Mpeg4Part14Video"},
    pdf |-> {"PortableDocumentFormat", "AdobeIllustratorArtwork"},
    rm |-> {"Realmedia", "Realaudio", "Realvideo"},
    sqlite3 |-> {"Sqlite3", "Sketch"},
    txt |-> {"PlainText"},
    xml |-> {"ExtensibleMarkupLanguage", "Abiword", "AbiwordTemplate",
            "AdditiveManufacturingFormat", "AdvancedStreamRedirector", "Atom",
            "CollaborativeDesignActivity", "Extensible3d",
            "ExtensibleStylesheetLanguageTransformations", "Fictionbook", "GpsExchangeFormat",
            "GeographyMarkupLanguage", "KeyholeMarkupLanguage", "MpegDashMpd",
            "MathematicalMarkupLanguage", "Musicxml", "ReallySimpleSyndication",
            "ScalableVectorGraphics", "SimpleObjectAccessProtocol", "TiledMapXml", "TiledTilesetXml",
            "TimedTextMarkupLanguage", "TrainingCenterXml", "UniformOfficeFormatPresentation",
            "UniformOfficeFormatSpreadsheet", "UniformOfficeFormatText", "UniversalSubtitleFormat",
            "XmlLocalizationInterchangeFileFormat", "XmlShareablePlaylistFormat", "Drawio"},
    zip |-> {"Zip", "ThreeDimensionalManufacturingFormat", "AdobeIntegratedRuntime",
            "AndroidAppBundle", "AndroidPackage", "Autodesk123d", "CircuitDiagramDocument",
            "DesignWebFormatXps", "ElectronicPublication", "EnterpriseApplicationArchive",
            "FictionbookZip", "FigmaDesign", "FlashCs5Project", "Fusion360", "IndesignMarkupLanguage",
            "JavaArchive", "KeyholeMarkupLanguageZip", "MicrosoftVisualStudioExtension", "MusicxmlZip",
            "OfficeOpenXmlDocument", "OfficeOpenXmlDrawing", "OfficeOpenXmlPresentation",
            "OfficeOpenXmlSpreadsheet", "OpendocumentDatabase", "OpendocumentFormula",
            "OpendocumentFormulaTemplate", "OpendocumentGraphics", "OpendocumentGraphicsTemplate",
            "OpendocumentPresentation", "OpendocumentPresentationTemplate", "OpendocumentSpreadsheet",
            "OpendocumentSpreadsheetTemplate", "OpendocumentText", "OpendocumentTextMaster",
            "OpendocumentTextMasterTemplate", "OpendocumentTextTemplate", "Openraster", "Openxps",
            "Sketch43", "SpaceclaimDocument", "SunXmlCalc", "SunXmlCalcTemplate", "SunXmlDraw",
            "SunXmlDrawTemplate", "SunXmlImpress", "SunXmlImpressTemplate", "SunXmlMath",
            "SunXmlWriter", "SunXmlWriterGlobal", "SunXmlWriterTemplate", "UniversalSceneDescriptionZip",
            "WebApplicationArchive", "WindowsAppBundle", "WindowsAppPackage", "Xap", "Xpinstall",
            "IosAppStorePackage"}]
=============================================================================
