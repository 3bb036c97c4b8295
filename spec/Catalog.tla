------------------------------ MODULE Catalog ------------------------------
(* Catalogue of the formats: variant, name, short name ("" if none), media type, extension, kind. *)
Catalog == <<
  [v |-> "Abiword", n |-> "AbiWord", s |-> "ABW", m |-> "application/x-abiword", e |-> "abw", k |-> "Document"],
  [v |-> "AbiwordTemplate", n |-> "AbiWord Template", s |-> "AWT", m |-> "application/x-abiword-template", e |-> "awt", k |-> "Document"],
  [v |-> "Ace", n |-> "ACE", s |-> "", m |-> "application/x-ace-compressed", e |-> "ace", k |-> "Archive"],
  [v |-> "ActionsMediaVideo", n |-> "Actions Media Video", s |-> "AMV", m |-> "video/x-amv", e |-> "amv", k |-> "Video"],
  [v |-> "Activemime", n |-> "ActiveMime", s |-> "MSO", m |-> "application/x-mso", e |-> "mso", k |-> "Other"],
  [v |-> "AdaptableScalableTextureCompression", n |-> "Adaptable Scalable Texture Compression", s |-> "ASTC", m |-> "image/x-astc", e |-> "astc", k |-> "Image"],
  [v |-> "AdaptiveMultiRate", n |-> "Adaptive Multi-Rate", s |-> "AMR", m |-> "audio/amr", e |-> "amr", k |-> "Audio"],
  [v |-> "AdditiveManufacturingFormat", n |-> "Additive Manufacturing Format", s |-> "AMF", m |-> "application/x-amf", e |-> "amf", k |-> "Model"],
  [v |-> "AdobeIllustratorArtwork", n |-> "Adobe Illustrator Artwork", s |-> "AI", m |-> "application/vnd.adobe.illustrator", e |-> "ai", k |-> "Image"],
  [v |-> "AdobeIndesignDocument", n |-> "Adobe InDesign Document", s |-> "INDD", m |-> "application/x-indesign", e |-> "indd", k |-> "Document"],
  [v |-> "AdobeIntegratedRuntime", n |-> "Adobe Integrated Runtime", s |-> "AIR", m |-> "application/vnd.adobe.air-application-installer-package+zip", e |-> "air", k |-> "Package"],
  [v |-> "AdobePhotoshopDocument", n |-> "Adobe Photoshop Document", s |-> "PSD", m |-> "image/vnd.adobe.photoshop", e |-> "psd", k |-> "Image"],
  [v |-> "AdvancedAudioCoding", n |-> "Advanced Audio Coding", s |-> "AAC", m |-> "audio/aac", e |-> "aac", k |-> "Audio"],
  [v |-> "AdvancedStreamRedirector", n |-> "Advanced Stream Redirector", s |-> "ASX", m |-> "video/x-ms-asx", e |-> "asx", k |-> "Playlist"],
  [v |-> "AdvancedSystemsFormat", n |-> "Advanced Systems Format", s |-> "ASF", m |-> "application/vnd.ms-asf", e |-> "asf", k |-> "Other"],
  [v |-> "AgeEncryption", n |-> "age encryption", s |-> "", m |-> "application/x-age-encryption", e |-> "age", k |-> "Other"],
  [v |-> "Alz", n |-> "ALZ", s |-> "", m |-> "application/x-alz-compressed", e |-> "alz", k |-> "Archive"],
  [v |-> "AmigaDiskFile", n |-> "Amiga Disk File", s |-> "ADF", m |-> "application/x-amiga-disk-format", e |-> "adf", k |-> "Disk"],
  [v |-> "AndroidAppBundle", n |-> "Android App Bundle", s |-> "AAB", m |-> "application/vnd.android.aab", e |-> "aab", k |-> "Package"],
  [v |-> "AndroidBinaryXml", n |-> "Android Binary XML", s |-> "AXML", m |-> "application/vnd.android.axml", e |-> "xml", k |-> "Metadata"],
  [v |-> "AndroidPackage", n |-> "Android Package", s |-> "APK", m |-> "application/vnd.android.package-archive", e |-> "apk", k |-> "Package"],
  [v |-> "AndroidResourceStorageContainer", n |-> "Android Resource Storage Container", s |-> "ARSC", m |-> "application/vnd.android.arsc", e |-> "arsc", k |-> "Other"],
  [v |-> "AnimatedPortableNetworkGraphics", n |-> "Animated Portable Network Graphics", s |-> "APNG", m |-> "image/apng", e |-> "apng", k |-> "Image"],
  [v |-> "ApacheArrowColumnar", n |-> "Apache Arrow Columnar", s |-> "Arrow", m |-> "application/vnd.apache.arrow.file", e |-> "arrow", k |-> "Other"],
  [v |-> "ApacheAvro", n |-> "Apache Avro", s |-> "Avro", m |-> "application/vnd.apache.avro", e |-> "avro", k |-> "Other"],
  [v |-> "ApacheParquet", n |-> "Apache Parquet", s |-> "Parquet", m |-> "application/vnd.apache.parquet", e |-> "parquet", k |-> "Other"],
  [v |-> "Appimage", n |-> "AppImage", s |-> "", m |-> "application/x-appimage", e |-> "AppImage", k |-> "Package"],
  [v |-> "AppleDiskImage", n |-> "Apple Disk Image", s |-> "DMG", m |-> "application/x-apple-diskimage", e |-> "dmg", k |-> "Disk"],
  [v |-> "AppleIconImage", n |-> "Apple Icon Image", s |-> "ICNS", m |-> "image/x-icns", e |-> "icns", k |-> "Image"],
  [v |-> "AppleItunesAudio", n |-> "Apple iTunes Audio", s |-> "M4A", m |-> "audio/x-m4a", e |-> "m4a", k |-> "Audio"],
  [v |-> "AppleItunesAudiobook", n |-> "Apple iTunes Audiobook", s |-> "M4B", m |-> "audio/mp4", e |-> "m4b", k |-> "Audio"],
  [v |-> "AppleItunesProtectedAudio", n |-> "Apple iTunes Protected Audio", s |-> "M4P", m |-> "audio/mp4", e |-> "m4p", k |-> "Audio"],
  [v |-> "AppleItunesVideo", n |-> "Apple iTunes Video", s |-> "M4V", m |-> "video/x-m4v", e |-> "m4v", k |-> "Video"],
  [v |-> "AppleQuicktime", n |-> "Apple QuickTime", s |-> "MOV", m |-> "video/quicktime", e |-> "mov", k |-> "Video"],
  [v |-> "ArbitraryBinaryData", n |-> "Arbitrary Binary Data", s |-> "BIN", m |-> "application/octet-stream", e |-> "bin", k |-> "Other"],
  [v |-> "ArchivedByRobertJung", n |-> "Archived by Robert Jung", s |-> "ARJ", m |-> "application/x-arj", e |-> "arj", k |-> "Archive"],
  [v |-> "Atari7800Rom", n |-> "Atari 7800 ROM", s |-> "A78", m |-> "application/x-atari-7800-rom", e |-> "a78", k |-> "Rom"],
  [v |-> "Atom", n |-> "Atom", s |-> "", m |-> "application/atom+xml", e |-> "atom", k |-> "Other"],
  [v |-> "Au", n |-> "Au", s |-> "", m |-> "audio/basic", e |-> "au", k |-> "Audio"],
  [v |-> "AudioCodec3", n |-> "Audio Codec 3", s |-> "AC-3", m |-> "audio/ac3", e |-> "ac3", k |-> "Audio"],
  [v |-> "AudioInterchangeFileFormat", n |-> "Audio Interchange File Format", s |-> "AIFF", m |-> "audio/x-aiff", e |-> "aiff", k |-> "Audio"],
  [v |-> "AudioVideoInterleave", n |-> "Audio Video Interleave", s |-> "AVI", m |-> "video/avi", e |-> "avi", k |-> "Video"],
  [v |-> "AudioVisualResearch", n |-> "Audio Visual Research", s |-> "AVR", m |-> "audio/x-avr", e |-> "avr", k |-> "Audio"],
  [v |-> "AutocadDrawing", n |-> "AutoCAD Drawing", s |-> "DWG", m |-> "application/x-dwg", e |-> "dwg", k |-> "Model"],
  [v |-> "Autodesk123d", n |-> "Autodesk 123D", s |-> "123DX", m |-> "model/x-123dx", e |-> "123dx", k |-> "Model"],
  [v |-> "AutodeskAlias", n |-> "Autodesk Alias", s |-> "WIRE", m |-> "model/x-wire", e |-> "wire", k |-> "Model"],
  [v |-> "AutodeskAnimator", n |-> "Autodesk Animator", s |-> "FLI", m |-> "video/x-fli", e |-> "fli", k |-> "Video"],
  [v |-> "AutodeskAnimatorPro", n |-> "Autodesk Animator Pro", s |-> "FLC", m |-> "video/x-flc", e |-> "flc", k |-> "Video"],
  [v |-> "AutodeskInventorAssembly", n |-> "Autodesk Inventor Assembly", s |-> "IAM", m |-> "model/x-iam", e |-> "iam", k |-> "Model"],
  [v |-> "AutodeskInventorDrawing", n |-> "Autodesk Inventor Drawing", s |-> "IDW", m |-> "model/x-idw", e |-> "idw", k |-> "Model"],
  [v |-> "AutodeskInventorPart", n |-> "Autodesk Inventor Part", s |-> "IPT", m |-> "model/x-ipt", e |-> "ipt", k |-> "Model"],
  [v |-> "AutodeskInventorPresentation", n |-> "Autodesk Inventor Presentation", s |-> "IPN", m |-> "model/x-ipn", e |-> "ipn", k |-> "Model"],
  [v |-> "Av1ImageFileFormat", n |-> "AV1 Image File Format", s |-> "AVIF", m |-> "image/avif", e |-> "avif", k |-> "Image"],
  [v |-> "Av1ImageFileFormatSequence", n |-> "AV1 Image File Format Sequence", s |-> "AVIFS", m |-> "image/avif-sequence", e |-> "avifs", k |-> "Image"],
  [v |-> "BdavMpeg2TransportStream", n |-> "BDAV MPEG-2 Transport Stream", s |-> "M2TS", m |-> "video/mp2t", e |-> "m2ts", k |-> "Video"],
  [v |-> "BetterPortableGraphics", n |-> "Better Portable Graphics", s |-> "BPG", m |-> "image/bpg", e |-> "bpg", k |-> "Image"],
  [v |-> "Bittorrent", n |-> "BitTorrent", s |-> "Torrent", m |-> "application/x-bittorrent", e |-> "torrent", k |-> "Metadata"],
  [v |-> "Blender", n |-> "Blender", s |-> "BLEND", m |-> "application/x-blender", e |-> "blend", k |-> "Model"],
  [v |-> "BmfontAscii", n |-> "BMFont ASCII", s |-> "FNT", m |-> "application/x-angelcode-bmfont", e |-> "fnt", k |-> "Font"],
  [v |-> "BmfontBinary", n |-> "BMFont Binary", s |-> "FNT", m |-> "application/x-angelcode-bmfont", e |-> "fnt", k |-> "Font"],
  [v |-> "BroadBandEbook", n |-> "Broad Band eBook", s |-> "BBeB", m |-> "application/x-lrf", e |-> "lrf", k |-> "Ebook"],
  [v |-> "Bzip", n |-> "bzip", s |-> "BZ", m |-> "application/x-bzip", e |-> "bz", k |-> "Compressed"],
  [v |-> "Bzip2", n |-> "bzip2", s |-> "BZ2", m |-> "application/x-bzip2", e |-> "bz2", k |-> "Compressed"],
  [v |-> "Bzip3", n |-> "BZip3", s |-> "BZ3", m |-> "application/x-bzip3", e |-> "bz3", k |-> "Compressed"],
  [v |-> "Cabinet", n |-> "Cabinet", s |-> "CAB", m |-> "application/vnd.ms-cab-compressed", e |-> "cab", k |-> "Archive"],
  [v |-> "CanonRaw", n |-> "Canon Raw", s |-> "CRW", m |-> "image/x-canon-crw", e |-> "crw", k |-> "Image"],
  [v |-> "CanonRaw2", n |-> "Canon Raw 2", s |-> "CR2", m |-> "image/x-canon-cr2", e |-> "cr2", k |-> "Image"],
  [v |-> "CanonRaw3", n |-> "Canon Raw 3", s |-> "CR3", m |-> "image/x-canon-cr3", e |-> "cr3", k |-> "Image"],
  [v |-> "CdAudio", n |-> "CD Audio", s |-> "CDA", m |-> "application/x-cdf", e |-> "cda", k |-> "Metadata"],
  [v |-> "Cinema4d", n |-> "Cinema 4D", s |-> "C4D", m |-> "model/x-c4d", e |-> "c4d", k |-> "Model"],
  [v |-> "Cineon", n |-> "Cineon", s |-> "CIN", m |-> "image/cineon", e |-> "cin", k |-> "Image"],
  [v |-> "CircuitDiagramDocument", n |-> "Circuit Diagram Document", s |-> "CDDX", m |-> "application/vnd.circuitdiagram.document.main+xml", e |-> "cddx", k |-> "Diagram"],
  [v |-> "ClojureScript", n |-> "Clojure Script", s |-> "", m |-> "text/x-clojure", e |-> "clj", k |-> "Other"],
  [v |-> "CollaborativeDesignActivity", n |-> "Collaborative Design Activity", s |-> "COLLADA", m |-> "model/vnd.collada+xml", e |-> "dae", k |-> "Model"],
  [v |-> "Commodore64Cartridge", n |-> "Commodore 64 Cartridge", s |-> "CRT", m |-> "application/x-commodore-64-cartridge", e |-> "crt", k |-> "Rom"],
  [v |-> "Commodore64Program", n |-> "Commodore 64 Program", s |-> "PRG", m |-> "application/x-commodore-64-program", e |-> "prg", k |-> "Executable"],
  [v |-> "CommonObjectFileFormat", n |-> "Common Object File Format", s |-> "COFF", m |-> "application/x-coff", e |-> "coff", k |-> "Executable"],
  [v |-> "CompoundFileBinary", n |-> "Compound File Binary", s |-> "CFB", m |-> "application/x-cfb", e |-> "cfb", k |-> "Other"],
  [v |-> "CorelPresentations", n |-> "Corel Presentations", s |-> "SHW", m |-> "application/x-corelpresentations", e |-> "shw", k |-> "Presentation"],
  [v |-> "CorelPresentations7", n |-> "Corel Presentations 7", s |-> "SHW", m |-> "application/x-corelpresentations", e |-> "shw", k |-> "Presentation"],
  [v |-> "Cpio", n |-> "cpio", s |-> "", m |-> "application/x-cpio", e |-> "cpio", k |-> "Archive"],
  [v |-> "CreativeVoice", n |-> "Creative Voice", s |-> "VOC", m |-> "audio/x-voc", e |-> "voc", k |-> "Audio"],
  [v |-> "DalvikExecutable", n |-> "Dalvik Executable", s |-> "DEX", m |-> "application/vnd.android.dex", e |-> "dex", k |-> "Executable"],
  [v |-> "DebianPackage", n |-> "Debian Package", s |-> "DEB", m |-> "application/vnd.debian.binary-package", e |-> "deb", k |-> "Package"],
  [v |-> "DerCertificate", n |-> "DER Certificate", s |-> "DER", m |-> "application/x-x509-ca-cert", e |-> "der", k |-> "Other"],
  [v |-> "DesignWebFormat", n |-> "Design Web Format", s |-> "DWF", m |-> "model/vnd.dwf", e |-> "dwf", k |-> "Model"],
  [v |-> "DesignWebFormatXps", n |-> "Design Web Format XPS", s |-> "DWFX", m |-> "model/vnd.dwfx+xps", e |-> "dwfx", k |-> "Model"],
  [v |-> "DigitalImagingAndCommunicationsInMedicine", n |-> "Digital Imaging and Communications in Medicine", s |-> "DICOM", m |-> "application/dicom", e |-> "dcm", k |-> "Other"],
  [v |-> "DigitalPictureExchange", n |-> "Digital Picture Exchange", s |-> "DPX", m |-> "image/x-dpx", e |-> "dpx", k |-> "Image"],
  [v |-> "Djvu", n |-> "DjVu", s |-> "", m |-> "image/vnd.djvu", e |-> "djvu", k |-> "Document"],
  [v |-> "DrawingExchangeFormatAscii", n |-> "Drawing Exchange Format ASCII", s |-> "DXF", m |-> "application/x-dxf", e |-> "dxf", k |-> "Model"],
  [v |-> "DrawingExchangeFormatBinary", n |-> "Drawing Exchange Format Binary", s |-> "DXF", m |-> "application/x-dxf", e |-> "dxf", k |-> "Model"],
  [v |-> "Drawio", n |-> "draw.io", s |-> "DRAWIO", m |-> "application/vnd.jgraph.mxfile", e |-> "drawio", k |-> "Diagram"],
  [v |-> "DynamicLinkLibrary", n |-> "Dynamic Link Library", s |-> "DLL", m |-> "application/vnd.microsoft.portable-executable", e |-> "dll", k |-> "Executable"],
  [v |-> "EightBitSampledVoice", n |-> "8-Bit Sampled Voice", s |-> "8SVX", m |-> "audio/x-8svx", e |-> "8svx", k |-> "Audio"],
  [v |-> "ElectronicPublication", n |-> "Electronic Publication", s |-> "EPUB", m |-> "application/epub+zip", e |-> "epub", k |-> "Ebook"],
  [v |-> "EmbeddedOpentype", n |-> "Embedded OpenType", s |-> "EOT", m |-> "application/vnd.ms-fontobject", e |-> "eot", k |-> "Font"],
  [v |-> "Empty", n |-> "Empty", s |-> "", m |-> "application/x-empty", e |-> "empty", k |-> "Other"],
  [v |-> "EncapsulatedPostscript", n |-> "Encapsulated PostScript", s |-> "EPS", m |-> "application/eps", e |-> "eps", k |-> "Image"],
  [v |-> "EnhancedMetafile", n |-> "Enhanced Metafile", s |-> "EMF", m |-> "image/emf", e |-> "emf", k |-> "Image"],
  [v |-> "EnterpriseApplicationArchive", n |-> "Enterprise Application Archive", s |-> "EAR", m |-> "application/java-archive", e |-> "ear", k |-> "Package"],
  [v |-> "ExecutableAndLinkableFormat", n |-> "Executable and Linkable Format", s |-> "ELF", m |-> "application/x-executable", e |-> "elf", k |-> "Executable"],
  [v |-> "ExperimentalComputingFacility", n |-> "Experimental Computing Facility", s |-> "XCF", m |-> "image/x-xcf", e |-> "xcf", k |-> "Image"],
  [v |-> "Extensible3d", n |-> "Extensible 3D", s |-> "X3D", m |-> "model/x3d+xml", e |-> "x3d", k |-> "Model"],
  [v |-> "ExtensibleArchive", n |-> "Extensible Archive", s |-> "XAR", m |-> "application/x-xar", e |-> "xar", k |-> "Archive"],
  [v |-> "ExtensibleBinaryMetaLanguage", n |-> "Extensible Binary Meta Language", s |-> "EBML", m |-> "application/x-ebml", e |-> "ebml", k |-> "Other"],
  [v |-> "ExtensibleMarkupLanguage", n |-> "Extensible Markup Language", s |-> "XML", m |-> "text/xml", e |-> "xml", k |-> "Other"],
  [v |-> "ExtensibleStylesheetLanguageTransformations", n |-> "Extensible Stylesheet Language Transformations", s |-> "XSLT", m |-> "application/xslt+xml", e |-> "xsl", k |-> "Other"],
  [v |-> "Farbfeld", n |-> "farbfeld", s |-> "FF", m |-> "image/x-ff", e |-> "ff", k |-> "Image"],
  [v |-> "Fasttracker2ExtendedModule", n |-> "FastTracker 2 Extended Module", s |-> "XM", m |-> "audio/x-xm", e |-> "xm", k |-> "Audio"],
  [v |-> "Fictionbook", n |-> "FictionBook", s |-> "FB2", m |-> "application/x-fb2+xml", e |-> "fb2", k |-> "Ebook"],
  [v |-> "FictionbookZip", n |-> "FictionBook ZIP", s |-> "FBZ", m |-> "application/x-fbz", e |-> "fbz", k |-> "Ebook"],
  [v |-> "FigletFont", n |-> "FIGlet Font", s |-> "FLF", m |-> "application/x-figlet", e |-> "flf", k |-> "Font"],
  [v |-> "FigmaDesign", n |-> "Figma Design", s |-> "FIG", m |-> "image/x-figma", e |-> "fig", k |-> "Image"],
  [v |-> "Filmbox", n |-> "Filmbox", s |-> "FBX", m |-> "application/vnd.autodesk.fbx", e |-> "fbx", k |-> "Model"],
  [v |-> "FlashCs5Project", n |-> "Flash CS5 Project", s |-> "FLA", m |-> "application/vnd.adobe.fla", e |-> "fla", k |-> "Other"],
  [v |-> "FlashMp4Audio", n |-> "Flash MP4 Audio", s |-> "F4A", m |-> "audio/mp4", e |-> "f4a", k |-> "Audio"],
  [v |-> "FlashMp4Audiobook", n |-> "Flash MP4 Audiobook", s |-> "F4B", m |-> "audio/mp4", e |-> "f4b", k |-> "Audio"],
  [v |-> "FlashMp4ProtectedVideo", n |-> "Flash MP4 Protected Video", s |-> "F4P", m |-> "video/mp4", e |-> "f4p", k |-> "Video"],
  [v |-> "FlashMp4Video", n |-> "Flash MP4 Video", s |-> "F4V", m |-> "video/mp4", e |-> "f4v", k |-> "Video"],
  [v |-> "FlashProject", n |-> "Flash Project", s |-> "FLA", m |-> "application/vnd.adobe.fla", e |-> "fla", k |-> "Other"],
  [v |-> "FlashVideo", n |-> "Flash Video", s |-> "FLV", m |-> "video/x-flv", e |-> "flv", k |-> "Video"],
  [v |-> "FlexibleAndInteroperableDataTransfer", n |-> "Flexible and Interoperable Data Transfer", s |-> "FIT", m |-> "application/x-fit", e |-> "fit", k |-> "Geospatial"],
  [v |-> "FlexibleImageTransportSystem", n |-> "Flexible Image Transport System", s |-> "FITS", m |-> "application/fits", e |-> "fits", k |-> "Other"],
  [v |-> "FreeLosslessAudioCodec", n |-> "Free Lossless Audio Codec", s |-> "FLAC", m |-> "audio/flac", e |-> "flac", k |-> "Audio"],
  [v |-> "FreeLosslessImageFormat", n |-> "Free Lossless Image Format", s |-> "FLIF", m |-> "image/flif", e |-> "flif", k |-> "Image"],
  [v |-> "FujifilmRaw", n |-> "Fujifilm Raw", s |-> "RAF", m |-> "image/x-fuji-raf", e |-> "raf", k |-> "Image"],
  [v |-> "Fusion360", n |-> "Fusion 360", s |-> "F3D", m |-> "model/x-f3d", e |-> "f3d", k |-> "Model"],
  [v |-> "GameBoyAdvanceRom", n |-> "Game Boy Advance ROM", s |-> "GBA", m |-> "application/x-gba-rom", e |-> "gba", k |-> "Rom"],
  [v |-> "GameBoyColorRom", n |-> "Game Boy Color ROM", s |-> "GBC", m |-> "application/x-gameboy-color-rom", e |-> "gbc", k |-> "Rom"],
  [v |-> "GameBoyRom", n |-> "Game Boy ROM", s |-> "GB", m |-> "application/x-gameboy-rom", e |-> "gb", k |-> "Rom"],
  [v |-> "GameGearRom", n |-> "Game Gear ROM", s |-> "GG", m |-> "application/x-gamegear-rom", e |-> "gg", k |-> "Rom"],
  [v |-> "GeographyMarkupLanguage", n |-> "Geography Markup Language", s |-> "GML", m |-> "application/gml+xml", e |-> "gml", k |-> "Geospatial"],
  [v |-> "GettextMachineObject", n |-> "gettext Machine Object", s |-> "MO", m |-> "application/x-gettext-translation", e |-> "mo", k |-> "Other"],
  [v |-> "GlTransmissionFormatBinary", n |-> "GL Transmission Format Binary", s |-> "GLB", m |-> "model/gltf-binary", e |-> "glb", k |-> "Model"],
  [v |-> "Glyphs", n |-> "Glyphs", s |-> "", m |-> "font/x-glyphs", e |-> "glyphs", k |-> "Font"],
  [v |-> "GoogleChromeExtension", n |-> "Google Chrome Extension", s |-> "CRX", m |-> "application/x-google-chrome-extension", e |-> "crx", k |-> "Package"],
  [v |-> "GoogleDraco", n |-> "Google Draco", s |-> "Draco", m |-> "model/x-draco", e |-> "drc", k |-> "Model"],
  [v |-> "GpsExchangeFormat", n |-> "GPS Exchange Format", s |-> "GPX", m |-> "application/gpx+xml", e |-> "gpx", k |-> "Geospatial"],
  [v |-> "GraphicsInterchangeFormat", n |-> "Graphics Interchange Format", s |-> "GIF", m |-> "image/gif", e |-> "gif", k |-> "Image"],
  [v |-> "Gzip", n |-> "gzip", s |-> "GZ", m |-> "application/gzip", e |-> "gz", k |-> "Compressed"],
  [v |-> "HighEfficiencyImageCoding", n |-> "High Efficiency Image Coding", s |-> "HEIC", m |-> "image/heic", e |-> "heic", k |-> "Image"],
  [v |-> "HighEfficiencyImageCodingSequence", n |-> "High Efficiency Image Coding Sequence", s |-> "HEICS", m |-> "image/heic-sequence", e |-> "heics", k |-> "Image"],
  [v |-> "HighEfficiencyImageFileFormat", n |-> "High Efficiency Image File Format", s |-> "HEIF", m |-> "image/heif", e |-> "heif", k |-> "Image"],
  [v |-> "HighEfficiencyImageFileFormatSequence", n |-> "High Efficiency Image File Format Sequence", s |-> "HEIFS", m |-> "image/heif-sequence", e |-> "heifs", k |-> "Image"],
  [v |-> "HypertextMarkupLanguage", n |-> "HyperText Markup Language", s |-> "HTML", m |-> "text/html", e |-> "html", k |-> "Other"],
  [v |-> "Icalendar", n |-> "iCalendar", s |-> "ICS", m |-> "text/calendar", e |-> "ics", k |-> "Other"],
  [v |-> "IccProfile", n |-> "ICC Profile", s |-> "ICC", m |-> "application/vnd.iccprofile", e |-> "icc", k |-> "Other"],
  [v |-> "Id3v2", n |-> "ID3v2", s |-> "ID3", m |-> "application/x-id3v2", e |-> "id3", k |-> "Metadata"],
  [v |-> "ImpulseTrackerModule", n |-> "Impulse Tracker Module", s |-> "IT", m |-> "audio/x-it", e |-> "it", k |-> "Audio"],
  [v |-> "IndesignMarkupLanguage", n |-> "InDesign Markup Language", s |-> "IDML", m |-> "application/vnd.adobe.indesign-idml-package", e |-> "idml", k |-> "Document"],
  [v |-> "InitialGraphicsExchangeSpecification", n |-> "Initial Graphics Exchange Specification", s |-> "IGES", m |-> "model/iges", e |-> "iges", k |-> "Model"],
  [v |-> "InterQuakeExport", n |-> "Inter-Quake Export", s |-> "IQE", m |-> "model/x-iqe", e |-> "iqe", k |-> "Model"],
  [v |-> "InterQuakeModel", n |-> "Inter-Quake Model", s |-> "IQM", m |-> "model/x-iqm", e |-> "iqm", k |-> "Model"],
  [v |-> "IosAppStorePackage", n |-> "iOS App Store Package", s |-> "IPA", m |-> "application/x-ios-app", e |-> "ipa", k |-> "Package"],
  [v |-> "Iso9660", n |-> "ISO 9660", s |-> "ISO", m |-> "application/x-iso9660-image", e |-> "iso", k |-> "Disk"],
  [v |-> "JavaArchive", n |-> "Java Archive", s |-> "JAR", m |-> "application/java-archive", e |-> "jar", k |-> "Package"],
  [v |-> "JavaClass", n |-> "Java Class", s |-> "", m |-> "application/java-vm", e |-> "class", k |-> "Executable"],
  [v |-> "JavaKeystore", n |-> "Java KeyStore", s |-> "JKS", m |-> "application/x-java-keystore", e |-> "jks", k |-> "Other"],
  [v |-> "JointPhotographicExpertsGroup", n |-> "Joint Photographic Experts Group", s |-> "JPEG", m |-> "image/jpeg", e |-> "jpg", k |-> "Image"],
  [v |-> "Jpeg2000Codestream", n |-> "JPEG 2000 Codestream", s |-> "J2C", m |-> "image/x-jp2-codestream", e |-> "j2c", k |-> "Image"],
  [v |-> "Jpeg2000Part1", n |-> "JPEG 2000 Part 1", s |-> "JP2", m |-> "image/jp2", e |-> "jp2", k |-> "Image"],
  [v |-> "Jpeg2000Part2", n |-> "JPEG 2000 Part 2", s |-> "JPX", m |-> "image/jpx", e |-> "jpx", k |-> "Image"],
  [v |-> "Jpeg2000Part3", n |-> "JPEG 2000 Part 3", s |-> "MJ2", m |-> "video/mj2", e |-> "mj2", k |-> "Video"],
  [v |-> "Jpeg2000Part6", n |-> "JPEG 2000 Part 6", s |-> "JPM", m |-> "image/jpm", e |-> "jpm", k |-> "Image"],
  [v |-> "JpegExtendedRange", n |-> "JPEG Extended Range", s |-> "JXR", m |-> "image/jxr", e |-> "jxr", k |-> "Image"],
  [v |-> "JpegLs", n |-> "JPEG-LS", s |-> "JLS", m |-> "image/jls", e |-> "jls", k |-> "Image"],
  [v |-> "JpegNetworkGraphics", n |-> "JPEG Network Graphics", s |-> "JNG", m |-> "image/x-jng", e |-> "jng", k |-> "Image"],
  [v |-> "JpegXl", n |-> "JPEG XL", s |-> "JXL", m |-> "image/jxl", e |-> "jxl", k |-> "Image"],
  [v |-> "JsonFeed", n |-> "JSON Feed", s |-> "", m |-> "application/feed+json", e |-> "json", k |-> "Other"],
  [v |-> "KeyholeMarkupLanguage", n |-> "Keyhole Markup Language", s |-> "KML", m |-> "application/vnd.google-earth.kml+xml", e |-> "kml", k |-> "Geospatial"],
  [v |-> "KeyholeMarkupLanguageZip", n |-> "Keyhole Markup Language ZIP", s |-> "KMZ", m |-> "application/vnd.google-earth.kmz", e |-> "kmz", k |-> "Geospatial"],
  [v |-> "KhronosTexture", n |-> "Khronos Texture", s |-> "KTX", m |-> "image/ktx", e |-> "ktx", k |-> "Image"],
  [v |-> "KhronosTexture2", n |-> "Khronos Texture 2", s |-> "KTX2", m |-> "image/ktx2", e |-> "ktx2", k |-> "Image"],
  [v |-> "Larc", n |-> "LArc", s |-> "LZS", m |-> "application/x-lzh-compressed", e |-> "lzs", k |-> "Archive"],
  [v |-> "Latex", n |-> "LaTeX", s |-> "TeX", m |-> "text/x-tex", e |-> "tex", k |-> "Document"],
  [v |-> "LempelZivFiniteStateEntropy", n |-> "Lempel-Ziv Finite State Entropy", s |-> "LZFSE", m |-> "application/x-lzfse", e |-> "lzfse", k |-> "Compressed"],
  [v |-> "LempelZivMarkovChainAlgorithm", n |-> "Lempel-Ziv-Markov chain algorithm", s |-> "LZMA", m |-> "application/x-lzma", e |-> "lzma", k |-> "Compressed"],
  [v |-> "Lha", n |-> "LHA", s |-> "", m |-> "application/x-lzh-compressed", e |-> "lzh", k |-> "Archive"],
  [v |-> "LinearExecutable", n |-> "Linear Executable", s |-> "LE", m |-> "application/x-dosexec", e |-> "exe", k |-> "Executable"],
  [v |-> "LlvmBitcode", n |-> "LLVM Bitcode", s |-> "BC", m |-> "application/x-llvm", e |-> "bc", k |-> "Executable"],
  [v |-> "LongRangeZip", n |-> "Long Range ZIP", s |-> "LRZIP", m |-> "application/x-lrzip", e |-> "lrz", k |-> "Compressed"],
  [v |-> "LuaBytecode", n |-> "Lua Bytecode", s |-> "", m |-> "application/x-lua-bytecode", e |-> "luac", k |-> "Executable"],
  [v |-> "LuaScript", n |-> "Lua Script", s |-> "", m |-> "text/x-lua", e |-> "lua", k |-> "Other"],
  [v |-> "Lz4", n |-> "LZ4", s |-> "", m |-> "application/x-lz4", e |-> "lz4", k |-> "Compressed"],
  [v |-> "Lzip", n |-> "lzip", s |-> "LZ", m |-> "application/x-lzip", e |-> "lz", k |-> "Compressed"],
  [v |-> "Lzop", n |-> "lzop", s |-> "LZO", m |-> "application/x-lzop", e |-> "lzo", k |-> "Compressed"],
  [v |-> "MachO", n |-> "Mach-O", s |-> "", m |-> "application/x-mach-binary", e |-> "mach", k |-> "Executable"],
  [v |-> "MacosAlias", n |-> "macOS Alias", s |-> "", m |-> "application/x-apple-alias", e |-> "alias", k |-> "Metadata"],
  [v |-> "Magicavoxel", n |-> "MagicaVoxel", s |-> "VOX", m |-> "model/x-vox", e |-> "vox", k |-> "Model"],
  [v |-> "MagickImageFileFormat", n |-> "Magick Image File Format", s |-> "MIFF", m |-> "image/x-miff", e |-> "miff", k |-> "Image"],
  [v |-> "MaterialExchangeFormat", n |-> "Material Exchange Format", s |-> "MXF", m |-> "application/mxf", e |-> "mxf", k |-> "Video"],
  [v |-> "MathematicalMarkupLanguage", n |-> "Mathematical Markup Language", s |-> "MathML", m |-> "application/mathml+xml", e |-> "mathml", k |-> "Formula"],
  [v |-> "Matroska3dVideo", n |-> "Matroska 3D Video", s |-> "MK3D", m |-> "video/matroska", e |-> "mk3d", k |-> "Video"],
  [v |-> "MatroskaAudio", n |-> "Matroska Audio", s |-> "MKA", m |-> "audio/matroska", e |-> "mka", k |-> "Audio"],
  [v |-> "MatroskaSubtitles", n |-> "Matroska Subtitles", s |-> "MKS", m |-> "application/x-matroska", e |-> "mks", k |-> "Subtitle"],
  [v |-> "MatroskaVideo", n |-> "Matroska Video", s |-> "MKV", m |-> "video/matroska", e |-> "mkv", k |-> "Video"],
  [v |-> "MayaAscii", n |-> "Maya ASCII", s |-> "MA", m |-> "application/x-maya-ascii", e |-> "ma", k |-> "Model"],
  [v |-> "MayaBinary", n |-> "Maya Binary", s |-> "MB", m |-> "application/x-maya-binary", e |-> "mb", k |-> "Model"],
  [v |-> "MegaDriveRom", n |-> "Mega Drive ROM", s |-> "MD", m |-> "application/x-genesis-rom", e |-> "md", k |-> "Rom"],
  [v |-> "MetaInformationEncapsulation", n |-> "Meta Information Encapsulation", s |-> "MIE", m |-> "application/x-mie", e |-> "mie", k |-> "Metadata"],
  [v |-> "MicrosoftAccess2007Database", n |-> "Microsoft Access 2007 Database", s |-> "ACCDB", m |-> "application/x-msaccess", e |-> "accdb", k |-> "Database"],
  [v |-> "MicrosoftAccessDatabase", n |-> "Microsoft Access Database", s |-> "MDB", m |-> "application/x-msaccess", e |-> "mdb", k |-> "Database"],
  [v |-> "MicrosoftCompiledHtmlHelp", n |-> "Microsoft Compiled HTML Help", s |-> "CHM", m |-> "application/vnd.ms-htmlhelp", e |-> "chm", k |-> "Other"],
  [v |-> "MicrosoftDigitalVideoRecording", n |-> "Microsoft Digital Video Recording", s |-> "DVR-MS", m |-> "video/x-ms-asf", e |-> "dvr-ms", k |-> "Video"],
  [v |-> "MicrosoftDirectdrawSurface", n |-> "Microsoft DirectDraw Surface", s |-> "DDS", m |-> "image/vnd.ms-dds", e |-> "dds", k |-> "Image"],
  [v |-> "MicrosoftExcelSpreadsheet", n |-> "Microsoft Excel Spreadsheet", s |-> "XLS", m |-> "application/vnd.ms-excel", e |-> "xls", k |-> "Spreadsheet"],
  [v |-> "MicrosoftPowerpointPresentation", n |-> "Microsoft PowerPoint Presentation", s |-> "PPT", m |-> "application/vnd.ms-powerpoint", e |-> "ppt", k |-> "Presentation"],
  [v |-> "MicrosoftProjectPlan", n |-> "Microsoft Project Plan", s |-> "MPP", m |-> "application/vnd.ms-project", e |-> "mpp", k |-> "Other"],
  [v |-> "MicrosoftPublisherDocument", n |-> "Microsoft Publisher Document", s |-> "PUB", m |-> "application/vnd.ms-publisher", e |-> "pub", k |-> "Document"],
  [v |-> "MicrosoftReader", n |-> "Microsoft Reader", s |-> "LIT", m |-> "application/x-ms-reader", e |-> "lit", k |-> "Ebook"],
  [v |-> "MicrosoftSoftwareInstaller", n |-> "Microsoft Software Installer", s |-> "MSI", m |-> "application/x-msi", e |-> "msi", k |-> "Package"],
  [v |-> "MicrosoftVirtualHardDisk", n |-> "Microsoft Virtual Hard Disk", s |-> "VHD", m |-> "application/x-vhd", e |-> "vhd", k |-> "Disk"],
  [v |-> "MicrosoftVirtualHardDisk2", n |-> "Microsoft Virtual Hard Disk 2", s |-> "VHDX", m |-> "application/x-vhdx", e |-> "vhdx", k |-> "Disk"],
  [v |-> "MicrosoftVisioDrawing", n |-> "Microsoft Visio Drawing", s |-> "VSD", m |-> "application/vnd.visio", e |-> "vsd", k |-> "Diagram"],
  [v |-> "MicrosoftVisualStudioExtension", n |-> "Microsoft Visual Studio Extension", s |-> "VSIX", m |-> "application/vsix", e |-> "vsix", k |-> "Package"],
  [v |-> "MicrosoftVisualStudioSolution", n |-> "Microsoft Visual Studio Solution", s |-> "SLN", m |-> "application/vnd.ms-developer", e |-> "sln", k |-> "Other"],
  [v |-> "MicrosoftWordDocument", n |-> "Microsoft Word Document", s |-> "DOC", m |-> "application/msword", e |-> "doc", k |-> "Document"],
  [v |-> "MicrosoftWorks6Spreadsheet", n |-> "Microsoft Works 6 Spreadsheet", s |-> "XLR", m |-> "application/vnd.ms-works", e |-> "xlr", k |-> "Spreadsheet"],
  [v |-> "MicrosoftWorksDatabase", n |-> "Microsoft Works Database", s |-> "WDB", m |-> "application/vnd.ms-works-db", e |-> "wdb", k |-> "Database"],
  [v |-> "MicrosoftWorksSpreadsheet", n |-> "Microsoft Works Spreadsheet", s |-> "WKS", m |-> "application/vnd.ms-works", e |-> "wks", k |-> "Spreadsheet"],
  [v |-> "MicrosoftWorksWordProcessor", n |-> "Microsoft Works Word Processor", s |-> "WPS", m |-> "application/vnd.ms-works", e |-> "wps", k |-> "Document"],
  [v |-> "MicrosoftWrite", n |-> "Microsoft Write", s |-> "WRI", m |-> "application/x-mswrite", e |-> "wri", k |-> "Document"],
  [v |-> "Mobipocket", n |-> "Mobipocket", s |-> "MOBI", m |-> "application/x-mobipocket-ebook", e |-> "mobi", k |-> "Ebook"],
  [v |-> "Model3dAscii", n |-> "Model 3D ASCII", s |-> "A3D", m |-> "text/x-3d-model", e |-> "a3d", k |-> "Model"],
  [v |-> "Model3dBinary", n |-> "Model 3D Binary", s |-> "M3D", m |-> "model/x-3d-model", e |-> "m3d", k |-> "Model"],
  [v |-> "MonkeysAudio", n |-> "Monkey's Audio", s |-> "APE", m |-> "audio/x-ape", e |-> "ape", k |-> "Audio"],
  [v |-> "MozillaArchive", n |-> "Mozilla Archive", s |-> "MAR", m |-> "application/x-mozilla-archive", e |-> "mar", k |-> "Archive"],
  [v |-> "Mp3Url", n |-> "MP3 URL", s |-> "M3U", m |-> "audio/x-mpegurl", e |-> "m3u", k |-> "Playlist"],
  [v |-> "Mpeg12AudioLayer2", n |-> "MPEG-1/2 Audio Layer 2", s |-> "MP2", m |-> "audio/mpeg", e |-> "mp2", k |-> "Audio"],
  [v |-> "Mpeg12AudioLayer3", n |-> "MPEG-1/2 Audio Layer 3", s |-> "MP3", m |-> "audio/mpeg", e |-> "mp3", k |-> "Audio"],
  [v |-> "Mpeg12Video", n |-> "MPEG-1/2 Video", s |-> "MPG", m |-> "video/mpeg", e |-> "mpg", k |-> "Video"],
  [v |-> "Mpeg2TransportStream", n |-> "MPEG-2 Transport Stream", s |-> "TS", m |-> "video/mp2t", e |-> "ts", k |-> "Video"],
  [v |-> "Mpeg4Part14", n |-> "MPEG-4 Part 14", s |-> "MP4", m |-> "application/mp4", e |-> "mp4", k |-> "Other"],
  [v |-> "Mpeg4Part14Audio", n |-> "MPEG-4 Part 14 Audio", s |-> "MP4", m |-> "audio/mp4", e |-> "mp4", k |-> "Audio"],
  [v |-> "Mpeg4Part14Subtitles", n |-> "MPEG-4 Part 14 Subtitles", s |-> "MP4", m |-> "application/mp4", e |-> "mp4", k |-> "Subtitle"],
  [v |-> "Mpeg4Part14Video", n |-> "MPEG-4 Part 14 Video", s |-> "MP4", m |-> "video/mp4", e |-> "mp4", k |-> "Video"],
  [v |-> "MpegDashMpd", n |-> "MPEG-DASH MPD", s |-> "MPD", m |-> "application/dash+xml", e |-> "mpd", k |-> "Playlist"],
  [v |-> "MsDosBatch", n |-> "MS-DOS Batch", s |-> "Batch", m |-> "text/x-msdos-batch", e |-> "bat", k |-> "Other"],
  [v |-> "MsDosExecutable", n |-> "MS-DOS Executable", s |-> "EXE", m |-> "application/x-dosexec", e |-> "exe", k |-> "Executable"],
  [v |-> "Mtv", n |-> "MTV", s |-> "", m |-> "video/x-mtv", e |-> "mtv", k |-> "Video"],
  [v |-> "MultiLayerArchive", n |-> "Multi Layer Archive", s |-> "MLA", m |-> "application/x-mla", e |-> "mla", k |-> "Archive"],
  [v |-> "MultipleImageNetworkGraphics", n |-> "Multiple-image Network Graphics", s |-> "MNG", m |-> "image/x-mng", e |-> "mng", k |-> "Image"],
  [v |-> "Musepack", n |-> "Musepack", s |-> "MPC", m |-> "audio/x-musepack", e |-> "mpc", k |-> "Audio"],
  [v |-> "MusicalInstrumentDigitalInterface", n |-> "Musical Instrument Digital Interface", s |-> "MIDI", m |-> "audio/midi", e |-> "mid", k |-> "Audio"],
  [v |-> "Musicxml", n |-> "MusicXML", s |-> "", m |-> "application/vnd.recordare.musicxml+xml", e |-> "musicxml", k |-> "Other"],
  [v |-> "MusicxmlZip", n |-> "MusicXML ZIP", s |-> "MXL", m |-> "application/vnd.recordare.musicxml", e |-> "mxl", k |-> "Other"],
  [v |-> "NeoGeoPocketColorRom", n |-> "Neo Geo Pocket Color ROM", s |-> "NGC", m |-> "application/x-neo-geo-pocket-rom", e |-> "ngc", k |-> "Rom"],
  [v |-> "NeoGeoPocketRom", n |-> "Neo Geo Pocket ROM", s |-> "NGP", m |-> "application/x-neo-geo-pocket-rom", e |-> "ngp", k |-> "Rom"],
  [v |-> "NewExecutable", n |-> "New Executable", s |-> "NE", m |-> "application/x-ms-ne-executable", e |-> "exe", k |-> "Executable"],
  [v |-> "NikonElectronicFile", n |-> "Nikon Electronic File", s |-> "NEF", m |-> "image/x-nikon-nef", e |-> "nef", k |-> "Image"],
  [v |-> "Nintendo64Rom", n |-> "Nintendo 64 ROM", s |-> "Z64", m |-> "application/x-n64-rom", e |-> "z64", k |-> "Rom"],
  [v |-> "NintendoDsRom", n |-> "Nintendo DS ROM", s |-> "NDS", m |-> "application/x-nintendo-ds-rom", e |-> "nds", k |-> "Rom"],
  [v |-> "NintendoEntertainmentSystemRom", n |-> "Nintendo Entertainment System ROM", s |-> "NES", m |-> "application/x-nintendo-nes-rom", e |-> "nes", k |-> "Rom"],
  [v |-> "NintendoSwitchExecutable", n |-> "Nintendo Switch Executable", s |-> "NSO", m |-> "application/x-nintendo-switch-executable", e |-> "nso", k |-> "Executable"],
  [v |-> "NintendoSwitchPackage", n |-> "Nintendo Switch Package", s |-> "NSP", m |-> "application/x-nintendo-switch-package", e |-> "nsp", k |-> "Package"],
  [v |-> "NintendoSwitchRom", n |-> "Nintendo Switch ROM", s |-> "XCI", m |-> "application/x-nintendo-switch-rom", e |-> "xci", k |-> "Rom"],
  [v |-> "OfficeOpenXmlDocument", n |-> "Office Open XML Document", s |-> "DOCX", m |-> "application/vnd.openxmlformats-officedocument.wordprocessingml.document", e |-> "docx", k |-> "Document"],
  [v |-> "OfficeOpenXmlDrawing", n |-> "Office Open XML Drawing", s |-> "VSDX", m |-> "application/vnd.ms-visio.drawing.main+xml", e |-> "vsdx", k |-> "Diagram"],
  [v |-> "OfficeOpenXmlPresentation", n |-> "Office Open XML Presentation", s |-> "PPTX", m |-> "application/vnd.openxmlformats-officedocument.presentationml.presentation", e |-> "pptx", k |-> "Presentation"],
  [v |-> "OfficeOpenXmlSpreadsheet", n |-> "Office Open XML Spreadsheet", s |-> "XLSX", m |-> "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", e |-> "xlsx", k |-> "Spreadsheet"],
  [v |-> "OggFlac", n |-> "Ogg FLAC", s |-> "OGA", m |-> "audio/ogg", e |-> "oga", k |-> "Audio"],
  [v |-> "OggMedia", n |-> "Ogg Media", s |-> "OGM", m |-> "video/ogg", e |-> "ogm", k |-> "Video"],
  [v |-> "OggMultiplexedMedia", n |-> "Ogg Multiplexed Media", s |-> "OGX", m |-> "application/ogg", e |-> "ogx", k |-> "Other"],
  [v |-> "OggOpus", n |-> "Ogg Opus", s |-> "Opus", m |-> "audio/opus", e |-> "opus", k |-> "Audio"],
  [v |-> "OggSpeex", n |-> "Ogg Speex", s |-> "Speex", m |-> "audio/ogg", e |-> "spx", k |-> "Audio"],
  [v |-> "OggTheora", n |-> "Ogg Theora", s |-> "Theora", m |-> "video/ogg", e |-> "ogv", k |-> "Video"],
  [v |-> "OggVorbis", n |-> "Ogg Vorbis", s |-> "Vorbis", m |-> "audio/ogg", e |-> "ogg", k |-> "Audio"],
  [v |-> "OlympusRawFormat", n |-> "Olympus Raw Format", s |-> "ORF", m |-> "image/x-olympus-orf", e |-> "orf", k |-> "Image"],
  [v |-> "OpendocumentDatabase", n |-> "OpenDocument Database", s |-> "ODB", m |-> "application/vnd.oasis.opendocument.database", e |-> "odb", k |-> "Database"],
  [v |-> "OpendocumentFormula", n |-> "OpenDocument Formula", s |-> "ODF", m |-> "application/vnd.oasis.opendocument.formula", e |-> "odf", k |-> "Formula"],
  [v |-> "OpendocumentFormulaTemplate", n |-> "OpenDocument Formula Template", s |-> "OTF", m |-> "application/vnd.oasis.opendocument.formula-template", e |-> "otf", k |-> "Formula"],
  [v |-> "OpendocumentGraphics", n |-> "OpenDocument Graphics", s |-> "ODG", m |-> "application/vnd.oasis.opendocument.graphics", e |-> "odg", k |-> "Image"],
  [v |-> "OpendocumentGraphicsTemplate", n |-> "OpenDocument Graphics Template", s |-> "OTG", m |-> "application/vnd.oasis.opendocument.graphics-template", e |-> "otg", k |-> "Image"],
  [v |-> "OpendocumentPresentation", n |-> "OpenDocument Presentation", s |-> "ODP", m |-> "application/vnd.oasis.opendocument.presentation", e |-> "odp", k |-> "Presentation"],
  [v |-> "OpendocumentPresentationTemplate", n |-> "OpenDocument Presentation Template", s |-> "OTP", m |-> "application/vnd.oasis.opendocument.presentation-template", e |-> "otp", k |-> "Presentation"],
  [v |-> "OpendocumentSpreadsheet", n |-> "OpenDocument Spreadsheet", s |-> "ODS", m |-> "application/vnd.oasis.opendocument.spreadsheet", e |-> "ods", k |-> "Spreadsheet"],
  [v |-> "OpendocumentSpreadsheetTemplate", n |-> "OpenDocument Spreadsheet Template", s |-> "OTS", m |-> "application/vnd.oasis.opendocument.spreadsheet-template", e |-> "ots", k |-> "Spreadsheet"],
  [v |-> "OpendocumentText", n |-> "OpenDocument Text", s |-> "ODT", m |-> "application/vnd.oasis.opendocument.text", e |-> "odt", k |-> "Document"],
  [v |-> "OpendocumentTextMaster", n |-> "OpenDocument Text Master", s |-> "ODM", m |-> "application/vnd.oasis.opendocument.text-master", e |-> "odm", k |-> "Document"],
  [v |-> "OpendocumentTextMasterTemplate", n |-> "OpenDocument Text Master Template", s |-> "OTM", m |-> "application/vnd.oasis.opendocument.text-master-template", e |-> "otm", k |-> "Document"],
  [v |-> "OpendocumentTextTemplate", n |-> "OpenDocument Text Template", s |-> "OTT", m |-> "application/vnd.oasis.opendocument.text-template", e |-> "ott", k |-> "Document"],
  [v |-> "Openexr", n |-> "OpenEXR", s |-> "EXR", m |-> "image/x-exr", e |-> "exr", k |-> "Image"],
  [v |-> "Opennurbs", n |-> "openNURBS", s |-> "3DM", m |-> "model/x-3dm", e |-> "3dm", k |-> "Model"],
  [v |-> "Openraster", n |-> "OpenRaster", s |-> "ORA", m |-> "image/openraster", e |-> "ora", k |-> "Image"],
  [v |-> "Opentype", n |-> "OpenType", s |-> "OTF", m |-> "font/otf", e |-> "otf", k |-> "Font"],
  [v |-> "Openxps", n |-> "OpenXPS", s |-> "OXPS", m |-> "application/oxps", e |-> "xps", k |-> "Document"],
  [v |-> "OptimizedDalvikExecutable", n |-> "Optimized Dalvik Executable", s |-> "DEY", m |-> "application/vnd.android.dey", e |-> "dey", k |-> "Executable"],
  [v |-> "PanasonicRaw", n |-> "Panasonic Raw", s |-> "RW2", m |-> "image/x-panasonic-rw2", e |-> "rw2", k |-> "Image"],
  [v |-> "PcapDump", n |-> "PCAP Dump", s |-> "PCAP", m |-> "application/vnd.tcpdump.pcap", e |-> "pcap", k |-> "Other"],
  [v |-> "PcapNextGenerationDump", n |-> "PCAP Next Generation Dump", s |-> "PCAPNG", m |-> "application/x-pcapng", e |-> "pcapng", k |-> "Other"],
  [v |-> "PemCertificate", n |-> "PEM Certificate", s |-> "PEM", m |-> "application/x-pem-file", e |-> "crt", k |-> "Other"],
  [v |-> "PemCertificateSigningRequest", n |-> "PEM Certificate Signing Request", s |-> "PEM", m |-> "application/x-pem-file", e |-> "csr", k |-> "Other"],
  [v |-> "PemPrivateKey", n |-> "PEM Private Key", s |-> "PEM", m |-> "application/x-pem-file", e |-> "key", k |-> "Other"],
  [v |-> "PemPublicKey", n |-> "PEM Public Key", s |-> "PEM", m |-> "application/x-pem-file", e |-> "pub", k |-> "Other"],
  [v |-> "PerlScript", n |-> "Perl Script", s |-> "", m |-> "text/x-perl", e |-> "pl", k |-> "Other"],
  [v |-> "PersonalStorageTable", n |-> "Personal Storage Table", s |-> "PST", m |-> "application/vnd.ms-outlook", e |-> "pst", k |-> "Other"],
  [v |-> "PgpMessage", n |-> "PGP Message", s |-> "PGP", m |-> "application/pgp", e |-> "asc", k |-> "Other"],
  [v |-> "PgpPrivateKeyBlock", n |-> "PGP Private Key Block", s |-> "PGP", m |-> "application/pgp-keys", e |-> "asc", k |-> "Other"],
  [v |-> "PgpPublicKeyBlock", n |-> "PGP Public Key Block", s |-> "PGP", m |-> "application/pgp-keys", e |-> "asc", k |-> "Other"],
  [v |-> "PgpSignature", n |-> "PGP Signature", s |-> "PGP", m |-> "application/pgp-signature", e |-> "asc", k |-> "Other"],
  [v |-> "PgpSignedMessage", n |-> "PGP Signed Message", s |-> "PGP", m |-> "application/pgp", e |-> "asc", k |-> "Other"],
  [v |-> "PictureExchange", n |-> "Picture Exchange", s |-> "PCX", m |-> "image/x-pcx", e |-> "pcx", k |-> "Image"],
  [v |-> "PlainText", n |-> "Plain Text", s |-> "TXT", m |-> "text/plain", e |-> "txt", k |-> "Other"],
  [v |-> "Pmarc", n |-> "PMarc", s |-> "PMA", m |-> "application/x-lzh-compressed", e |-> "pma", k |-> "Archive"],
  [v |-> "PolygonAscii", n |-> "Polygon ASCII", s |-> "PLY", m |-> "model/x-ply-ascii", e |-> "ply", k |-> "Model"],
  [v |-> "PolygonBinary", n |-> "Polygon Binary", s |-> "PLY", m |-> "model/x-ply-binary", e |-> "ply", k |-> "Model"],
  [v |-> "PortableArbitraryMap", n |-> "Portable Arbitrary Map", s |-> "PAM", m |-> "image/x-portable-arbitrarymap", e |-> "pam", k |-> "Image"],
  [v |-> "PortableBitmap", n |-> "Portable BitMap", s |-> "PBM", m |-> "image/x-portable-bitmap", e |-> "pbm", k |-> "Image"],
  [v |-> "PortableDocumentFormat", n |-> "Portable Document Format", s |-> "PDF", m |-> "application/pdf", e |-> "pdf", k |-> "Document"],
  [v |-> "PortableExecutable", n |-> "Portable Executable", s |-> "PE", m |-> "application/vnd.microsoft.portable-executable", e |-> "exe", k |-> "Executable"],
  [v |-> "PortableFloatmap", n |-> "Portable FloatMap", s |-> "PFM", m |-> "image/x-pfm", e |-> "pfm", k |-> "Image"],
  [v |-> "PortableGraymap", n |-> "Portable GrayMap", s |-> "PGM", m |-> "image/x-portable-graymap", e |-> "pgm", k |-> "Image"],
  [v |-> "PortableNetworkGraphics", n |-> "Portable Network Graphics", s |-> "PNG", m |-> "image/png", e |-> "png", k |-> "Image"],
  [v |-> "PortablePixmap", n |-> "Portable PixMap", s |-> "PPM", m |-> "image/x-portable-pixmap", e |-> "ppm", k |-> "Image"],
  [v |-> "Postscript", n |-> "PostScript", s |-> "PS", m |-> "application/postscript", e |-> "ps", k |-> "Document"],
  [v |-> "PythonScript", n |-> "Python Script", s |-> "", m |-> "text/x-script.python", e |-> "py", k |-> "Other"],
  [v |-> "QemuCopyOnWrite", n |-> "QEMU Copy On Write", s |-> "QCOW", m |-> "application/x-qemu-disk", e |-> "qcow", k |-> "Disk"],
  [v |-> "QualcommPurevoice", n |-> "Qualcomm PureVoice", s |-> "QCP", m |-> "audio/qcelp", e |-> "qcp", k |-> "Audio"],
  [v |-> "QuiteOkAudio", n |-> "Quite OK Audio", s |-> "QOA", m |-> "audio/x-qoa", e |-> "qoa", k |-> "Audio"],
  [v |-> "QuiteOkImage", n |-> "Quite OK Image", s |-> "QOI", m |-> "image/x-qoi", e |-> "qoi", k |-> "Image"],
  [v |-> "RadianceHdr", n |-> "Radiance HDR", s |-> "HDR", m |-> "image/vnd.radiance", e |-> "hdr", k |-> "Image"],
  [v |-> "Realaudio", n |-> "RealAudio", s |-> "RA", m |-> "audio/x-pn-realaudio", e |-> "ra", k |-> "Audio"],
  [v |-> "ReallySimpleSyndication", n |-> "Really Simple Syndication", s |-> "RSS", m |-> "application/rss+xml", e |-> "rss", k |-> "Other"],
  [v |-> "Realmedia", n |-> "RealMedia", s |-> "RM", m |-> "application/vnd.rn-realmedia", e |-> "rm", k |-> "Other"],
  [v |-> "Realvideo", n |-> "RealVideo", s |-> "RV", m |-> "video/x-pn-realvideo", e |-> "rv", k |-> "Video"],
  [v |-> "RedHatPackageManager", n |-> "Red Hat Package Manager", s |-> "RPM", m |-> "application/x-rpm", e |-> "rpm", k |-> "Package"],
  [v |-> "RichTextFormat", n |-> "Rich Text Format", s |-> "RTF", m |-> "application/rtf", e |-> "rtf", k |-> "Document"],
  [v |-> "RoshalArchive", n |-> "Roshal Archive", s |-> "RAR", m |-> "application/vnd.rar", e |-> "rar", k |-> "Archive"],
  [v |-> "RubyScript", n |-> "Ruby Script", s |-> "", m |-> "text/x-ruby", e |-> "rb", k |-> "Other"],
  [v |-> "Rzip", n |-> "rzip", s |-> "RZ", m |-> "application/x-rzip", e |-> "rz", k |-> "Compressed"],
  [v |-> "ScalableVectorGraphics", n |-> "Scalable Vector Graphics", s |-> "SVG", m |-> "image/svg+xml", e |-> "svg", k |-> "Image"],
  [v |-> "ScreamTracker3Module", n |-> "Scream Tracker 3 Module", s |-> "S3M", m |-> "audio/x-s3m", e |-> "s3m", k |-> "Audio"],
  [v |-> "SegaMasterSystemRom", n |-> "Sega Master System ROM", s |-> "SMS", m |-> "application/x-sms-rom", e |-> "sms", k |-> "Rom"],
  [v |-> "Seqbox", n |-> "SeqBox", s |-> "SBX", m |-> "application/x-sbx", e |-> "sbx", k |-> "Archive"],
  [v |-> "SevenZip", n |-> "7-Zip", s |-> "7Z", m |-> "application/x-7z-compressed", e |-> "7z", k |-> "Archive"],
  [v |-> "Shapefile", n |-> "Shapefile", s |-> "SHP", m |-> "application/x-esri-shape", e |-> "shp", k |-> "Geospatial"],
  [v |-> "ShellScript", n |-> "Shell Script", s |-> "", m |-> "text/x-shellscript", e |-> "sh", k |-> "Other"],
  [v |-> "ShoutcastPlaylist", n |-> "SHOUTcast Playlist", s |-> "PLS", m |-> "audio/x-scpls", e |-> "pls", k |-> "Playlist"],
  [v |-> "SiliconGraphicsImage", n |-> "Silicon Graphics Image", s |-> "SGI", m |-> "image/x-sgi", e |-> "sgi", k |-> "Image"],
  [v |-> "SiliconGraphicsMovie", n |-> "Silicon Graphics Movie", s |-> "SGI", m |-> "video/x-sgi-movie", e |-> "sgi", k |-> "Video"],
  [v |-> "SimpleObjectAccessProtocol", n |-> "Simple Object Access Protocol", s |-> "SOAP", m |-> "application/soap+xml", e |-> "soap", k |-> "Other"],
  [v |-> "Sketch", n |-> "Sketch", s |-> "", m |-> "image/x-sketch", e |-> "sketch", k |-> "Image"],
  [v |-> "Sketch43", n |-> "Sketch 43", s |-> "", m |-> "image/x-sketch", e |-> "sketch", k |-> "Image"],
  [v |-> "Sketchup", n |-> "SketchUp", s |-> "SKP", m |-> "application/vnd.sketchup.skp", e |-> "skp", k |-> "Model"],
  [v |-> "SmallWebFormat", n |-> "Small Web Format", s |-> "SWF", m |-> "application/x-shockwave-flash", e |-> "swf", k |-> "Other"],
  [v |-> "Snappy", n |-> "Snappy", s |-> "", m |-> "application/x-snappy-framed", e |-> "sz", k |-> "Compressed"],
  [v |-> "SolidworksAssembly", n |-> "SolidWorks Assembly", s |-> "SLDASM", m |-> "model/x-sldasm", e |-> "sldasm", k |-> "Model"],
  [v |-> "SolidworksDrawing", n |-> "SolidWorks Drawing", s |-> "SLDDRW", m |-> "model/x-slddrw", e |-> "slddrw", k |-> "Model"],
  [v |-> "SolidworksPart", n |-> "SolidWorks Part", s |-> "SLDPRT", m |-> "model/x-sldprt", e |-> "sldprt", k |-> "Model"],
  [v |-> "SonyDsdStreamFile", n |-> "Sony DSD Stream File", s |-> "DSF", m |-> "audio/x-dsf", e |-> "dsf", k |-> "Audio"],
  [v |-> "SonyMovie", n |-> "Sony Movie", s |-> "MQV", m |-> "video/quicktime", e |-> "mqv", k |-> "Video"],
  [v |-> "Soundfont2", n |-> "SoundFont 2", s |-> "SF2", m |-> "audio/x-soundfont", e |-> "sf2", k |-> "Audio"],
  [v |-> "SpaceclaimDocument", n |-> "SpaceClaim Document", s |-> "SCDOC", m |-> "model/x-scdoc", e |-> "scdoc", k |-> "Model"],
  [v |-> "Sqlite3", n |-> "SQLite 3", s |-> "", m |-> "application/vnd.sqlite3", e |-> "sqlite", k |-> "Database"],
  [v |-> "Squashfs", n |-> "Squashfs", s |-> "", m |-> "application/x-squashfs", e |-> "sqsh", k |-> "Archive"],
  [v |-> "StandardForTheExchangeOfProductModelData", n |-> "Standard for the Exchange of Product model data", s |-> "STEP", m |-> "model/step", e |-> "step", k |-> "Model"],
  [v |-> "Starcalc", n |-> "StarCalc", s |-> "SDC", m |-> "application/vnd.stardivision.calc", e |-> "sdc", k |-> "Spreadsheet"],
  [v |-> "Starchart", n |-> "StarChart", s |-> "SDS", m |-> "application/vnd.stardivision.chart", e |-> "sds", k |-> "Diagram"],
  [v |-> "Stardraw", n |-> "StarDraw", s |-> "SDA", m |-> "application/vnd.stardivision.draw", e |-> "sda", k |-> "Image"],
  [v |-> "Starimpress", n |-> "StarImpress", s |-> "SDD", m |-> "application/vnd.stardivision.impress", e |-> "sdd", k |-> "Presentation"],
  [v |-> "Starmath", n |-> "StarMath", s |-> "SMF", m |-> "application/vnd.stardivision.math", e |-> "smf", k |-> "Formula"],
  [v |-> "Starwriter", n |-> "StarWriter", s |-> "SDW", m |-> "application/vnd.stardivision.writer", e |-> "sdw", k |-> "Document"],
  [v |-> "StereolithographyAscii", n |-> "Stereolithography ASCII", s |-> "STL", m |-> "model/x-stl-ascii", e |-> "stl", k |-> "Model"],
  [v |-> "Stuffit", n |-> "StuffIt", s |-> "SIT", m |-> "application/x-stuffit", e |-> "sit", k |-> "Archive"],
  [v |-> "StuffitX", n |-> "StuffIt X", s |-> "SITX", m |-> "application/x-stuffitx", e |-> "sitx", k |-> "Archive"],
  [v |-> "SubripText", n |-> "SubRip Text", s |-> "SRT", m |-> "application/x-subrip", e |-> "srt", k |-> "Subtitle"],
  [v |-> "SunXmlCalc", n |-> "Sun XML Calc", s |-> "SXC", m |-> "application/vnd.sun.xml.calc", e |-> "sxc", k |-> "Spreadsheet"],
  [v |-> "SunXmlCalcTemplate", n |-> "Sun XML Calc Template", s |-> "STC", m |-> "application/vnd.sun.xml.calc.template", e |-> "stc", k |-> "Spreadsheet"],
  [v |-> "SunXmlDraw", n |-> "Sun XML Draw", s |-> "SXD", m |-> "application/vnd.sun.xml.draw", e |-> "sxd", k |-> "Image"],
  [v |-> "SunXmlDrawTemplate", n |-> "Sun XML Draw Template", s |-> "STD", m |-> "application/vnd.sun.xml.draw.template", e |-> "std", k |-> "Image"],
  [v |-> "SunXmlImpress", n |-> "Sun XML Impress", s |-> "SXI", m |-> "application/vnd.sun.xml.impress", e |-> "sxi", k |-> "Presentation"],
  [v |-> "SunXmlImpressTemplate", n |-> "Sun XML Impress Template", s |-> "STI", m |-> "application/vnd.sun.xml.impress.template", e |-> "sti", k |-> "Presentation"],
  [v |-> "SunXmlMath", n |-> "Sun XML Math", s |-> "SXM", m |-> "application/vnd.sun.xml.math", e |-> "sxm", k |-> "Formula"],
  [v |-> "SunXmlWriter", n |-> "Sun XML Writer", s |-> "SXW", m |-> "application/vnd.sun.xml.writer", e |-> "sxw", k |-> "Document"],
  [v |-> "SunXmlWriterGlobal", n |-> "Sun XML Writer Global", s |-> "SGW", m |-> "application/vnd.sun.xml.writer.global", e |-> "sgw", k |-> "Document"],
  [v |-> "SunXmlWriterTemplate", n |-> "Sun XML Writer Template", s |-> "STW", m |-> "application/vnd.sun.xml.writer.template", e |-> "stw", k |-> "Document"],
  [v |-> "TagImageFileFormat", n |-> "Tag Image File Format", s |-> "TIFF", m |-> "image/tiff", e |-> "tiff", k |-> "Image"],
  [v |-> "TapeArchive", n |-> "Tape Archive", s |-> "TAR", m |-> "application/x-tar", e |-> "tar", k |-> "Archive"],
  [v |-> "Tasty", n |-> "TASTy", s |-> "", m |-> "application/x-tasty", e |-> "tasty", k |-> "Metadata"],
  [v |-> "ThirdGenerationPartnershipProject", n |-> "3rd Generation Partnership Project", s |-> "3GPP", m |-> "video/3gpp", e |-> "3gp", k |-> "Video"],
  [v |-> "ThirdGenerationPartnershipProject2", n |-> "3rd Generation Partnership Project 2", s |-> "3GPP2", m |-> "video/3gpp2", e |-> "3g2", k |-> "Video"],
  [v |-> "ThreeDimensionalManufacturingFormat", n |-> "3D Manufacturing Format", s |-> "3MF", m |-> "application/vnd.ms-package.3dmanufacturing-3dmodel+xml", e |-> "3mf", k |-> "Model"],
  [v |-> "ThreeDimensionalStudio", n |-> "3D Studio", s |-> "3DS", m |-> "application/x-3ds", e |-> "3ds", k |-> "Model"],
  [v |-> "ThreeDimensionalStudioMax", n |-> "3D Studio Max", s |-> "MAX", m |-> "application/x-max", e |-> "max", k |-> "Model"],
  [v |-> "TiledMapXml", n |-> "Tiled Map XML", s |-> "TMX", m |-> "application/x-tmx+xml", e |-> "tmx", k |-> "Other"],
  [v |-> "TiledTilesetXml", n |-> "Tiled Tileset XML", s |-> "TSX", m |-> "application/x-tsx+xml", e |-> "tsx", k |-> "Other"],
  [v |-> "TimedTextMarkupLanguage", n |-> "Timed Text Markup Language", s |-> "TTML", m |-> "application/ttml+xml", e |-> "ttml", k |-> "Subtitle"],
  [v |-> "ToolCommandLanguageScript", n |-> "Tool Command Language Script", s |-> "Tcl Script", m |-> "text/x-tcl", e |-> "tcl", k |-> "Other"],
  [v |-> "TrainingCenterXml", n |-> "Training Center XML", s |-> "TCX", m |-> "application/vnd.garmin.tcx+xml", e |-> "tcx", k |-> "Geospatial"],
  [v |-> "Truetype", n |-> "TrueType", s |-> "TTF", m |-> "font/ttf", e |-> "ttf", k |-> "Font"],
  [v |-> "TruetypeCollection", n |-> "TrueType Collection", s |-> "TTC", m |-> "font/collection", e |-> "ttc", k |-> "Font"],
  [v |-> "UltimateSoundtrackerModule", n |-> "Ultimate Soundtracker Module", s |-> "MOD", m |-> "audio/x-mod", e |-> "mod", k |-> "Audio"],
  [v |-> "UniformOfficeFormatPresentation", n |-> "Uniform Office Format Presentation", s |-> "UOP", m |-> "application/vnd.uof.presentation", e |-> "uop", k |-> "Presentation"],
  [v |-> "UniformOfficeFormatSpreadsheet", n |-> "Uniform Office Format Spreadsheet", s |-> "UOS", m |-> "application/vnd.uof.spreadsheet", e |-> "uos", k |-> "Spreadsheet"],
  [v |-> "UniformOfficeFormatText", n |-> "Uniform Office Format Text", s |-> "UOT", m |-> "application/vnd.uof.text", e |-> "uot", k |-> "Document"],
  [v |-> "Universal3d", n |-> "Universal 3D", s |-> "U3D", m |-> "model/u3d", e |-> "u3d", k |-> "Model"],
  [v |-> "UniversalSceneDescriptionAscii", n |-> "Universal Scene Description ASCII", s |-> "USDA", m |-> "model/x-usd", e |-> "usda", k |-> "Model"],
  [v |-> "UniversalSceneDescriptionBinary", n |-> "Universal Scene Description Binary", s |-> "USDC", m |-> "model/x-usd", e |-> "usdc", k |-> "Model"],
  [v |-> "UniversalSceneDescriptionZip", n |-> "Universal Scene Description ZIP", s |-> "USDZ", m |-> "model/vnd.usdz+zip", e |-> "usdz", k |-> "Model"],
  [v |-> "UniversalSubtitleFormat", n |-> "Universal Subtitle Format", s |-> "USF", m |-> "application/x-usf", e |-> "usf", k |-> "Subtitle"],
  [v |-> "UnixArchiver", n |-> "UNIX archiver", s |-> "archiver", m |-> "application/x-archive", e |-> "a", k |-> "Archive"],
  [v |-> "UnixCompress", n |-> "UNIX compress", s |-> "compress", m |-> "application/x-compress", e |-> "Z", k |-> "Compressed"],
  [v |-> "Vcalendar", n |-> "vCalendar", s |-> "VCS", m |-> "text/calendar", e |-> "vcs", k |-> "Other"],
  [v |-> "Vcard", n |-> "vCard", s |-> "VCF", m |-> "text/vcard", e |-> "vcf", k |-> "Other"],
  [v |-> "VirtualMachineDisk", n |-> "Virtual Machine Disk", s |-> "VMDK", m |-> "application/x-vmdk", e |-> "vmdk", k |-> "Disk"],
  [v |-> "VirtualRealityModelingLanguage", n |-> "Virtual Reality Modeling Language", s |-> "VRML", m |-> "model/vrml", e |-> "wrl", k |-> "Model"],
  [v |-> "VirtualboxVirtualDiskImage", n |-> "VirtualBox Virtual Disk Image", s |-> "VDI", m |-> "application/x-virtualbox-vdi", e |-> "vdi", k |-> "Disk"],
  [v |-> "WaveformAudio", n |-> "Waveform Audio", s |-> "WAV", m |-> "audio/vnd.wave", e |-> "wav", k |-> "Audio"],
  [v |-> "Wavpack", n |-> "WavPack", s |-> "WV", m |-> "audio/wavpack", e |-> "wv", k |-> "Audio"],
  [v |-> "WebApplicationArchive", n |-> "Web Application Archive", s |-> "WAR", m |-> "application/java-archive", e |-> "war", k |-> "Package"],
  [v |-> "WebOpenFontFormat", n |-> "Web Open Font Format", s |-> "WOFF", m |-> "font/woff", e |-> "woff", k |-> "Font"],
  [v |-> "WebOpenFontFormat2", n |-> "Web Open Font Format 2", s |-> "WOFF2", m |-> "font/woff2", e |-> "woff2", k |-> "Font"],
  [v |-> "WebVideoTextTracks", n |-> "Web Video Text Tracks", s |-> "WebVTT", m |-> "text/vtt", e |-> "vtt", k |-> "Subtitle"],
  [v |-> "WebassemblyBinary", n |-> "WebAssembly Binary", s |-> "Wasm", m |-> "application/wasm", e |-> "wasm", k |-> "Executable"],
  [v |-> "WebassemblyText", n |-> "WebAssembly Text", s |-> "WAT", m |-> "text/wasm", e |-> "wat", k |-> "Other"],
  [v |-> "Webm", n |-> "WebM", s |-> "", m |-> "video/webm", e |-> "webm", k |-> "Video"],
  [v |-> "Webp", n |-> "WebP", s |-> "", m |-> "image/webp", e |-> "webp", k |-> "Image"],
  [v |-> "WindowsAnimatedCursor", n |-> "Windows Animated Cursor", s |-> "ANI", m |-> "application/x-navi-animation", e |-> "ani", k |-> "Image"],
  [v |-> "WindowsAppBundle", n |-> "Windows App Bundle", s |-> "APPXBUNDLE", m |-> "application/vnd.ms-appx.bundle", e |-> "appxbundle", k |-> "Package"],
  [v |-> "WindowsAppPackage", n |-> "Windows App Package", s |-> "APPX", m |-> "application/vnd.ms-appx", e |-> "appx", k |-> "Package"],
  [v |-> "WindowsBitmap", n |-> "Windows Bitmap", s |-> "BMP", m |-> "image/bmp", e |-> "bmp", k |-> "Image"],
  [v |-> "WindowsCursor", n |-> "Windows Cursor", s |-> "CUR", m |-> "image/x-icon", e |-> "cur", k |-> "Image"],
  [v |-> "WindowsIcon", n |-> "Windows Icon", s |-> "ICO", m |-> "image/x-icon", e |-> "ico", k |-> "Image"],
  [v |-> "WindowsImagingFormat", n |-> "Windows Imaging Format", s |-> "WIM", m |-> "application/x-ms-wim", e |-> "wim", k |-> "Archive"],
  [v |-> "WindowsMediaAudio", n |-> "Windows Media Audio", s |-> "WMA", m |-> "audio/x-ms-wma", e |-> "wma", k |-> "Audio"],
  [v |-> "WindowsMediaPlaylist", n |-> "Windows Media Playlist", s |-> "WPL", m |-> "application/vnd.ms-wpl", e |-> "wpl", k |-> "Playlist"],
  [v |-> "WindowsMediaVideo", n |-> "Windows Media Video", s |-> "WMV", m |-> "video/x-ms-wmv", e |-> "wmv", k |-> "Video"],
  [v |-> "WindowsMetafile", n |-> "Windows Metafile", s |-> "WMF", m |-> "image/wmf", e |-> "wmf", k |-> "Image"],
  [v |-> "WindowsRecordedTvShow", n |-> "Windows Recorded TV Show", s |-> "WTV", m |-> "video/x-wtv", e |-> "wtv", k |-> "Video"],
  [v |-> "WindowsShortcut", n |-> "Windows Shortcut", s |-> "LNK", m |-> "application/x-ms-shortcut", e |-> "lnk", k |-> "Metadata"],
  [v |-> "WordperfectDocument", n |-> "WordPerfect Document", s |-> "WPD", m |-> "application/vnd.wordperfect", e |-> "wpd", k |-> "Document"],
  [v |-> "WordperfectGraphics", n |-> "WordPerfect Graphics", s |-> "WPG", m |-> "application/vnd.wordperfect", e |-> "wpg", k |-> "Image"],
  [v |-> "WordperfectMacro", n |-> "WordPerfect Macro", s |-> "WPM", m |-> "application/vnd.wordperfect", e |-> "wpm", k |-> "Other"],
  [v |-> "WordperfectPresentations", n |-> "WordPerfect Presentations", s |-> "SHW", m |-> "application/vnd.wordperfect", e |-> "shw", k |-> "Presentation"],
  [v |-> "XPixmap", n |-> "X PixMap", s |-> "XPM", m |-> "image/x-xpixmap", e |-> "xpm", k |-> "Image"],
  [v |-> "Xap", n |-> "XAP", s |-> "", m |-> "application/x-silverlight-app", e |-> "xap", k |-> "Package"],
  [v |-> "Xbox360Executable", n |-> "Xbox 360 Executable", s |-> "XEX", m |-> "application/x-xbox360-executable", e |-> "xex", k |-> "Executable"],
  [v |-> "XboxExecutable", n |-> "Xbox Executable", s |-> "XBE", m |-> "application/x-xbox-executable", e |-> "xbe", k |-> "Executable"],
  [v |-> "XmlLocalizationInterchangeFileFormat", n |-> "XML Localization Interchange File Format", s |-> "XLIFF", m |-> "application/xliff+xml", e |-> "xlf", k |-> "Other"],
  [v |-> "XmlShareablePlaylistFormat", n |-> "XML Shareable Playlist Format", s |-> "XSPF", m |-> "application/xspf+xml", e |-> "xspf", k |-> "Playlist"],
  [v |-> "Xpinstall", n |-> "XPInstall", s |-> "XPI", m |-> "application/x-xpinstall", e |-> "xpi", k |-> "Package"],
  [v |-> "Xz", n |-> "XZ", s |-> "", m |-> "application/x-xz", e |-> "xz", k |-> "Compressed"],
  [v |-> "Zip", n |-> "ZIP", s |-> "", m |-> "application/zip", e |-> "zip", k |-> "Archive"],
  [v |-> "Zoo", n |-> "zoo", s |-> "", m |-> "application/x-zoo", e |-> "zoo", k |-> "Archive"],
  [v |-> "Zpaq", n |-> "ZPAQ", s |-> "", m |-> "application/x-zpaq", e |-> "zpaq", k |-> "Archive"],
  [v |-> "Zstandard", n |-> "Zstandard", s |-> "zstd", m |-> "application/zstd", e |-> "zst", k |-> "Compressed"]
>>

(* The documentation: every supported format, listed under its kind. *)
Documented == <<
  [t |-> "7-Zip (7Z)", k |-> "Archive"],
  [t |-> "ACE", k |-> "Archive"],
  [t |-> "ALZ", k |-> "Archive"],
  [t |-> "Archived by Robert Jung (ARJ)", k |-> "Archive"],
  [t |-> "Cabinet (CAB)", k |-> "Archive"],
  [t |-> "Extensible Archive (XAR)", k |-> "Archive"],
  [t |-> "LArc (LZS)", k |-> "Archive"],
  [t |-> "LHA", k |-> "Archive"],
  [t |-> "Mozilla Archive (MAR)", k |-> "Archive"],
  [t |-> "Multi Layer Archive (MLA)", k |-> "Archive"],
  [t |-> "PMarc (PMA)", k |-> "Archive"],
  [t |-> "Roshal Archive (RAR)", k |-> "Archive"],
  [t |-> "SeqBox (SBX)", k |-> "Archive"],
  [t |-> "Squashfs", k |-> "Archive"],
  [t |-> "StuffIt (SIT)", k |-> "Archive"],
  [t |-> "StuffIt X (SITX)", k |-> "Archive"],
  [t |-> "Tape Archive (TAR)", k |-> "Archive"],
  [t |-> "UNIX archiver (archiver)", k |-> "Archive"],
  [t |-> "Windows Imaging Format (WIM)", k |-> "Archive"],
  [t |-> "ZIP", k |-> "Archive"],
  [t |-> "ZPAQ", k |-> "Archive"],
  [t |-> "cpio", k |-> "Archive"],
  [t |-> "zoo", k |-> "Archive"],
  [t |-> "8-Bit Sampled Voice (8SVX)", k |-> "Audio"],
  [t |-> "Adaptive Multi-Rate (AMR)", k |-> "Audio"],
  [t |-> "Advanced Audio Coding (AAC)", k |-> "Audio"],
  [t |-> "Apple iTunes Audio (M4A)", k |-> "Audio"],
  [t |-> "Apple iTunes Audiobook (M4B)", k |-> "Audio"],
  [t |-> "Apple iTunes Protected Audio (M4P)", k |-> "Audio"],
  [t |-> "Au", k |-> "Audio"],
  [t |-> "Audio Codec 3 (AC-3)", k |-> "Audio"],
  [t |-> "Audio Interchange File Format (AIFF)", k |-> "Audio"],
  [t |-> "Audio Visual Research (AVR)", k |-> "Audio"],
  [t |-> "Creative Voice (VOC)", k |-> "Audio"],
  [t |-> "FastTracker 2 Extended Module (XM)", k |-> "Audio"],
  [t |-> "Flash MP4 Audio (F4A)", k |-> "Audio"],
  [t |-> "Flash MP4 Audiobook (F4B)", k |-> "Audio"],
  [t |-> "Free Lossless Audio Codec (FLAC)", k |-> "Audio"],
  [t |-> "Impulse Tracker Module (IT)", k |-> "Audio"],
  [t |-> "MPEG-1/2 Audio Layer 2 (MP2)", k |-> "Audio"],
  [t |-> "MPEG-1/2 Audio Layer 3 (MP3)", k |-> "Audio"],
  [t |-> "MPEG-4 Part 14 Audio (MP4)", k |-> "Audio"],
  [t |-> "Matroska Audio (MKA)", k |-> "Audio"],
  [t |-> "Monkey's Audio (APE)", k |-> "Audio"],
  [t |-> "Musepack (MPC)", k |-> "Audio"],
  [t |-> "Musical Instrument Digital Interface (MIDI)", k |-> "Audio"],
  [t |-> "Ogg FLAC (OGA)", k |-> "Audio"],
  [t |-> "Ogg Opus (Opus)", k |-> "Audio"],
  [t |-> "Ogg Speex (Speex)", k |-> "Audio"],
  [t |-> "Ogg Vorbis (Vorbis)", k |-> "Audio"],
  [t |-> "Qualcomm PureVoice (QCP)", k |-> "Audio"],
  [t |-> "Quite OK Audio (QOA)", k |-> "Audio"],
  [t |-> "RealAudio (RA)", k |-> "Audio"],
  [t |-> "Scream Tracker 3 Module (S3M)", k |-> "Audio"],
  [t |-> "Sony DSD Stream File (DSF)", k |-> "Audio"],
  [t |-> "SoundFont 2 (SF2)", k |-> "Audio"],
  [t |-> "Ultimate Soundtracker Module (MOD)", k |-> "Audio"],
  [t |-> "WavPack (WV)", k |-> "Audio"],
  [t |-> "Waveform Audio (WAV)", k |-> "Audio"],
  [t |-> "Windows Media Audio (WMA)", k |-> "Audio"],
  [t |-> "BZip3 (BZ3)", k |-> "Compressed"],
  [t |-> "LZ4", k |-> "Compressed"],
  [t |-> "Lempel-Ziv Finite State Entropy (LZFSE)", k |-> "Compressed"],
  [t |-> "Lempel-Ziv-Markov chain algorithm (LZMA)", k |-> "Compressed"],
  [t |-> "Long Range ZIP (LRZIP)", k |-> "Compressed"],
  [t |-> "Snappy", k |-> "Compressed"],
  [t |-> "UNIX compress (compress)", k |-> "Compressed"],
  [t |-> "XZ", k |-> "Compressed"],
  [t |-> "Zstandard (zstd)", k |-> "Compressed"],
  [t |-> "bzip (BZ)", k |-> "Compressed"],
  [t |-> "bzip2 (BZ2)", k |-> "Compressed"],
  [t |-> "gzip (GZ)", k |-> "Compressed"],
  [t |-> "lzip (LZ)", k |-> "Compressed"],
  [t |-> "lzop (LZO)", k |-> "Compressed"],
  [t |-> "rzip (RZ)", k |-> "Compressed"],
  [t |-> "Microsoft Access 2007 Database (ACCDB)", k |-> "Database"],
  [t |-> "Microsoft Access Database (MDB)", k |-> "Database"],
  [t |-> "Microsoft Works Database (WDB)", k |-> "Database"],
  [t |-> "OpenDocument Database (ODB)", k |-> "Database"],
  [t |-> "SQLite 3", k |-> "Database"],
  [t |-> "Circuit Diagram Document (CDDX)", k |-> "Diagram"],
  [t |-> "Microsoft Visio Drawing (VSD)", k |-> "Diagram"],
  [t |-> "Office Open XML Drawing (VSDX)", k |-> "Diagram"],
  [t |-> "StarChart (SDS)", k |-> "Diagram"],
  [t |-> "draw.io (DRAWIO)", k |-> "Diagram"],
  [t |-> "Amiga Disk File (ADF)", k |-> "Disk"],
  [t |-> "Apple Disk Image (DMG)", k |-> "Disk"],
  [t |-> "ISO 9660 (ISO)", k |-> "Disk"],
  [t |-> "Microsoft Virtual Hard Disk (VHD)", k |-> "Disk"],
  [t |-> "Microsoft Virtual Hard Disk 2 (VHDX)", k |-> "Disk"],
  [t |-> "QEMU Copy On Write (QCOW)", k |-> "Disk"],
  [t |-> "Virtual Machine Disk (VMDK)", k |-> "Disk"],
  [t |-> "VirtualBox Virtual Disk Image (VDI)", k |-> "Disk"],
  [t |-> "AbiWord (ABW)", k |-> "Document"],
  [t |-> "AbiWord Template (AWT)", k |-> "Document"],
  [t |-> "Adobe InDesign Document (INDD)", k |-> "Document"],
  [t |-> "DjVu", k |-> "Document"],
  [t |-> "InDesign Markup Language (IDML)", k |-> "Document"],
  [t |-> "LaTeX (TeX)", k |-> "Document"],
  [t |-> "Microsoft Publisher Document (PUB)", k |-> "Document"],
  [t |-> "Microsoft Word Document (DOC)", k |-> "Document"],
  [t |-> "Microsoft Works Word Processor (WPS)", k |-> "Document"],
  [t |-> "Microsoft Write (WRI)", k |-> "Document"],
  [t |-> "Office Open XML Document (DOCX)", k |-> "Document"],
  [t |-> "OpenDocument Text (ODT)", k |-> "Document"],
  [t |-> "OpenDocument Text Master (ODM)", k |-> "Document"],
  [t |-> "OpenDocument Text Master Template (OTM)", k |-> "Document"],
  [t |-> "OpenDocument Text Template (OTT)", k |-> "Document"],
  [t |-> "OpenXPS (OXPS)", k |-> "Document"],
  [t |-> "Portable Document Format (PDF)", k |-> "Document"],
  [t |-> "PostScript (PS)", k |-> "Document"],
  [t |-> "Rich Text Format (RTF)", k |-> "Document"],
  [t |-> "StarWriter (SDW)", k |-> "Document"],
  [t |-> "Sun XML Writer (SXW)", k |-> "Document"],
  [t |-> "Sun XML Writer Global (SGW)", k |-> "Document"],
  [t |-> "Sun XML Writer Template (STW)", k |-> "Document"],
  [t |-> "Uniform Office Format Text (UOT)", k |-> "Document"],
  [t |-> "WordPerfect Document (WPD)", k |-> "Document"],
  [t |-> "Broad Band eBook (BBeB)", k |-> "Ebook"],
  [t |-> "Electronic Publication (EPUB)", k |-> "Ebook"],
  [t |-> "FictionBook (FB2)", k |-> "Ebook"],
  [t |-> "FictionBook ZIP (FBZ)", k |-> "Ebook"],
  [t |-> "Microsoft Reader (LIT)", k |-> "Ebook"],
  [t |-> "Mobipocket (MOBI)", k |-> "Ebook"],
  [t |-> "Commodore 64 Program (PRG)", k |-> "Executable"],
  [t |-> "Common Object File Format (COFF)", k |-> "Executable"],
  [t |-> "Dalvik Executable (DEX)", k |-> "Executable"],
  [t |-> "Dynamic Link Library (DLL)", k |-> "Executable"],
  [t |-> "Executable and Linkable Format (ELF)", k |-> "Executable"],
  [t |-> "Java Class", k |-> "Executable"],
  [t |-> "LLVM Bitcode (BC)", k |-> "Executable"],
  [t |-> "Linear Executable (LE)", k |-> "Executable"],
  [t |-> "Lua Bytecode", k |-> "Executable"],
  [t |-> "MS-DOS Executable (EXE)", k |-> "Executable"],
  [t |-> "Mach-O", k |-> "Executable"],
  [t |-> "New Executable (NE)", k |-> "Executable"],
  [t |-> "Nintendo Switch Executable (NSO)", k |-> "Executable"],
  [t |-> "Optimized Dalvik Executable (DEY)", k |-> "Executable"],
  [t |-> "Portable Executable (PE)", k |-> "Executable"],
  [t |-> "WebAssembly Binary (Wasm)", k |-> "Executable"],
  [t |-> "Xbox 360 Executable (XEX)", k |-> "Executable"],
  [t |-> "Xbox Executable (XBE)", k |-> "Executable"],
  [t |-> "BMFont ASCII (FNT)", k |-> "Font"],
  [t |-> "BMFont Binary (FNT)", k |-> "Font"],
  [t |-> "Embedded OpenType (EOT)", k |-> "Font"],
  [t |-> "FIGlet Font (FLF)", k |-> "Font"],
  [t |-> "Glyphs", k |-> "Font"],
  [t |-> "OpenType (OTF)", k |-> "Font"],
  [t |-> "TrueType (TTF)", k |-> "Font"],
  [t |-> "TrueType Collection (TTC)", k |-> "Font"],
  [t |-> "Web Open Font Format (WOFF)", k |-> "Font"],
  [t |-> "Web Open Font Format 2 (WOFF2)", k |-> "Font"],
  [t |-> "Mathematical Markup Language (MathML)", k |-> "Formula"],
  [t |-> "OpenDocument Formula (ODF)", k |-> "Formula"],
  [t |-> "OpenDocument Formula Template (OTF)", k |-> "Formula"],
  [t |-> "StarMath (SMF)", k |-> "Formula"],
  [t |-> "Sun XML Math (SXM)", k |-> "Formula"],
  [t |-> "Flexible and Interoperable Data Transfer (FIT)", k |-> "Geospatial"],
  [t |-> "GPS Exchange Format (GPX)", k |-> "Geospatial"],
  [t |-> "Geography Markup Language (GML)", k |-> "Geospatial"],
  [t |-> "Keyhole Markup Language (KML)", k |-> "Geospatial"],
  [t |-> "Keyhole Markup Language ZIP (KMZ)", k |-> "Geospatial"],
  [t |-> "Shapefile (SHP)", k |-> "Geospatial"],
  [t |-> "Training Center XML (TCX)", k |-> "Geospatial"],
  [t |-> "AV1 Image File Format (AVIF)", k |-> "Image"],
  [t |-> "AV1 Image File Format Sequence (AVIFS)", k |-> "Image"],
  [t |-> "Adaptable Scalable Texture Compression (ASTC)", k |-> "Image"],
  [t |-> "Adobe Illustrator Artwork (AI)", k |-> "Image"],
  [t |-> "Adobe Photoshop Document (PSD)", k |-> "Image"],
  [t |-> "Animated Portable Network Graphics (APNG)", k |-> "Image"],
  [t |-> "Apple Icon Image (ICNS)", k |-> "Image"],
  [t |-> "Better Portable Graphics (BPG)", k |-> "Image"],
  [t |-> "Canon Raw (CRW)", k |-> "Image"],
  [t |-> "Canon Raw 2 (CR2)", k |-> "Image"],
  [t |-> "Canon Raw 3 (CR3)", k |-> "Image"],
  [t |-> "Cineon (CIN)", k |-> "Image"],
  [t |-> "Digital Picture Exchange (DPX)", k |-> "Image"],
  [t |-> "Encapsulated PostScript (EPS)", k |-> "Image"],
  [t |-> "Enhanced Metafile (EMF)", k |-> "Image"],
  [t |-> "Experimental Computing Facility (XCF)", k |-> "Image"],
  [t |-> "Figma Design (FIG)", k |-> "Image"],
  [t |-> "Free Lossless Image Format (FLIF)", k |-> "Image"],
  [t |-> "Fujifilm Raw (RAF)", k |-> "Image"],
  [t |-> "Graphics Interchange Format (GIF)", k |-> "Image"],
  [t |-> "High Efficiency Image Coding (HEIC)", k |-> "Image"],
  [t |-> "High Efficiency Image Coding Sequence (HEICS)", k |-> "Image"],
  [t |-> "High Efficiency Image File Format (HEIF)", k |-> "Image"],
  [t |-> "High Efficiency Image File Format Sequence (HEIFS)", k |-> "Image"],
  [t |-> "JPEG 2000 Codestream (J2C)", k |-> "Image"],
  [t |-> "JPEG 2000 Part 1 (JP2)", k |-> "Image"],
  [t |-> "JPEG 2000 Part 2 (JPX)", k |-> "Image"],
  [t |-> "JPEG 2000 Part 6 (JPM)", k |-> "Image"],
  [t |-> "JPEG Extended Range (JXR)", k |-> "Image"],
  [t |-> "JPEG Network Graphics (JNG)", k |-> "Image"],
  [t |-> "JPEG XL (JXL)", k |-> "Image"],
  [t |-> "JPEG-LS (JLS)", k |-> "Image"],
  [t |-> "Joint Photographic Experts Group (JPEG)", k |-> "Image"],
  [t |-> "Khronos Texture (KTX)", k |-> "Image"],
  [t |-> "Khronos Texture 2 (KTX2)", k |-> "Image"],
  [t |-> "Magick Image File Format (MIFF)", k |-> "Image"],
  [t |-> "Microsoft DirectDraw Surface (DDS)", k |-> "Image"],
  [t |-> "Multiple-image Network Graphics (MNG)", k |-> "Image"],
  [t |-> "Nikon Electronic File (NEF)", k |-> "Image"],
  [t |-> "Olympus Raw Format (ORF)", k |-> "Image"],
  [t |-> "OpenDocument Graphics (ODG)", k |-> "Image"],
  [t |-> "OpenDocument Graphics Template (OTG)", k |-> "Image"],
  [t |-> "OpenEXR (EXR)", k |-> "Image"],
  [t |-> "OpenRaster (ORA)", k |-> "Image"],
  [t |-> "Panasonic Raw (RW2)", k |-> "Image"],
  [t |-> "Picture Exchange (PCX)", k |-> "Image"],
  [t |-> "Portable Arbitrary Map (PAM)", k |-> "Image"],
  [t |-> "Portable BitMap (PBM)", k |-> "Image"],
  [t |-> "Portable FloatMap (PFM)", k |-> "Image"],
  [t |-> "Portable GrayMap (PGM)", k |-> "Image"],
  [t |-> "Portable Network Graphics (PNG)", k |-> "Image"],
  [t |-> "Portable PixMap (PPM)", k |-> "Image"],
  [t |-> "Quite OK Image (QOI)", k |-> "Image"],
  [t |-> "Radiance HDR (HDR)", k |-> "Image"],
  [t |-> "Scalable Vector Graphics (SVG)", k |-> "Image"],
  [t |-> "Silicon Graphics Image (SGI)", k |-> "Image"],
  [t |-> "Sketch", k |-> "Image"],
  [t |-> "Sketch 43", k |-> "Image"],
  [t |-> "StarDraw (SDA)", k |-> "Image"],
  [t |-> "Sun XML Draw (SXD)", k |-> "Image"],
  [t |-> "Sun XML Draw Template (STD)", k |-> "Image"],
  [t |-> "Tag Image File Format (TIFF)", k |-> "Image"],
  [t |-> "WebP", k |-> "Image"],
  [t |-> "Windows Animated Cursor (ANI)", k |-> "Image"],
  [t |-> "Windows Bitmap (BMP)", k |-> "Image"],
  [t |-> "Windows Cursor (CUR)", k |-> "Image"],
  [t |-> "Windows Icon (ICO)", k |-> "Image"],
  [t |-> "Windows Metafile (WMF)", k |-> "Image"],
  [t |-> "WordPerfect Graphics (WPG)", k |-> "Image"],
  [t |-> "X PixMap (XPM)", k |-> "Image"],
  [t |-> "farbfeld (FF)", k |-> "Image"],
  [t |-> "Android Binary XML (AXML)", k |-> "Metadata"],
  [t |-> "BitTorrent (Torrent)", k |-> "Metadata"],
  [t |-> "CD Audio (CDA)", k |-> "Metadata"],
  [t |-> "ID3v2 (ID3)", k |-> "Metadata"],
  [t |-> "Meta Information Encapsulation (MIE)", k |-> "Metadata"],
  [t |-> "TASTy", k |-> "Metadata"],
  [t |-> "Windows Shortcut (LNK)", k |-> "Metadata"],
  [t |-> "macOS Alias", k |-> "Metadata"],
  [t |-> "3D Manufacturing Format (3MF)", k |-> "Model"],
  [t |-> "3D Studio (3DS)", k |-> "Model"],
  [t |-> "3D Studio Max (MAX)", k |-> "Model"],
  [t |-> "Additive Manufacturing Format (AMF)", k |-> "Model"],
  [t |-> "AutoCAD Drawing (DWG)", k |-> "Model"],
  [t |-> "Autodesk 123D (123DX)", k |-> "Model"],
  [t |-> "Autodesk Alias (WIRE)", k |-> "Model"],
  [t |-> "Autodesk Inventor Assembly (IAM)", k |-> "Model"],
  [t |-> "Autodesk Inventor Drawing (IDW)", k |-> "Model"],
  [t |-> "Autodesk Inventor Part (IPT)", k |-> "Model"],
  [t |-> "Autodesk Inventor Presentation (IPN)", k |-> "Model"],
  [t |-> "Blender (BLEND)", k |-> "Model"],
  [t |-> "Cinema 4D (C4D)", k |-> "Model"],
  [t |-> "Collaborative Design Activity (COLLADA)", k |-> "Model"],
  [t |-> "Design Web Format (DWF)", k |-> "Model"],
  [t |-> "Design Web Format XPS (DWFX)", k |-> "Model"],
  [t |-> "Drawing Exchange Format ASCII (DXF)", k |-> "Model"],
  [t |-> "Drawing Exchange Format Binary (DXF)", k |-> "Model"],
  [t |-> "Extensible 3D (X3D)", k |-> "Model"],
  [t |-> "Filmbox (FBX)", k |-> "Model"],
  [t |-> "Fusion 360 (F3D)", k |-> "Model"],
  [t |-> "GL Transmission Format Binary (GLB)", k |-> "Model"],
  [t |-> "Google Draco (Draco)", k |-> "Model"],
  [t |-> "Initial Graphics Exchange Specification (IGES)", k |-> "Model"],
  [t |-> "Inter-Quake Export (IQE)", k |-> "Model"],
  [t |-> "Inter-Quake Model (IQM)", k |-> "Model"],
  [t |-> "MagicaVoxel (VOX)", k |-> "Model"],
  [t |-> "Maya ASCII (MA)", k |-> "Model"],
  [t |-> "Maya Binary (MB)", k |-> "Model"],
  [t |-> "Model 3D ASCII (A3D)", k |-> "Model"],
  [t |-> "Model 3D Binary (M3D)", k |-> "Model"],
  [t |-> "Polygon ASCII (PLY)", k |-> "Model"],
  [t |-> "Polygon Binary (PLY)", k |-> "Model"],
  [t |-> "SketchUp (SKP)", k |-> "Model"],
  [t |-> "SolidWorks Assembly (SLDASM)", k |-> "Model"],
  [t |-> "SolidWorks Drawing (SLDDRW)", k |-> "Model"],
  [t |-> "SolidWorks Part (SLDPRT)", k |-> "Model"],
  [t |-> "SpaceClaim Document (SCDOC)", k |-> "Model"],
  [t |-> "Standard for the Exchange of Product model data (STEP)", k |-> "Model"],
  [t |-> "Stereolithography ASCII (STL)", k |-> "Model"],
  [t |-> "Universal 3D (U3D)", k |-> "Model"],
  [t |-> "Universal Scene Description ASCII (USDA)", k |-> "Model"],
  [t |-> "Universal Scene Description Binary (USDC)", k |-> "Model"],
  [t |-> "Universal Scene Description ZIP (USDZ)", k |-> "Model"],
  [t |-> "Virtual Reality Modeling Language (VRML)", k |-> "Model"],
  [t |-> "openNURBS (3DM)", k |-> "Model"],
  [t |-> "ActiveMime (MSO)", k |-> "Other"],
  [t |-> "Advanced Systems Format (ASF)", k |-> "Other"],
  [t |-> "Android Resource Storage Container (ARSC)", k |-> "Other"],
  [t |-> "Apache Arrow Columnar (Arrow)", k |-> "Other"],
  [t |-> "Apache Avro (Avro)", k |-> "Other"],
  [t |-> "Apache Parquet (Parquet)", k |-> "Other"],
  [t |-> "Arbitrary Binary Data (BIN)", k |-> "Other"],
  [t |-> "Atom", k |-> "Other"],
  [t |-> "Clojure Script", k |-> "Other"],
  [t |-> "Compound File Binary (CFB)", k |-> "Other"],
  [t |-> "DER Certificate (DER)", k |-> "Other"],
  [t |-> "Digital Imaging and Communications in Medicine (DICOM)", k |-> "Other"],
  [t |-> "Empty", k |-> "Other"],
  [t |-> "Extensible Binary Meta Language (EBML)", k |-> "Other"],
  [t |-> "Extensible Markup Language (XML)", k |-> "Other"],
  [t |-> "Extensible Stylesheet Language Transformations (XSLT)", k |-> "Other"],
  [t |-> "Flash CS5 Project (FLA)", k |-> "Other"],
  [t |-> "Flash Project (FLA)", k |-> "Other"],
  [t |-> "Flexible Image Transport System (FITS)", k |-> "Other"],
  [t |-> "HyperText Markup Language (HTML)", k |-> "Other"],
  [t |-> "ICC Profile (ICC)", k |-> "Other"],
  [t |-> "JSON Feed", k |-> "Other"],
  [t |-> "Java KeyStore (JKS)", k |-> "Other"],
  [t |-> "Lua Script", k |-> "Other"],
  [t |-> "MPEG-4 Part 14 (MP4)", k |-> "Other"],
  [t |-> "MS-DOS Batch (Batch)", k |-> "Other"],
  [t |-> "Microsoft Compiled HTML Help (CHM)", k |-> "Other"],
  [t |-> "Microsoft Project Plan (MPP)", k |-> "Other"],
  [t |-> "Microsoft Visual Studio Solution (SLN)", k |-> "Other"],
  [t |-> "MusicXML", k |-> "Other"],
  [t |-> "MusicXML ZIP (MXL)", k |-> "Other"],
  [t |-> "Ogg Multiplexed Media (OGX)", k |-> "Other"],
  [t |-> "PCAP Dump (PCAP)", k |-> "Other"],
  [t |-> "PCAP Next Generation Dump (PCAPNG)", k |-> "Other"],
  [t |-> "PEM Certificate (PEM)", k |-> "Other"],
  [t |-> "PEM Certificate Signing Request (PEM)", k |-> "Other"],
  [t |-> "PEM Private Key (PEM)", k |-> "Other"],
  [t |-> "PEM Public Key (PEM)", k |-> "Other"],
  [t |-> "PGP Message (PGP)", k |-> "Other"],
  [t |-> "PGP Private Key Block (PGP)", k |-> "Other"],
  [t |-> "PGP Public Key Block (PGP)", k |-> "Other"],
  [t |-> "PGP Signature (PGP)", k |-> "Other"],
  [t |-> "PGP Signed Message (PGP)", k |-> "Other"],
  [t |-> "Perl Script", k |-> "Other"],
  [t |-> "Personal Storage Table (PST)", k |-> "Other"],
  [t |-> "Plain Text (TXT)", k |-> "Other"],
  [t |-> "Python Script", k |-> "Other"],
  [t |-> "RealMedia (RM)", k |-> "Other"],
  [t |-> "Really Simple Syndication (RSS)", k |-> "Other"],
  [t |-> "Ruby Script", k |-> "Other"],
  [t |-> "Shell Script", k |-> "Other"],
  [t |-> "Simple Object Access Protocol (SOAP)", k |-> "Other"],
  [t |-> "Small Web Format (SWF)", k |-> "Other"],
  [t |-> "Tiled Map XML (TMX)", k |-> "Other"],
  [t |-> "Tiled Tileset XML (TSX)", k |-> "Other"],
  [t |-> "Tool Command Language Script (Tcl Script)", k |-> "Other"],
  [t |-> "WebAssembly Text (WAT)", k |-> "Other"],
  [t |-> "WordPerfect Macro (WPM)", k |-> "Other"],
  [t |-> "XML Localization Interchange File Format (XLIFF)", k |-> "Other"],
  [t |-> "age encryption", k |-> "Other"],
  [t |-> "gettext Machine Object (MO)", k |-> "Other"],
  [t |-> "iCalendar (ICS)", k |-> "Other"],
  [t |-> "vCalendar (VCS)", k |-> "Other"],
  [t |-> "vCard (VCF)", k |-> "Other"],
  [t |-> "Adobe Integrated Runtime (AIR)", k |-> "Package"],
  [t |-> "Android App Bundle (AAB)", k |-> "Package"],
  [t |-> "Android Package (APK)", k |-> "Package"],
  [t |-> "AppImage", k |-> "Package"],
  [t |-> "Debian Package (DEB)", k |-> "Package"],
  [t |-> "Enterprise Application Archive (EAR)", k |-> "Package"],
  [t |-> "Google Chrome Extension (CRX)", k |-> "Package"],
  [t |-> "Java Archive (JAR)", k |-> "Package"],
  [t |-> "Microsoft Software Installer (MSI)", k |-> "Package"],
  [t |-> "Microsoft Visual Studio Extension (VSIX)", k |-> "Package"],
  [t |-> "Nintendo Switch Package (NSP)", k |-> "Package"],
  [t |-> "Red Hat Package Manager (RPM)", k |-> "Package"],
  [t |-> "Web Application Archive (WAR)", k |-> "Package"],
  [t |-> "Windows App Bundle (APPXBUNDLE)", k |-> "Package"],
  [t |-> "Windows App Package (APPX)", k |-> "Package"],
  [t |-> "XAP", k |-> "Package"],
  [t |-> "XPInstall (XPI)", k |-> "Package"],
  [t |-> "iOS App Store Package (IPA)", k |-> "Package"],
  [t |-> "Advanced Stream Redirector (ASX)", k |-> "Playlist"],
  [t |-> "MP3 URL (M3U)", k |-> "Playlist"],
  [t |-> "MPEG-DASH MPD (MPD)", k |-> "Playlist"],
  [t |-> "SHOUTcast Playlist (PLS)", k |-> "Playlist"],
  [t |-> "Windows Media Playlist (WPL)", k |-> "Playlist"],
  [t |-> "XML Shareable Playlist Format (XSPF)", k |-> "Playlist"],
  [t |-> "Corel Presentations (SHW)", k |-> "Presentation"],
  [t |-> "Corel Presentations 7 (SHW)", k |-> "Presentation"],
  [t |-> "Microsoft PowerPoint Presentation (PPT)", k |-> "Presentation"],
  [t |-> "Office Open XML Presentation (PPTX)", k |-> "Presentation"],
  [t |-> "OpenDocument Presentation (ODP)", k |-> "Presentation"],
  [t |-> "OpenDocument Presentation Template (OTP)", k |-> "Presentation"],
  [t |-> "StarImpress (SDD)", k |-> "Presentation"],
  [t |-> "Sun XML Impress (SXI)", k |-> "Presentation"],
  [t |-> "Sun XML Impress Template (STI)", k |-> "Presentation"],
  [t |-> "Uniform Office Format Presentation (UOP)", k |-> "Presentation"],
  [t |-> "WordPerfect Presentations (SHW)", k |-> "Presentation"],
  [t |-> "Atari 7800 ROM (A78)", k |-> "ROM"],
  [t |-> "Commodore 64 Cartridge (CRT)", k |-> "ROM"],
  [t |-> "Game Boy Advance ROM (GBA)", k |-> "ROM"],
  [t |-> "Game Boy Color ROM (GBC)", k |-> "ROM"],
  [t |-> "Game Boy ROM (GB)", k |-> "ROM"],
  [t |-> "Game Gear ROM (GG)", k |-> "ROM"],
  [t |-> "Mega Drive ROM (MD)", k |-> "ROM"],
  [t |-> "Neo Geo Pocket Color ROM (NGC)", k |-> "ROM"],
  [t |-> "Neo Geo Pocket ROM (NGP)", k |-> "ROM"],
  [t |-> "Nintendo 64 ROM (Z64)", k |-> "ROM"],
  [t |-> "Nintendo DS ROM (NDS)", k |-> "ROM"],
  [t |-> "Nintendo Entertainment System ROM (NES)", k |-> "ROM"],
  [t |-> "Nintendo Switch ROM (XCI)", k |-> "ROM"],
  [t |-> "Sega Master System ROM (SMS)", k |-> "ROM"],
  [t |-> "Microsoft Excel Spreadsheet (XLS)", k |-> "Spreadsheet"],
  [t |-> "Microsoft Works 6 Spreadsheet (XLR)", k |-> "Spreadsheet"],
  [t |-> "Microsoft Works Spreadsheet (WKS)", k |-> "Spreadsheet"],
  [t |-> "Office Open XML Spreadsheet (XLSX)", k |-> "Spreadsheet"],
  [t |-> "OpenDocument Spreadsheet (ODS)", k |-> "Spreadsheet"],
  [t |-> "OpenDocument Spreadsheet Template (OTS)", k |-> "Spreadsheet"],
  [t |-> "StarCalc (SDC)", k |-> "Spreadsheet"],
  [t |-> "Sun XML Calc (SXC)", k |-> "Spreadsheet"],
  [t |-> "Sun XML Calc Template (STC)", k |-> "Spreadsheet"],
  [t |-> "Uniform Office Format Spreadsheet (UOS)", k |-> "Spreadsheet"],
  [t |-> "MPEG-4 Part 14 Subtitles (MP4)", k |-> "Subtitle"],
  [t |-> "Matroska Subtitles (MKS)", k |-> "Subtitle"],
  [t |-> "SubRip Text (SRT)", k |-> "Subtitle"],
  [t |-> "Timed Text Markup Language (TTML)", k |-> "Subtitle"],
  [t |-> "Universal Subtitle Format (USF)", k |-> "Subtitle"],
  [t |-> "Web Video Text Tracks (WebVTT)", k |-> "Subtitle"],
  [t |-> "3rd Generation Partnership Project (3GPP)", k |-> "Video"],
  [t |-> "3rd Generation Partnership Project 2 (3GPP2)", k |-> "Video"],
  [t |-> "Actions Media Video (AMV)", k |-> "Video"],
  [t |-> "Apple QuickTime (MOV)", k |-> "Video"],
  [t |-> "Apple iTunes Video (M4V)", k |-> "Video"],
  [t |-> "Audio Video Interleave (AVI)", k |-> "Video"],
  [t |-> "Autodesk Animator (FLI)", k |-> "Video"],
  [t |-> "Autodesk Animator Pro (FLC)", k |-> "Video"],
  [t |-> "BDAV MPEG-2 Transport Stream (M2TS)", k |-> "Video"],
  [t |-> "Flash MP4 Protected Video (F4P)", k |-> "Video"],
  [t |-> "Flash MP4 Video (F4V)", k |-> "Video"],
  [t |-> "Flash Video (FLV)", k |-> "Video"],
  [t |-> "JPEG 2000 Part 3 (MJ2)", k |-> "Video"],
  [t |-> "MPEG-1/2 Video (MPG)", k |-> "Video"],
  [t |-> "MPEG-2 Transport Stream (TS)", k |-> "Video"],
  [t |-> "MPEG-4 Part 14 Video (MP4)", k |-> "Video"],
  [t |-> "MTV", k |-> "Video"],
  [t |-> "Material Exchange Format (MXF)", k |-> "Video"],
  [t |-> "Matroska 3D Video (MK3D)", k |-> "Video"],
  [t |-> "Matroska Video (MKV)", k |-> "Video"],
  [t |-> "Microsoft Digital Video Recording (DVR-MS)", k |-> "Video"],
  [t |-> "Ogg Media (OGM)", k |-> "Video"],
  [t |-> "Ogg Theora (Theora)", k |-> "Video"],
  [t |-> "RealVideo (RV)", k |-> "Video"],
  [t |-> "Silicon Graphics Movie (SGI)", k |-> "Video"],
  [t |-> "Sony Movie (MQV)", k |-> "Video"],
  [t |-> "WebM", k |-> "Video"],
  [t |-> "Windows Media Video (WMV)", k |-> "Video"],
  [t |-> "Windows Recorded TV Show (WTV)", k |-> "Video"]
>>
=============================================================================
