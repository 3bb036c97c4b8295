------------------------------ MODULE SigTable ------------------------------
(* The published signatures, most specific first.  An alternative matches a stream when every
   part [o, b] is found at its offset.  f: format; o: offset; b: bytes. *)
Alts == <<
  [f |-> "MicrosoftVisualStudioSolution", p |-> <<[o |-> 0, b |-> <<239,187,191,13,10,77,105,99,114,111,115,111,102,116,32,86,105,115,117,97,108,32,83,116,117,100,105,111,32,83,111,108,117,116,105,111,110,32,70,105,108,101,44,32,70,111,114,109,97,116,32,86,101,114,115,105,111,110,32>>]>>],
  [f |-> "MicrosoftVisualStudioSolution", p |-> <<[o |-> 0, b |-> <<239,187,191,10,77,105,99,114,111,115,111,102,116,32,86,105,115,117,97,108,32,83,116,117,100,105,111,32,83,111,108,117,116,105,111,110,32,70,105,108,101,44,32,70,111,114,109,97,116,32,86,101,114,115,105,111,110,32>>]>>],
  [f |-> "MicrosoftVisualStudioSolution", p |-> <<[o |-> 0, b |-> <<77,105,99,114,111,115,111,102,116,32,86,105,115,117,97,108,32,83,116,117,100,105,111,32,83,111,108,117,116,105,111,110,32,70,105,108,101,44,32,70,111,114,109,97,116,32,86,101,114,115,105,111,110,32>>]>>],
  [f |-> "Abiword", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,68,79,67,84,89,80,69,32,97,98,105,119,111,114,100,32,80,85,66,76,73,67>>], [o |-> 102, b |-> <<60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,102,97,108,115,101,34>>]>>],
  [f |-> "Abiword", p |-> <<[o |-> 0, b |-> <<60,33,68,79,67,84,89,80,69,32,97,98,105,119,111,114,100,32,80,85,66,76,73,67>>], [o |-> 102, b |-> <<60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,102,97,108,115,101,34>>]>>],
  [f |-> "Abiword", p |-> <<[o |-> 0, b |-> <<239,187,191,60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,102,97,108,115,101,34>>]>>],
  [f |-> "Abiword", p |-> <<[o |-> 0, b |-> <<60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,102,97,108,115,101,34>>]>>],
  [f |-> "AbiwordTemplate", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,68,79,67,84,89,80,69,32,97,98,105,119,111,114,100,32,80,85,66,76,73,67>>], [o |-> 102, b |-> <<60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,116,114,117,101,34>>]>>],
  [f |-> "AbiwordTemplate", p |-> <<[o |-> 0, b |-> <<60,33,68,79,67,84,89,80,69,32,97,98,105,119,111,114,100,32,80,85,66,76,73,67>>], [o |-> 102, b |-> <<60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,116,114,117,101,34>>]>>],
  [f |-> "AbiwordTemplate", p |-> <<[o |-> 0, b |-> <<239,187,191,60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,116,114,117,101,34>>]>>],
  [f |-> "AbiwordTemplate", p |-> <<[o |-> 0, b |-> <<60,97,98,105,119,111,114,100,32,116,101,109,112,108,97,116,101,61,34,116,114,117,101,34>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,13,10,32,32,32,32,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,10,32,32,32,32,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,13,32,32,32,32,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,13,10,32,32,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,13,10,9,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,10,32,32,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,10,9,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,13,32,32,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,13,9,34,118,101,114,115,105,111,110,34,58,32,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "JsonFeed", p |-> <<[o |-> 0, b |-> <<123,34,118,101,114,115,105,111,110,34,58,34,104,116,116,112,115,58,47,47,106,115,111,110,102,101,101,100,46,111,114,103,47,118,101,114,115,105,111,110,47>>]>>],
  [f |-> "TimedTextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,116,116,32,120,109,108,110,115,61,34,104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,110,115,47,116,116,109,108,34>>]>>],
  [f |-> "TimedTextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,116,116,32,120,109,108,110,115,61,34,104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,110,115,47,116,116,109,108,34>>]>>],
  [f |-> "VirtualboxVirtualDiskImage", p |-> <<[o |-> 0, b |-> <<60,60,60,32,79,114,97,99,108,101,32,86,77,32,86,105,114,116,117,97,108,66,111,120,32,68,105,115,107,32,73,109,97,103,101,32,62,62,62>>]>>],
  [f |-> "PemPrivateKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,69,78,67,82,89,80,84,69,68,32,80,82,73,86,65,84,69,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPrivateKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,69,67,68,83,65,32,80,82,73,86,65,84,69,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPrivateKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,68,83,65,32,80,82,73,86,65,84,69,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPrivateKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,82,83,65,32,80,82,73,86,65,84,69,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPrivateKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,69,67,32,80,82,73,86,65,84,69,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPrivateKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,82,73,86,65,84,69,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PgpPrivateKeyBlock", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,80,82,73,86,65,84,69,32,75,69,89,32,66,76,79,67,75,45,45,45,45,45>>]>>],
  [f |-> "PgpPublicKeyBlock", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,80,85,66,76,73,67,32,75,69,89,32,66,76,79,67,75,45,45,45,45,45>>]>>],
  [f |-> "PemCertificateSigningRequest", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,67,69,82,84,73,70,73,67,65,84,69,32,82,69,81,85,69,83,84,45,45,45,45,45>>]>>],
  [f |-> "PgpSignedMessage", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,69,68,32,77,69,83,83,65,71,69,45,45,45,45,45>>]>>],
  [f |-> "MicrosoftReader", p |-> <<[o |-> 0, b |-> <<73,84,79,76,73,84,76,83,1,0,0,0,40,0,0,0>>], [o |-> 24, b |-> <<193,7,144,10,118,64,211,17,135,137,0,0,248,16,87,84>>]>>],
  [f |-> "PemPublicKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,69,67,68,83,65,32,80,85,66,76,73,67,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPublicKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,68,83,65,32,80,85,66,76,73,67,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPublicKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,82,83,65,32,80,85,66,76,73,67,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPublicKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,69,67,32,80,85,66,76,73,67,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PemPublicKey", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,85,66,76,73,67,32,75,69,89,45,45,45,45,45>>]>>],
  [f |-> "PolygonBinary", p |-> <<[o |-> 0, b |-> <<112,108,121,13,10,102,111,114,109,97,116,32,98,105,110,97,114,121,95,108,105,116,116,108,101,95,101,110,100,105,97,110>>]>>],
  [f |-> "PolygonBinary", p |-> <<[o |-> 0, b |-> <<112,108,121,10,102,111,114,109,97,116,32,98,105,110,97,114,121,95,108,105,116,116,108,101,95,101,110,100,105,97,110>>]>>],
  [f |-> "PolygonBinary", p |-> <<[o |-> 0, b |-> <<112,108,121,13,102,111,114,109,97,116,32,98,105,110,97,114,121,95,108,105,116,116,108,101,95,101,110,100,105,97,110>>]>>],
  [f |-> "PolygonBinary", p |-> <<[o |-> 0, b |-> <<112,108,121,13,10,102,111,114,109,97,116,32,98,105,110,97,114,121,95,98,105,103,95,101,110,100,105,97,110>>]>>],
  [f |-> "PolygonBinary", p |-> <<[o |-> 0, b |-> <<112,108,121,10,102,111,114,109,97,116,32,98,105,110,97,114,121,95,98,105,103,95,101,110,100,105,97,110>>]>>],
  [f |-> "PolygonBinary", p |-> <<[o |-> 0, b |-> <<112,108,121,13,102,111,114,109,97,116,32,98,105,110,97,114,121,95,98,105,103,95,101,110,100,105,97,110>>]>>],
  [f |-> "Sketchup", p |-> <<[o |-> 0, b |-> <<255,254,255,14,83,0,107,0,101,0,116,0,99,0,104,0,85,0,112,0,32,0,77,0,111,0,100,0,101,0,108,0>>]>>],
  [f |-> "FlexibleImageTransportSystem", p |-> <<[o |-> 0, b |-> <<83,73,77,80,76,69,32,32,61,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,32,84>>]>>],
  [f |-> "NeoGeoPocketColorRom", p |-> <<[o |-> 0, b |-> <<32,76,73,67,69,78,83,69,68,32,66,89,32,83,78,75,32,67,79,82,80,79,82,65,84,73,79,78>>], [o |-> 35, b |-> <<16>>]>>],
  [f |-> "NeoGeoPocketColorRom", p |-> <<[o |-> 0, b |-> <<67,79,80,89,82,73,71,72,84,32,66,89,32,83,78,75,32,67,79,82,80,79,82,65,84,73,79,78>>], [o |-> 35, b |-> <<16>>]>>],
  [f |-> "PgpSignature", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,83,73,71,78,65,84,85,82,69,45,45,45,45,45>>]>>],
  [f |-> "NeoGeoPocketRom", p |-> <<[o |-> 0, b |-> <<32,76,73,67,69,78,83,69,68,32,66,89,32,83,78,75,32,67,79,82,80,79,82,65,84,73,79,78>>]>>],
  [f |-> "NeoGeoPocketRom", p |-> <<[o |-> 0, b |-> <<67,79,80,89,82,73,71,72,84,32,66,89,32,83,78,75,32,67,79,82,80,79,82,65,84,73,79,78>>]>>],
  [f |-> "Vcalendar", p |-> <<[o |-> 0, b |-> <<66,69,71,73,78,58,86,67,65,76,69,78,68,65,82,13,10,86,69,82,83,73,79,78,58,49,46,48>>]>>],
  [f |-> "Vcalendar", p |-> <<[o |-> 0, b |-> <<66,69,71,73,78,58,86,67,65,76,69,78,68,65,82,10,86,69,82,83,73,79,78,58,49,46,48>>]>>],
  [f |-> "Vcalendar", p |-> <<[o |-> 0, b |-> <<66,69,71,73,78,58,86,67,65,76,69,78,68,65,82,13,86,69,82,83,73,79,78,58,49,46,48>>]>>],
  [f |-> "PemCertificate", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,67,69,82,84,73,70,73,67,65,84,69,45,45,45,45,45>>]>>],
  [f |-> "PgpMessage", p |-> <<[o |-> 0, b |-> <<45,45,45,45,45,66,69,71,73,78,32,80,71,80,32,77,69,83,83,65,71,69,45,45,45,45,45>>]>>],
  [f |-> "TrainingCenterXml", p |-> <<[o |-> 0, b |-> <<239,187,191,60,84,114,97,105,110,105,110,103,67,101,110,116,101,114,68,97,116,97,98,97,115,101>>]>>],
  [f |-> "TrainingCenterXml", p |-> <<[o |-> 0, b |-> <<60,84,114,97,105,110,105,110,103,67,101,110,116,101,114,68,97,116,97,98,97,115,101>>]>>],
  [f |-> "ClojureScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,99,108,111,106,117,114,101>>]>>],
  [f |-> "ClojureScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,99,108,111,106,117,114,101>>]>>],
  [f |-> "ClojureScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,99,108,106>>]>>],
  [f |-> "ClojureScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,99,108,111,106,117,114,101>>]>>],
  [f |-> "ClojureScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,99,108,106>>]>>],
  [f |-> "ClojureScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,99,108,106>>]>>],
  [f |-> "MathematicalMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,68,79,67,84,89,80,69,32,109,97,116,104,32,80,85,66,76,73,67>>]>>],
  [f |-> "MathematicalMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,33,68,79,67,84,89,80,69,32,109,97,116,104,32,80,85,66,76,73,67>>]>>],
  [f |-> "MathematicalMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,109,97,116,104>>]>>],
  [f |-> "MathematicalMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,109,97,116,104>>]>>],
  [f |-> "Extensible3d", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,68,79,67,84,89,80,69,32,88,51,68,32,80,85,66,76,73,67>>]>>],
  [f |-> "Extensible3d", p |-> <<[o |-> 0, b |-> <<60,33,68,79,67,84,89,80,69,32,88,51,68,32,80,85,66,76,73,67>>]>>],
  [f |-> "Extensible3d", p |-> <<[o |-> 0, b |-> <<239,187,191,60,88,51,68>>]>>],
  [f |-> "Extensible3d", p |-> <<[o |-> 0, b |-> <<239,187,191,60,120,51,100>>]>>],
  [f |-> "Extensible3d", p |-> <<[o |-> 0, b |-> <<60,88,51,68>>]>>],
  [f |-> "Extensible3d", p |-> <<[o |-> 0, b |-> <<60,120,51,100>>]>>],
  [f |-> "Opennurbs", p |-> <<[o |-> 0, b |-> <<51,68,32,71,101,111,109,101,116,114,121,32,70,105,108,101,32,70,111,114,109,97,116>>]>>],
  [f |-> "PythonScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,112,121,116,104,111,110>>]>>],
  [f |-> "PythonScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,112,121,116,104,111,110>>]>>],
  [f |-> "PythonScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,112,121,116,104,111,110>>]>>],
  [f |-> "CreativeVoice", p |-> <<[o |-> 0, b |-> <<67,114,101,97,116,105,118,101,32,86,111,105,99,101,32,70,105,108,101,26,26,0>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,116,99,108,115,104>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,119,105,115,104>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,116,99,108,115,104>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,116,99,108>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,119,105,115,104>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,116,99,108>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,116,99,108,115,104>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,119,105,115,104>>]>>],
  [f |-> "ToolCommandLanguageScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,116,99,108>>]>>],
  [f |-> "DebianPackage", p |-> <<[o |-> 0, b |-> <<33,60,97,114,99,104,62,10,100,101,98,105,97,110,45,98,105,110,97,114,121>>]>>],
  [f |-> "Filmbox", p |-> <<[o |-> 0, b |-> <<75,97,121,100,97,114,97,32,70,66,88,32,66,105,110,97,114,121,32,32,0>>]>>],
  [f |-> "RubyScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,114,117,98,121>>]>>],
  [f |-> "RubyScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,114,117,98,121>>]>>],
  [f |-> "RubyScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,114,117,98,121>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,98,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,102,105,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,116,99,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,122,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,98,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,102,105,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,122,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,116,99,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,98,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,102,105,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,116,99,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,122,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,98,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,116,99,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,97,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,99,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,107,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,122,115,104>>]>>],
  [f |-> "ShellScript", p |-> <<[o |-> 0, b |-> <<35,33,47,98,105,110,47,115,104>>]>>],
  [f |-> "WindowsMediaPlaylist", p |-> <<[o |-> 0, b |-> <<60,63,119,112,108,32,118,101,114,115,105,111,110,61,34,49,46,48,34,63,62>>]>>],
  [f |-> "InterQuakeExport", p |-> <<[o |-> 0, b |-> <<35,32,73,110,116,101,114,45,81,117,97,107,101,32,69,120,112,111,114,116>>]>>],
  [f |-> "LuaScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,108,111,99,97,108,47,98,105,110,47,108,117,97>>]>>],
  [f |-> "LuaScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,108,117,97>>]>>],
  [f |-> "LuaScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,108,117,97>>]>>],
  [f |-> "WindowsShortcut", p |-> <<[o |-> 0, b |-> <<76,0,0,0,1,20,2,0,0,0,0,0,192,0,0,0,0,0,0,70>>]>>],
  [f |-> "AgeEncryption", p |-> <<[o |-> 0, b |-> <<97,103,101,45,101,110,99,114,121,112,116,105,111,110,46,111,114,103,47>>]>>],
  [f |-> "PerlScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,101,110,118,32,112,101,114,108>>]>>],
  [f |-> "PerlScript", p |-> <<[o |-> 0, b |-> <<35,33,47,117,115,114,47,98,105,110,47,112,101,114,108>>]>>],
  [f |-> "DrawingExchangeFormatBinary", p |-> <<[o |-> 0, b |-> <<65,117,116,111,67,65,68,32,66,105,110,97,114,121,32,68,88,70>>]>>],
  [f |-> "Glyphs", p |-> <<[o |-> 0, b |-> <<123,13,10,46,97,112,112,86,101,114,115,105,111,110,32,61,32,34>>]>>],
  [f |-> "Glyphs", p |-> <<[o |-> 0, b |-> <<123,10,46,97,112,112,86,101,114,115,105,111,110,32,61,32,34>>]>>],
  [f |-> "Glyphs", p |-> <<[o |-> 0, b |-> <<123,13,46,97,112,112,86,101,114,115,105,111,110,32,61,32,34>>]>>],
  [f |-> "Musicxml", p |-> <<[o |-> 0, b |-> <<239,187,191,60,115,99,111,114,101,45,112,97,114,116,119,105,115,101>>]>>],
  [f |-> "Musicxml", p |-> <<[o |-> 0, b |-> <<60,115,99,111,114,101,45,112,97,114,116,119,105,115,101>>]>>],
  [f |-> "AutodeskAlias", p |-> <<[o |-> 0, b |-> <<143,83,116,117,100,105,111,80,97,99,107,101,116,70,105,108,101>>]>>],
  [f |-> "EncapsulatedPostscript", p |-> <<[o |-> 0, b |-> <<37,33,80,83,45,65,100,111,98,101,45>>], [o |-> 14, b |-> <<32,69,80,83,70,45>>]>>],
  [f |-> "EncapsulatedPostscript", p |-> <<[o |-> 0, b |-> <<197,208,211,198>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,68,79,67,84,89,80,69,32,72,84,77,76>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,68,79,67,84,89,80,69,32,104,116,109,108>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,100,111,99,116,121,112,101,32,72,84,77,76>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,33,100,111,99,116,121,112,101,32,104,116,109,108>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,33,68,79,67,84,89,80,69,32,72,84,77,76>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,33,68,79,67,84,89,80,69,32,104,116,109,108>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,33,100,111,99,116,121,112,101,32,72,84,77,76>>]>>],
  [f |-> "HypertextMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,33,100,111,99,116,121,112,101,32,104,116,109,108>>]>>],
  [f |-> "PolygonAscii", p |-> <<[o |-> 0, b |-> <<112,108,121,13,10,102,111,114,109,97,116,32,97,115,99,105,105>>]>>],
  [f |-> "PolygonAscii", p |-> <<[o |-> 0, b |-> <<112,108,121,10,102,111,114,109,97,116,32,97,115,99,105,105>>]>>],
  [f |-> "PolygonAscii", p |-> <<[o |-> 0, b |-> <<112,108,121,13,102,111,114,109,97,116,32,97,115,99,105,105>>]>>],
  [f |-> "AdobeIndesignDocument", p |-> <<[o |-> 0, b |-> <<6,6,237,245,216,29,70,229,189,49,239,231,254,116,183,29>>]>>],
  [f |-> "AdvancedSystemsFormat", p |-> <<[o |-> 0, b |-> <<48,38,178,117,142,102,207,17,166,217,0,170,0,98,206,108>>]>>],
  [f |-> "Fasttracker2ExtendedModule", p |-> <<[o |-> 0, b |-> <<69,120,116,101,110,100,101,100,32,77,111,100,117,108,101,58>>]>>],
  [f |-> "InterQuakeModel", p |-> <<[o |-> 0, b |-> <<73,78,84,69,82,81,85,65,75,69,77,79,68,69,76,0>>]>>],
  [f |-> "MacosAlias", p |-> <<[o |-> 0, b |-> <<98,111,111,107,0,0,0,0,109,97,114,107,0,0,0,0>>]>>],
  [f |-> "Sqlite3", p |-> <<[o |-> 0, b |-> <<83,81,76,105,116,101,32,102,111,114,109,97,116,32,51,0>>]>>],
  [f |-> "Stuffit", p |-> <<[o |-> 0, b |-> <<83,116,117,102,102,73,116,32,40,99,41,49,57,57,55>>], [o |-> 82, b |-> <<5>>]>>],
  [f |-> "Stuffit", p |-> <<[o |-> 128, b |-> <<83,73,84,33>>], [o |-> 138, b |-> <<114,76,97,117>>]>>],
  [f |-> "Stuffit", p |-> <<[o |-> 0, b |-> <<83,73,84,33>>], [o |-> 10, b |-> <<114,76,97,117>>]>>],
  [f |-> "UniversalSubtitleFormat", p |-> <<[o |-> 0, b |-> <<239,187,191,60,85,83,70,83,117,98,116,105,116,108,101,115>>]>>],
  [f |-> "UniversalSubtitleFormat", p |-> <<[o |-> 0, b |-> <<60,85,83,70,83,117,98,116,105,116,108,101,115>>]>>],
  [f |-> "VirtualRealityModelingLanguage", p |-> <<[o |-> 0, b |-> <<35,86,82,77,76,32,86,49,46,48,32,97,115,99,105,105>>]>>],
  [f |-> "VirtualRealityModelingLanguage", p |-> <<[o |-> 0, b |-> <<35,86,82,77,76,32,86,50,46,48,32,117,116,102,56>>]>>],
  [f |-> "WindowsRecordedTvShow", p |-> <<[o |-> 0, b |-> <<183,216,0,32,55,73,218,17,166,78,0,7,233,94,173,141>>]>>],
  [f |-> "Fictionbook", p |-> <<[o |-> 0, b |-> <<239,187,191,60,70,105,99,116,105,111,110,66,111,111,107>>]>>],
  [f |-> "Fictionbook", p |-> <<[o |-> 0, b |-> <<60,70,105,99,116,105,111,110,66,111,111,107>>]>>],
  [f |-> "FujifilmRaw", p |-> <<[o |-> 0, b |-> <<70,85,74,73,70,73,76,77,67,67,68,45,82,65,87>>]>>],
  [f |-> "Icalendar", p |-> <<[o |-> 0, b |-> <<66,69,71,73,78,58,86,67,65,76,69,78,68,65,82>>]>>],
  [f |-> "MegaDriveRom", p |-> <<[o |-> 256, b |-> <<83,69,71,65,32,77,69,71,65,32,68,82,73,86,69>>]>>],
  [f |-> "MegaDriveRom", p |-> <<[o |-> 256, b |-> <<83,69,71,65,32,71,69,78,69,83,73,83>>]>>],
  [f |-> "MicrosoftAccess2007Database", p |-> <<[o |-> 4, b |-> <<83,116,97,110,100,97,114,100,32,65,67,69,32,68,66>>]>>],
  [f |-> "MicrosoftAccessDatabase", p |-> <<[o |-> 4, b |-> <<83,116,97,110,100,97,114,100,32,74,101,116,32,68,66>>]>>],
  [f |-> "CanonRaw", p |-> <<[o |-> 0, b |-> <<73,73,26,0,0,0,72,69,65,80,67,67,68,82>>]>>],
  [f |-> "Latex", p |-> <<[o |-> 0, b |-> <<92,100,111,99,117,109,101,110,116,99,108,97,115,115>>]>>],
  [f |-> "Latex", p |-> <<[o |-> 0, b |-> <<92,100,111,99,117,109,101,110,116,115,116,121,108,101>>]>>],
  [f |-> "MagickImageFileFormat", p |-> <<[o |-> 0, b |-> <<105,100,61,73,109,97,103,101,77,97,103,105,99,107>>]>>],
  [f |-> "MaterialExchangeFormat", p |-> <<[o |-> 0, b |-> <<6,14,43,52,2,5,1,1,13,1,2,1,1,2>>]>>],
  [f |-> "WordperfectGraphics", p |-> <<[o |-> 0, b |-> <<255,87,80,67,16,0,0,0,1,22,1,0>>], [o |-> 14, b |-> <<0,0>>]>>],
  [f |-> "Commodore64Cartridge", p |-> <<[o |-> 0, b |-> <<67,54,52,32,67,65,82,84,82,73,68,71,69>>]>>],
  [f |-> "StandardForTheExchangeOfProductModelData", p |-> <<[o |-> 0, b |-> <<73,83,79,45,49,48,51,48,51,45,50,49,59>>]>>],
  [f |-> "Activemime", p |-> <<[o |-> 0, b |-> <<65,99,116,105,118,101,77,105,109,101,0,0>>]>>],
  [f |-> "AnimatedPortableNetworkGraphics", p |-> <<[o |-> 0, b |-> <<137,80,78,71,13,10,26,10>>], [o |-> 37, b |-> <<97,99,84,76>>]>>],
  [f |-> "Appimage", p |-> <<[o |-> 0, b |-> <<127,69,76,70>>], [o |-> 8, b |-> <<65,73,2,0,0,0,0,0>>]>>],
  [f |-> "CdAudio", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<67,68,68,65,102,109,116,32>>]>>],
  [f |-> "Djvu", p |-> <<[o |-> 0, b |-> <<65,84,38,84,70,79,82,77>>], [o |-> 12, b |-> <<68,74,86,73>>]>>],
  [f |-> "Djvu", p |-> <<[o |-> 0, b |-> <<65,84,38,84,70,79,82,77>>], [o |-> 12, b |-> <<68,74,86,77>>]>>],
  [f |-> "Djvu", p |-> <<[o |-> 0, b |-> <<65,84,38,84,70,79,82,77>>], [o |-> 12, b |-> <<68,74,86,85>>]>>],
  [f |-> "Djvu", p |-> <<[o |-> 0, b |-> <<65,84,38,84,70,79,82,77>>], [o |-> 12, b |-> <<84,72,85,77>>]>>],
  [f |-> "DrawingExchangeFormatAscii", p |-> <<[o |-> 0, b |-> <<32,32,48,13,10,83,69,67,84,73,79,78>>]>>],
  [f |-> "DrawingExchangeFormatAscii", p |-> <<[o |-> 0, b |-> <<32,32,48,10,83,69,67,84,73,79,78>>]>>],
  [f |-> "JpegXl", p |-> <<[o |-> 0, b |-> <<0,0,0,12,74,88,76,32,13,10,135,10>>]>>],
  [f |-> "JpegXl", p |-> <<[o |-> 0, b |-> <<255,10>>]>>],
  [f |-> "KhronosTexture", p |-> <<[o |-> 0, b |-> <<171,75,84,88,32,49,49,187,13,10,26,10>>]>>],
  [f |-> "KhronosTexture2", p |-> <<[o |-> 0, b |-> <<171,75,84,88,32,50,48,187,13,10,26,10>>]>>],
  [f |-> "MayaAscii", p |-> <<[o |-> 0, b |-> <<47,47,77,97,121,97,32,65,83,67,73,73>>]>>],
  [f |-> "OggOpus", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>], [o |-> 28, b |-> <<79,112,117,115,72,101,97,100>>]>>],
  [f |-> "PanasonicRaw", p |-> <<[o |-> 0, b |-> <<73,73,85,0,24,0,0,0,136,231,116,216>>]>>],
  [f |-> "ShoutcastPlaylist", p |-> <<[o |-> 0, b |-> <<91,112,108,97,121,108,105,115,116,93,13,10>>]>>],
  [f |-> "ShoutcastPlaylist", p |-> <<[o |-> 0, b |-> <<91,112,108,97,121,108,105,115,116,93,10>>]>>],
  [f |-> "ShoutcastPlaylist", p |-> <<[o |-> 0, b |-> <<91,112,108,97,121,108,105,115,116,93,13>>]>>],
  [f |-> "XmlShareablePlaylistFormat", p |-> <<[o |-> 0, b |-> <<239,187,191,60,112,108,97,121,108,105,115,116>>]>>],
  [f |-> "XmlShareablePlaylistFormat", p |-> <<[o |-> 0, b |-> <<60,112,108,97,121,108,105,115,116>>]>>],
  [f |-> "Bittorrent", p |-> <<[o |-> 0, b |-> <<100,56,58,97,110,110,111,117,110,99,101>>]>>],
  [f |-> "CollaborativeDesignActivity", p |-> <<[o |-> 0, b |-> <<239,187,191,60,67,79,76,76,65,68,65>>]>>],
  [f |-> "CollaborativeDesignActivity", p |-> <<[o |-> 0, b |-> <<239,187,191,60,99,111,108,108,97,100,97>>]>>],
  [f |-> "CollaborativeDesignActivity", p |-> <<[o |-> 0, b |-> <<60,67,79,76,76,65,68,65>>]>>],
  [f |-> "CollaborativeDesignActivity", p |-> <<[o |-> 0, b |-> <<60,99,111,108,108,97,100,97>>]>>],
  [f |-> "OggSpeex", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>], [o |-> 28, b |-> <<83,112,101,101,120,32,32>>]>>],
  [f |-> "OggTheora", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>], [o |-> 28, b |-> <<128,116,104,101,111,114,97>>]>>],
  [f |-> "OggVorbis", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>], [o |-> 28, b |-> <<1,118,111,114,98,105,115>>]>>],
  [f |-> "RadianceHdr", p |-> <<[o |-> 0, b |-> <<35,63,82,65,68,73,65,78,67,69,10>>]>>],
  [f |-> "TiledTilesetXml", p |-> <<[o |-> 0, b |-> <<239,187,191,60,116,105,108,101,115,101,116>>]>>],
  [f |-> "TiledTilesetXml", p |-> <<[o |-> 0, b |-> <<60,116,105,108,101,115,101,116>>]>>],
  [f |-> "Vcard", p |-> <<[o |-> 0, b |-> <<66,69,71,73,78,58,86,67,65,82,68>>]>>],
  [f |-> "Atari7800Rom", p |-> <<[o |-> 0, b |-> <<1,65,84,65,82,73,55,56,48,48>>]>>],
  [f |-> "BmfontAscii", p |-> <<[o |-> 0, b |-> <<105,110,102,111,32,102,97,99,101,61>>]>>],
  [f |-> "Drawio", p |-> <<[o |-> 0, b |-> <<239,187,191,60,109,120,102,105,108,101>>]>>],
  [f |-> "Drawio", p |-> <<[o |-> 0, b |-> <<60,109,120,102,105,108,101>>]>>],
  [f |-> "InitialGraphicsExchangeSpecification", p |-> <<[o |-> 72, b |-> <<83,32,32,32,32,32,32,49,13,10>>]>>],
  [f |-> "InitialGraphicsExchangeSpecification", p |-> <<[o |-> 72, b |-> <<83,48,48,48,48,48,48,49,13,10>>]>>],
  [f |-> "InitialGraphicsExchangeSpecification", p |-> <<[o |-> 72, b |-> <<83,32,32,32,32,32,32,49,10>>]>>],
  [f |-> "InitialGraphicsExchangeSpecification", p |-> <<[o |-> 72, b |-> <<83,32,32,32,32,32,32,49,13>>]>>],
  [f |-> "InitialGraphicsExchangeSpecification", p |-> <<[o |-> 72, b |-> <<83,48,48,48,48,48,48,49,10>>]>>],
  [f |-> "InitialGraphicsExchangeSpecification", p |-> <<[o |-> 72, b |-> <<83,48,48,48,48,48,48,49,13>>]>>],
  [f |-> "MicrosoftWorksDatabase", p |-> <<[o |-> 0, b |-> <<32,84,2,0,0,0,5,84,2,0>>]>>],
  [f |-> "MicrosoftWorksSpreadsheet", p |-> <<[o |-> 0, b |-> <<0,0,2,0,4,4,5,84,2,0>>]>>],
  [f |-> "MicrosoftWorksSpreadsheet", p |-> <<[o |-> 0, b |-> <<255,0,2,0,4,4,5,84,2,0>>]>>],
  [f |-> "OggMedia", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>], [o |-> 28, b |-> <<1,118,105,100,101,111>>]>>],
  [f |-> "Snappy", p |-> <<[o |-> 0, b |-> <<255,6,0,0,115,78,97,80,112,89>>]>>],
  [f |-> "GameBoyColorRom", p |-> <<[o |-> 260, b |-> <<206,237,102,102,204,13,0,11>>], [o |-> 323, b |-> <<128>>]>>],
  [f |-> "GameBoyColorRom", p |-> <<[o |-> 260, b |-> <<206,237,102,102,204,13,0,11>>], [o |-> 323, b |-> <<192>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<80>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<81>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<92>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<94>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<95>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<96>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<97>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<108>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<110>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<111>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<112>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<113>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<124>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<126>>]>>],
  [f |-> "GameGearRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<127>>]>>],
  [f |-> "Lzop", p |-> <<[o |-> 0, b |-> <<137,76,90,79,0,13,10,26,10>>]>>],
  [f |-> "MicrosoftVirtualHardDisk", p |-> <<[o |-> 0, b |-> <<99,111,110,110,101,99,116,105,120>>]>>],
  [f |-> "MsDosBatch", p |-> <<[o |-> 0, b |-> <<64,69,67,72,79,32,79,70,70>>]>>],
  [f |-> "MsDosBatch", p |-> <<[o |-> 0, b |-> <<64,101,99,104,111,32,111,102,102>>]>>],
  [f |-> "OggFlac", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>], [o |-> 28, b |-> <<127,70,76,65,67>>]>>],
  [f |-> "OlympusRawFormat", p |-> <<[o |-> 0, b |-> <<73,73,82,79,8,0,0,0,24>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<48>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<49>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<60>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<62>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<63>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<64>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<65>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<76>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<78>>]>>],
  [f |-> "SegaMasterSystemRom", p |-> <<[o |-> 32752, b |-> <<84,77,82,32,83,69,71,65>>], [o |-> 32767, b |-> <<79>>]>>],
  [f |-> "SubripText", p |-> <<[o |-> 0, b |-> <<239,187,191,49,13,10,48,48,58>>]>>],
  [f |-> "SubripText", p |-> <<[o |-> 0, b |-> <<239,187,191,49,10,48,48,58>>]>>],
  [f |-> "SubripText", p |-> <<[o |-> 0, b |-> <<49,13,10,48,48,58>>]>>],
  [f |-> "SubripText", p |-> <<[o |-> 0, b |-> <<49,10,48,48,58>>]>>],
  [f |-> "UniversalSceneDescriptionAscii", p |-> <<[o |-> 0, b |-> <<35,117,115,100,97,32,49,46,48>>]>>],
  [f |-> "WebVideoTextTracks", p |-> <<[o |-> 0, b |-> <<239,187,191,87,69,66,86,84,84>>]>>],
  [f |-> "WebVideoTextTracks", p |-> <<[o |-> 0, b |-> <<87,69,66,86,84,84>>]>>],
  [f |-> "WindowsBitmap", p |-> <<[o |-> 0, b |-> <<66,77>>], [o |-> 12, b |-> <<0,0>>], [o |-> 15, b |-> <<0,0,0>>], [o |-> 26, b |-> <<1,0>>]>>],
  [f |-> "XPixmap", p |-> <<[o |-> 0, b |-> <<47,42,32,88,80,77,32,42,47>>]>>],
  [f |-> "XmlLocalizationInterchangeFileFormat", p |-> <<[o |-> 0, b |-> <<239,187,191,60,120,108,105,102,102>>]>>],
  [f |-> "XmlLocalizationInterchangeFileFormat", p |-> <<[o |-> 0, b |-> <<60,120,108,105,102,102>>]>>],
  [f |-> "ActionsMediaVideo", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<65,77,86,32>>]>>],
  [f |-> "Atom", p |-> <<[o |-> 0, b |-> <<239,187,191,60,102,101,101,100>>]>>],
  [f |-> "Atom", p |-> <<[o |-> 0, b |-> <<60,102,101,101,100>>]>>],
  [f |-> "AudioInterchangeFileFormat", p |-> <<[o |-> 0, b |-> <<70,79,82,77>>], [o |-> 8, b |-> <<65,73,70,67>>]>>],
  [f |-> "AudioInterchangeFileFormat", p |-> <<[o |-> 0, b |-> <<70,79,82,77>>], [o |-> 8, b |-> <<65,73,70,70>>]>>],
  [f |-> "AudioVideoInterleave", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<65,86,73,32>>]>>],
  [f |-> "Av1ImageFileFormat", p |-> <<[o |-> 4, b |-> <<102,116,121,112,97,118,105,102>>]>>],
  [f |-> "Av1ImageFileFormatSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,97,118,105,115>>]>>],
  [f |-> "BroadBandEbook", p |-> <<[o |-> 0, b |-> <<76,0,82,0,70,0,0,0>>]>>],
  [f |-> "CompoundFileBinary", p |-> <<[o |-> 0, b |-> <<208,207,17,224,161,177,26,225>>]>>],
  [f |-> "EightBitSampledVoice", p |-> <<[o |-> 0, b |-> <<70,79,82,77>>], [o |-> 8, b |-> <<56,83,86,88>>]>>],
  [f |-> "EnhancedMetafile", p |-> <<[o |-> 0, b |-> <<1,0,0,0>>], [o |-> 40, b |-> <<32,69,77,70>>]>>],
  [f |-> "ExperimentalComputingFacility", p |-> <<[o |-> 0, b |-> <<103,105,109,112,32,120,99,102>>]>>],
  [f |-> "ExtensibleMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,63,120,109,108>>]>>],
  [f |-> "ExtensibleMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,63,120,109,108>>]>>],
  [f |-> "Farbfeld", p |-> <<[o |-> 0, b |-> <<102,97,114,98,102,101,108,100>>]>>],
  [f |-> "GameBoyAdvanceRom", p |-> <<[o |-> 4, b |-> <<36,255,174,81,105,154,162,33>>]>>],
  [f |-> "GameBoyRom", p |-> <<[o |-> 260, b |-> <<206,237,102,102,204,13,0,11>>]>>],
  [f |-> "HighEfficiencyImageCoding", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,105,99>>]>>],
  [f |-> "HighEfficiencyImageCoding", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,105,120>>]>>],
  [f |-> "HighEfficiencyImageCodingSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,118,99>>]>>],
  [f |-> "HighEfficiencyImageCodingSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,118,120>>]>>],
  [f |-> "HighEfficiencyImageFileFormat", p |-> <<[o |-> 4, b |-> <<102,116,121,112,97,118,105,99>>]>>],
  [f |-> "HighEfficiencyImageFileFormat", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,105,109>>]>>],
  [f |-> "HighEfficiencyImageFileFormat", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,105,115>>]>>],
  [f |-> "HighEfficiencyImageFileFormat", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,105,102,49>>]>>],
  [f |-> "HighEfficiencyImageFileFormatSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,97,118,99,115>>]>>],
  [f |-> "HighEfficiencyImageFileFormatSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,118,109>>]>>],
  [f |-> "HighEfficiencyImageFileFormatSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,104,101,118,115>>]>>],
  [f |-> "HighEfficiencyImageFileFormatSequence", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,115,102,49>>]>>],
  [f |-> "Jpeg2000Part1", p |-> <<[o |-> 16, b |-> <<102,116,121,112,74,80,50,32>>]>>],
  [f |-> "Jpeg2000Part1", p |-> <<[o |-> 16, b |-> <<102,116,121,112,106,112,50,32>>]>>],
  [f |-> "Jpeg2000Part2", p |-> <<[o |-> 16, b |-> <<102,116,121,112,106,112,120,32>>]>>],
  [f |-> "Jpeg2000Part3", p |-> <<[o |-> 16, b |-> <<102,116,121,112,109,106,112,50>>]>>],
  [f |-> "Jpeg2000Part6", p |-> <<[o |-> 16, b |-> <<102,116,121,112,106,112,109,32>>]>>],
  [f |-> "JpegNetworkGraphics", p |-> <<[o |-> 0, b |-> <<139,74,78,71,13,10,26,10>>]>>],
  [f |-> "MayaBinary", p |-> <<[o |-> 0, b |-> <<70,79,82,52>>], [o |-> 8, b |-> <<77,65,89,65>>]>>],
  [f |-> "MayaBinary", p |-> <<[o |-> 0, b |-> <<70,79,82,52>>], [o |-> 8, b |-> <<77,97,121,97>>]>>],
  [f |-> "MayaBinary", p |-> <<[o |-> 0, b |-> <<70,79,82,56>>], [o |-> 16, b |-> <<77,65,89,65>>]>>],
  [f |-> "MayaBinary", p |-> <<[o |-> 0, b |-> <<70,79,82,56>>], [o |-> 16, b |-> <<77,97,121,97>>]>>],
  [f |-> "MicrosoftVirtualHardDisk2", p |-> <<[o |-> 0, b |-> <<118,104,100,120,102,105,108,101>>]>>],
  [f |-> "Mobipocket", p |-> <<[o |-> 60, b |-> <<66,79,79,75,77,79,66,73>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,65,82,82,73>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,77,83,78,86>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,65,83>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,83,67>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,83,72>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,83,77>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,83,80>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,83,83>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,88,67>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,88,72>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,88,77>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,88,80>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,78,68,88,83>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,88,65,86,67>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,97,118,99,49>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,100,97,115,104>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,105,115,111,50>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,105,115,111,51>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,105,115,111,52>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,105,115,111,53>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,105,115,111,54>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,105,115,111,109>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,109,112,52>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,111,98,105>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,112,50,49>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,112,52,49>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,112,52,50>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,112,52,118>>]>>],
  [f |-> "Mpeg4Part14", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,112,55,49>>]>>],
  [f |-> "MultipleImageNetworkGraphics", p |-> <<[o |-> 0, b |-> <<138,77,78,71,13,10,26,10>>]>>],
  [f |-> "NikonElectronicFile", p |-> <<[o |-> 0, b |-> <<73,73,42,0>>], [o |-> 8, b |-> <<28,0,254,0>>]>>],
  [f |-> "NikonElectronicFile", p |-> <<[o |-> 0, b |-> <<73,73,42,0>>], [o |-> 8, b |-> <<31,0,11,0>>]>>],
  [f |-> "NikonElectronicFile", p |-> <<[o |-> 0, b |-> <<77,77,0,42>>], [o |-> 8, b |-> <<28,0,254,0>>]>>],
  [f |-> "NikonElectronicFile", p |-> <<[o |-> 0, b |-> <<77,77,0,42>>], [o |-> 8, b |-> <<31,0,11,0>>]>>],
  [f |-> "Nintendo64Rom", p |-> <<[o |-> 0, b |-> <<18,64,128,55,0,15,0,0>>]>>],
  [f |-> "Nintendo64Rom", p |-> <<[o |-> 0, b |-> <<55,128,64,18,0,0,15,0>>]>>],
  [f |-> "Nintendo64Rom", p |-> <<[o |-> 0, b |-> <<64,18,55,128,15,0,0,0>>]>>],
  [f |-> "Nintendo64Rom", p |-> <<[o |-> 0, b |-> <<128,55,18,64,0,0,0,15>>]>>],
  [f |-> "NintendoDsRom", p |-> <<[o |-> 192, b |-> <<36,255,174,81,105,154,162,33>>]>>],
  [f |-> "NintendoDsRom", p |-> <<[o |-> 192, b |-> <<200,96,79,226,1,112,143,226>>]>>],
  [f |-> "PortableNetworkGraphics", p |-> <<[o |-> 0, b |-> <<137,80,78,71,13,10,26,10>>]>>],
  [f |-> "QualcommPurevoice", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<81,76,67,77>>]>>],
  [f |-> "Realmedia", p |-> <<[o |-> 0, b |-> <<46,82,77,70,0,0,0,18>>]>>],
  [f |-> "RoshalArchive", p |-> <<[o |-> 0, b |-> <<82,97,114,33,26,7,1,0>>]>>],
  [f |-> "RoshalArchive", p |-> <<[o |-> 0, b |-> <<82,97,114,33,26,7,0>>]>>],
  [f |-> "SimpleObjectAccessProtocol", p |-> <<[o |-> 0, b |-> <<239,187,191,60,115,111,97,112>>]>>],
  [f |-> "SimpleObjectAccessProtocol", p |-> <<[o |-> 0, b |-> <<60,115,111,97,112>>]>>],
  [f |-> "Soundfont2", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<115,102,98,107>>]>>],
  [f |-> "StuffitX", p |-> <<[o |-> 0, b |-> <<83,116,117,102,102,73,116,33>>]>>],
  [f |-> "StuffitX", p |-> <<[o |-> 0, b |-> <<83,116,117,102,102,73,116,63>>]>>],
  [f |-> "TapeArchive", p |-> <<[o |-> 257, b |-> <<117,115,116,97,114,0,48,48>>]>>],
  [f |-> "TapeArchive", p |-> <<[o |-> 257, b |-> <<117,115,116,97,114,32,32,0>>]>>],
  [f |-> "ThirdGenerationPartnershipProject2", p |-> <<[o |-> 4, b |-> <<102,116,121,112,75,68,68,73>>]>>],
  [f |-> "ThirdGenerationPartnershipProject2", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,50>>]>>],
  [f |-> "UniversalSceneDescriptionBinary", p |-> <<[o |-> 0, b |-> <<80,88,82,45,85,83,68,67>>]>>],
  [f |-> "WaveformAudio", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<87,65,86,69>>]>>],
  [f |-> "Webp", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<87,69,66,80>>]>>],
  [f |-> "WindowsAnimatedCursor", p |-> <<[o |-> 0, b |-> <<82,73,70,70>>], [o |-> 8, b |-> <<65,67,79,78>>]>>],
  [f |-> "WindowsImagingFormat", p |-> <<[o |-> 0, b |-> <<77,83,87,73,77,0,0,0>>]>>],
  [f |-> "WindowsImagingFormat", p |-> <<[o |-> 0, b |-> <<87,76,80,87,77,0,0,0>>]>>],
  [f |-> "Ace", p |-> <<[o |-> 7, b |-> <<42,42,65,67,69,42,42>>]>>],
  [f |-> "AdditiveManufacturingFormat", p |-> <<[o |-> 0, b |-> <<239,187,191,60,97,109,102>>]>>],
  [f |-> "AdditiveManufacturingFormat", p |-> <<[o |-> 0, b |-> <<60,97,109,102>>]>>],
  [f |-> "AdvancedStreamRedirector", p |-> <<[o |-> 0, b |-> <<239,187,191,60,65,83,88>>]>>],
  [f |-> "AdvancedStreamRedirector", p |-> <<[o |-> 0, b |-> <<239,187,191,60,97,115,120>>]>>],
  [f |-> "AdvancedStreamRedirector", p |-> <<[o |-> 0, b |-> <<60,65,83,88>>]>>],
  [f |-> "AdvancedStreamRedirector", p |-> <<[o |-> 0, b |-> <<60,97,115,120>>]>>],
  [f |-> "AppleItunesAudio", p |-> <<[o |-> 4, b |-> <<102,116,121,112,77,52,65>>]>>],
  [f |-> "AppleItunesAudiobook", p |-> <<[o |-> 4, b |-> <<102,116,121,112,77,52,66>>]>>],
  [f |-> "AppleItunesProtectedAudio", p |-> <<[o |-> 4, b |-> <<102,116,121,112,77,52,80>>]>>],
  [f |-> "AppleItunesVideo", p |-> <<[o |-> 4, b |-> <<102,116,121,112,77,52,86>>]>>],
  [f |-> "Blender", p |-> <<[o |-> 0, b |-> <<66,76,69,78,68,69,82>>]>>],
  [f |-> "CanonRaw3", p |-> <<[o |-> 4, b |-> <<102,116,121,112,99,114,120>>]>>],
  [f |-> "Cinema4d", p |-> <<[o |-> 1, b |-> <<67,52,68,67,52,68,54>>]>>],
  [f |-> "ExtensibleStylesheetLanguageTransformations", p |-> <<[o |-> 0, b |-> <<239,187,191,60,120,115,108>>]>>],
  [f |-> "ExtensibleStylesheetLanguageTransformations", p |-> <<[o |-> 0, b |-> <<60,120,115,108>>]>>],
  [f |-> "FlashMp4Audio", p |-> <<[o |-> 4, b |-> <<102,116,121,112,70,52,65>>]>>],
  [f |-> "FlashMp4Audio", p |-> <<[o |-> 4, b |-> <<102,116,121,112,102,52,97>>]>>],
  [f |-> "FlashMp4Audiobook", p |-> <<[o |-> 4, b |-> <<102,116,121,112,70,52,66>>]>>],
  [f |-> "FlashMp4Audiobook", p |-> <<[o |-> 4, b |-> <<102,116,121,112,102,52,98>>]>>],
  [f |-> "FlashMp4ProtectedVideo", p |-> <<[o |-> 4, b |-> <<102,116,121,112,70,52,80>>]>>],
  [f |-> "FlashMp4ProtectedVideo", p |-> <<[o |-> 4, b |-> <<102,116,121,112,102,52,112>>]>>],
  [f |-> "FlashMp4Video", p |-> <<[o |-> 4, b |-> <<102,116,121,112,70,52,86>>]>>],
  [f |-> "FlashMp4Video", p |-> <<[o |-> 4, b |-> <<102,116,121,112,102,52,118>>]>>],
  [f |-> "GeographyMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,103,109,108>>]>>],
  [f |-> "GeographyMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,103,109,108>>]>>],
  [f |-> "GpsExchangeFormat", p |-> <<[o |-> 0, b |-> <<239,187,191,60,103,112,120>>]>>],
  [f |-> "GpsExchangeFormat", p |-> <<[o |-> 0, b |-> <<60,103,112,120>>]>>],
  [f |-> "KeyholeMarkupLanguage", p |-> <<[o |-> 0, b |-> <<239,187,191,60,107,109,108>>]>>],
  [f |-> "KeyholeMarkupLanguage", p |-> <<[o |-> 0, b |-> <<60,107,109,108>>]>>],
  [f |-> "MetaInformationEncapsulation", p |-> <<[o |-> 0, b |-> <<126,16,4>>], [o |-> 4, b |-> <<48,77,73,69>>]>>],
  [f |-> "MetaInformationEncapsulation", p |-> <<[o |-> 0, b |-> <<126,24,4>>], [o |-> 4, b |-> <<48,77,73,69>>]>>],
  [f |-> "Model3dAscii", p |-> <<[o |-> 0, b |-> <<51,100,109,111,100,101,108>>]>>],
  [f |-> "Mp3Url", p |-> <<[o |-> 0, b |-> <<35,69,88,84,77,51,85>>]>>],
  [f |-> "MpegDashMpd", p |-> <<[o |-> 0, b |-> <<239,187,191,60,77,80,68>>]>>],
  [f |-> "MpegDashMpd", p |-> <<[o |-> 0, b |-> <<60,77,80,68>>]>>],
  [f |-> "MultiLayerArchive", p |-> <<[o |-> 0, b |-> <<77,76,65,1,0,0,0>>]>>],
  [f |-> "ReallySimpleSyndication", p |-> <<[o |-> 0, b |-> <<239,187,191,60,114,115,115>>]>>],
  [f |-> "ReallySimpleSyndication", p |-> <<[o |-> 0, b |-> <<60,114,115,115>>]>>],
  [f |-> "ScalableVectorGraphics", p |-> <<[o |-> 0, b |-> <<239,187,191,60,83,86,71>>]>>],
  [f |-> "ScalableVectorGraphics", p |-> <<[o |-> 0, b |-> <<239,187,191,60,115,118,103>>]>>],
  [f |-> "ScalableVectorGraphics", p |-> <<[o |-> 0, b |-> <<60,83,86,71>>]>>],
  [f |-> "ScalableVectorGraphics", p |-> <<[o |-> 0, b |-> <<60,115,118,103>>]>>],
  [f |-> "SonyMovie", p |-> <<[o |-> 4, b |-> <<102,116,121,112,109,113,116>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,101>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,102>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,103>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,104>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,109>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,112>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,114>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,115>>]>>],
  [f |-> "ThirdGenerationPartnershipProject", p |-> <<[o |-> 4, b |-> <<102,116,121,112,51,103,116>>]>>],
  [f |-> "TiledMapXml", p |-> <<[o |-> 0, b |-> <<239,187,191,60,109,97,112>>]>>],
  [f |-> "TiledMapXml", p |-> <<[o |-> 0, b |-> <<60,109,97,112>>]>>],
  [f |-> "UnixArchiver", p |-> <<[o |-> 0, b |-> <<33,60,97,114,99,104,62>>]>>],
  [f |-> "WebassemblyText", p |-> <<[o |-> 0, b |-> <<40,109,111,100,117,108,101>>]>>],
  [f |-> "ApacheArrowColumnar", p |-> <<[o |-> 0, b |-> <<65,82,82,79,87,49>>]>>],
  [f |-> "AppleQuicktime", p |-> <<[o |-> 4, b |-> <<102,116,121,112,113,116>>]>>],
  [f |-> "AppleQuicktime", p |-> <<[o |-> 4, b |-> <<102,114,101,101>>]>>],
  [f |-> "AppleQuicktime", p |-> <<[o |-> 4, b |-> <<109,100,97,116>>]>>],
  [f |-> "AppleQuicktime", p |-> <<[o |-> 4, b |-> <<109,111,111,118>>]>>],
  [f |-> "AppleQuicktime", p |-> <<[o |-> 4, b |-> <<115,107,105,112>>]>>],
  [f |-> "AppleQuicktime", p |-> <<[o |-> 4, b |-> <<119,105,100,101>>]>>],
  [f |-> "CanonRaw2", p |-> <<[o |-> 0, b |-> <<73,73,42,0>>], [o |-> 8, b |-> <<67,82>>]>>],
  [f |-> "CanonRaw2", p |-> <<[o |-> 0, b |-> <<77,77,0,42>>], [o |-> 8, b |-> <<67,82>>]>>],
  [f |-> "DesignWebFormat", p |-> <<[o |-> 0, b |-> <<40,68,87,70,32,86>>]>>],
  [f |-> "GraphicsInterchangeFormat", p |-> <<[o |-> 0, b |-> <<71,73,70,56,55,97>>]>>],
  [f |-> "GraphicsInterchangeFormat", p |-> <<[o |-> 0, b |-> <<71,73,70,56,57,97>>]>>],
  [f |-> "MicrosoftWrite", p |-> <<[o |-> 0, b |-> <<49,190,0,0,0,171>>]>>],
  [f |-> "MicrosoftWrite", p |-> <<[o |-> 0, b |-> <<50,190,0,0,0,171>>]>>],
  [f |-> "SevenZip", p |-> <<[o |-> 0, b |-> <<55,122,188,175,39,28>>]>>],
  [f |-> "StereolithographyAscii", p |-> <<[o |-> 0, b |-> <<115,111,108,105,100,32>>]>>],
  [f |-> "ThreeDimensionalStudio", p |-> <<[o |-> 0, b |-> <<77,77>>], [o |-> 6, b |-> <<2>>], [o |-> 8, b |-> <<10>>], [o |-> 16, b |-> <<61,61>>]>>],
  [f |-> "WordperfectMacro", p |-> <<[o |-> 0, b |-> <<255,87,80,67>>], [o |-> 8, b |-> <<1,1>>]>>],
  [f |-> "Xz", p |-> <<[o |-> 0, b |-> <<253,55,122,88,90,0>>]>>],
  [f |-> "AdaptiveMultiRate", p |-> <<[o |-> 0, b |-> <<35,33,65,77,82>>]>>],
  [f |-> "Bzip3", p |-> <<[o |-> 0, b |-> <<66,90,51,118,49>>]>>],
  [f |-> "CorelPresentations", p |-> <<[o |-> 0, b |-> <<255,87,80,67>>], [o |-> 9, b |-> <<15>>]>>],
  [f |-> "CorelPresentations", p |-> <<[o |-> 0, b |-> <<255,87,80,67>>], [o |-> 9, b |-> <<16>>]>>],
  [f |-> "DalvikExecutable", p |-> <<[o |-> 0, b |-> <<100,101,120,10>>], [o |-> 7, b |-> <<0>>]>>],
  [f |-> "EmbeddedOpentype", p |-> <<[o |-> 8, b |-> <<0,0,1>>], [o |-> 34, b |-> <<76,80>>]>>],
  [f |-> "EmbeddedOpentype", p |-> <<[o |-> 8, b |-> <<1,0,2>>], [o |-> 34, b |-> <<76,80>>]>>],
  [f |-> "EmbeddedOpentype", p |-> <<[o |-> 8, b |-> <<2,0,2>>], [o |-> 34, b |-> <<76,80>>]>>],
  [f |-> "FigletFont", p |-> <<[o |-> 0, b |-> <<102,108,102,50,97>>]>>],
  [f |-> "GoogleDraco", p |-> <<[o |-> 0, b |-> <<68,82,65,67,79>>]>>],
  [f |-> "Iso9660", p |-> <<[o |-> 32769, b |-> <<67,68,48,48,49>>]>>],
  [f |-> "Iso9660", p |-> <<[o |-> 34817, b |-> <<67,68,48,48,49>>]>>],
  [f |-> "Iso9660", p |-> <<[o |-> 36865, b |-> <<67,68,48,48,49>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,50,45>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,51,45>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,52,45>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,53,45>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,55,45>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,56,45>>]>>],
  [f |-> "Larc", p |-> <<[o |-> 2, b |-> <<45,108,122,115,45>>]>>],
  [f |-> "LempelZivMarkovChainAlgorithm", p |-> <<[o |-> 0, b |-> <<93,0,0,128,0>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,48,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,49,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,50,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,51,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,52,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,53,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,54,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,55,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,56,45>>]>>],
  [f |-> "Lha", p |-> <<[o |-> 2, b |-> <<45,108,104,100,45>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<1>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<2>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<3>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<4>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<5>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<6>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<7>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<8>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<9>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<10>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<11>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<12>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<13>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<14>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<15>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<16>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<17>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<18>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>], [o |-> 7, b |-> <<255>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<206,250,237,254>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<207,250,237,254>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<254,237,250,206>>]>>],
  [f |-> "MachO", p |-> <<[o |-> 0, b |-> <<254,237,250,207>>]>>],
  [f |-> "NintendoSwitchRom", p |-> <<[o |-> 256, b |-> <<72,69,65,68>>], [o |-> 269, b |-> <<224>>]>>],
  [f |-> "NintendoSwitchRom", p |-> <<[o |-> 256, b |-> <<72,69,65,68>>], [o |-> 269, b |-> <<225>>]>>],
  [f |-> "NintendoSwitchRom", p |-> <<[o |-> 256, b |-> <<72,69,65,68>>], [o |-> 269, b |-> <<226>>]>>],
  [f |-> "NintendoSwitchRom", p |-> <<[o |-> 256, b |-> <<72,69,65,68>>], [o |-> 269, b |-> <<240>>]>>],
  [f |-> "NintendoSwitchRom", p |-> <<[o |-> 256, b |-> <<72,69,65,68>>], [o |-> 269, b |-> <<248>>]>>],
  [f |-> "NintendoSwitchRom", p |-> <<[o |-> 256, b |-> <<72,69,65,68>>], [o |-> 269, b |-> <<250>>]>>],
  [f |-> "Opentype", p |-> <<[o |-> 0, b |-> <<79,84,84,79,0>>]>>],
  [f |-> "Pmarc", p |-> <<[o |-> 2, b |-> <<45,112,99,49,45>>]>>],
  [f |-> "Pmarc", p |-> <<[o |-> 2, b |-> <<45,112,109,48,45>>]>>],
  [f |-> "Pmarc", p |-> <<[o |-> 2, b |-> <<45,112,109,49,45>>]>>],
  [f |-> "Pmarc", p |-> <<[o |-> 2, b |-> <<45,112,109,50,45>>]>>],
  [f |-> "Pmarc", p |-> <<[o |-> 2, b |-> <<45,112,109,115,45>>]>>],
  [f |-> "PortableDocumentFormat", p |-> <<[o |-> 0, b |-> <<37,80,68,70,45>>]>>],
  [f |-> "RichTextFormat", p |-> <<[o |-> 0, b |-> <<123,92,114,116,102>>]>>],
  [f |-> "Truetype", p |-> <<[o |-> 0, b |-> <<0,1,0,0,0>>]>>],
  [f |-> "TruetypeCollection", p |-> <<[o |-> 0, b |-> <<116,116,99,102,0>>]>>],
  [f |-> "VirtualMachineDisk", p |-> <<[o |-> 0, b |-> <<67,79,87,68,1>>]>>],
  [f |-> "VirtualMachineDisk", p |-> <<[o |-> 0, b |-> <<75,68,77,86,1>>]>>],
  [f |-> "VirtualMachineDisk", p |-> <<[o |-> 0, b |-> <<75,68,77,86,2>>]>>],
  [f |-> "VirtualMachineDisk", p |-> <<[o |-> 0, b |-> <<75,68,77,86,3>>]>>],
  [f |-> "WordperfectPresentations", p |-> <<[o |-> 0, b |-> <<255,87,80,67>>], [o |-> 9, b |-> <<10>>]>>],
  [f |-> "AdaptableScalableTextureCompression", p |-> <<[o |-> 0, b |-> <<19,171,161,92>>]>>],
  [f |-> "AdobePhotoshopDocument", p |-> <<[o |-> 0, b |-> <<56,66,80,83>>]>>],
  [f |-> "Alz", p |-> <<[o |-> 0, b |-> <<65,76,90,1>>]>>],
  [f |-> "AmigaDiskFile", p |-> <<[o |-> 0, b |-> <<68,79,83,0>>]>>],
  [f |-> "AmigaDiskFile", p |-> <<[o |-> 0, b |-> <<68,79,83,1>>]>>],
  [f |-> "AmigaDiskFile", p |-> <<[o |-> 0, b |-> <<68,79,83,2>>]>>],
  [f |-> "AmigaDiskFile", p |-> <<[o |-> 0, b |-> <<68,79,83,3>>]>>],
  [f |-> "AmigaDiskFile", p |-> <<[o |-> 0, b |-> <<68,79,83,4>>]>>],
  [f |-> "AmigaDiskFile", p |-> <<[o |-> 0, b |-> <<68,79,83,5>>]>>],
  [f |-> "AndroidBinaryXml", p |-> <<[o |-> 0, b |-> <<3,0,8,0>>]>>],
  [f |-> "AndroidResourceStorageContainer", p |-> <<[o |-> 0, b |-> <<2,0,12,0>>]>>],
  [f |-> "ApacheAvro", p |-> <<[o |-> 0, b |-> <<79,98,106,1>>]>>],
  [f |-> "ApacheParquet", p |-> <<[o |-> 0, b |-> <<80,65,82,49>>]>>],
  [f |-> "AppleIconImage", p |-> <<[o |-> 0, b |-> <<105,99,110,115>>]>>],
  [f |-> "Au", p |-> <<[o |-> 0, b |-> <<46,115,110,100>>]>>],
  [f |-> "AudioVisualResearch", p |-> <<[o |-> 0, b |-> <<50,66,73,84>>]>>],
  [f |-> "AutocadDrawing", p |-> <<[o |-> 0, b |-> <<65,67,49,46>>]>>],
  [f |-> "AutocadDrawing", p |-> <<[o |-> 0, b |-> <<65,67,49,48>>]>>],
  [f |-> "AutocadDrawing", p |-> <<[o |-> 0, b |-> <<65,67,50,46>>]>>],
  [f |-> "AutocadDrawing", p |-> <<[o |-> 0, b |-> <<77,67,48,46>>]>>],
  [f |-> "BetterPortableGraphics", p |-> <<[o |-> 0, b |-> <<66,80,71,251>>]>>],
  [f |-> "BmfontBinary", p |-> <<[o |-> 0, b |-> <<66,77,70,3>>]>>],
  [f |-> "Cabinet", p |-> <<[o |-> 0, b |-> <<73,83,99,40>>]>>],
  [f |-> "Cabinet", p |-> <<[o |-> 0, b |-> <<77,83,67,70>>]>>],
  [f |-> "Cineon", p |-> <<[o |-> 0, b |-> <<128,42,95,215>>]>>],
  [f |-> "Cpio", p |-> <<[o |-> 0, b |-> <<48,55,48,55>>]>>],
  [f |-> "Cpio", p |-> <<[o |-> 0, b |-> <<113,199>>]>>],
  [f |-> "Cpio", p |-> <<[o |-> 0, b |-> <<199,113>>]>>],
  [f |-> "DigitalImagingAndCommunicationsInMedicine", p |-> <<[o |-> 128, b |-> <<68,73,67,77>>]>>],
  [f |-> "DigitalPictureExchange", p |-> <<[o |-> 0, b |-> <<83,68,80,88>>]>>],
  [f |-> "DigitalPictureExchange", p |-> <<[o |-> 0, b |-> <<88,80,68,83>>]>>],
  [f |-> "ExecutableAndLinkableFormat", p |-> <<[o |-> 0, b |-> <<127,69,76,70>>]>>],
  [f |-> "ExtensibleArchive", p |-> <<[o |-> 0, b |-> <<120,97,114,33>>]>>],
  [f |-> "ExtensibleBinaryMetaLanguage", p |-> <<[o |-> 0, b |-> <<26,69,223,163>>]>>],
  [f |-> "FlashVideo", p |-> <<[o |-> 0, b |-> <<70,76,86,1>>]>>],
  [f |-> "FlexibleAndInteroperableDataTransfer", p |-> <<[o |-> 8, b |-> <<46,70,73,84>>]>>],
  [f |-> "FreeLosslessAudioCodec", p |-> <<[o |-> 0, b |-> <<102,76,97,67>>]>>],
  [f |-> "FreeLosslessImageFormat", p |-> <<[o |-> 0, b |-> <<70,76,73,70>>]>>],
  [f |-> "GettextMachineObject", p |-> <<[o |-> 0, b |-> <<149,4,18,222>>]>>],
  [f |-> "GettextMachineObject", p |-> <<[o |-> 0, b |-> <<222,18,4,149>>]>>],
  [f |-> "GlTransmissionFormatBinary", p |-> <<[o |-> 0, b |-> <<103,108,84,70>>]>>],
  [f |-> "GoogleChromeExtension", p |-> <<[o |-> 0, b |-> <<67,114,50,52>>]>>],
  [f |-> "IccProfile", p |-> <<[o |-> 36, b |-> <<97,99,115,112>>]>>],
  [f |-> "Id3v2", p |-> <<[o |-> 0, b |-> <<73,68,51,2>>]>>],
  [f |-> "Id3v2", p |-> <<[o |-> 0, b |-> <<73,68,51,3>>]>>],
  [f |-> "Id3v2", p |-> <<[o |-> 0, b |-> <<73,68,51,4>>]>>],
  [f |-> "ImpulseTrackerModule", p |-> <<[o |-> 0, b |-> <<73,77,80,77>>]>>],
  [f |-> "JavaClass", p |-> <<[o |-> 0, b |-> <<202,254,186,190>>]>>],
  [f |-> "JavaKeystore", p |-> <<[o |-> 0, b |-> <<254,237,254,237>>]>>],
  [f |-> "Jpeg2000Codestream", p |-> <<[o |-> 0, b |-> <<255,79,255,81>>]>>],
  [f |-> "JpegLs", p |-> <<[o |-> 0, b |-> <<255,216,255,247>>]>>],
  [f |-> "LempelZivFiniteStateEntropy", p |-> <<[o |-> 0, b |-> <<98,118,120,45>>]>>],
  [f |-> "LempelZivFiniteStateEntropy", p |-> <<[o |-> 0, b |-> <<98,118,120,49>>]>>],
  [f |-> "LempelZivFiniteStateEntropy", p |-> <<[o |-> 0, b |-> <<98,118,120,50>>]>>],
  [f |-> "LempelZivFiniteStateEntropy", p |-> <<[o |-> 0, b |-> <<98,118,120,110>>]>>],
  [f |-> "LlvmBitcode", p |-> <<[o |-> 0, b |-> <<66,67,192,222>>]>>],
  [f |-> "LongRangeZip", p |-> <<[o |-> 0, b |-> <<76,82,90,73>>]>>],
  [f |-> "LuaBytecode", p |-> <<[o |-> 0, b |-> <<27,76,117,97>>]>>],
  [f |-> "Lz4", p |-> <<[o |-> 0, b |-> <<4,34,77,24>>]>>],
  [f |-> "Lzip", p |-> <<[o |-> 0, b |-> <<76,90,73,80>>]>>],
  [f |-> "Magicavoxel", p |-> <<[o |-> 0, b |-> <<86,79,88,32>>]>>],
  [f |-> "MicrosoftCompiledHtmlHelp", p |-> <<[o |-> 0, b |-> <<73,84,83,70>>]>>],
  [f |-> "MicrosoftDirectdrawSurface", p |-> <<[o |-> 0, b |-> <<68,68,83,32>>]>>],
  [f |-> "MicrosoftWorksWordProcessor", p |-> <<[o |-> 0, b |-> <<1,254>>], [o |-> 112, b |-> <<1,0>>]>>],
  [f |-> "Model3dBinary", p |-> <<[o |-> 0, b |-> <<51,68,77,79>>]>>],
  [f |-> "MonkeysAudio", p |-> <<[o |-> 0, b |-> <<77,65,67,32>>]>>],
  [f |-> "MozillaArchive", p |-> <<[o |-> 0, b |-> <<77,65,82,49>>]>>],
  [f |-> "Mpeg12Video", p |-> <<[o |-> 0, b |-> <<0,0,1,179>>]>>],
  [f |-> "Mpeg12Video", p |-> <<[o |-> 0, b |-> <<0,0,1,186>>]>>],
  [f |-> "Musepack", p |-> <<[o |-> 0, b |-> <<77,80,67,75>>]>>],
  [f |-> "Musepack", p |-> <<[o |-> 0, b |-> <<77,80,43>>]>>],
  [f |-> "MusicalInstrumentDigitalInterface", p |-> <<[o |-> 0, b |-> <<77,84,104,100>>]>>],
  [f |-> "NintendoEntertainmentSystemRom", p |-> <<[o |-> 0, b |-> <<78,69,83,26>>]>>],
  [f |-> "NintendoSwitchExecutable", p |-> <<[o |-> 0, b |-> <<78,83,79,48>>]>>],
  [f |-> "NintendoSwitchPackage", p |-> <<[o |-> 0, b |-> <<80,70,83,48>>]>>],
  [f |-> "OggMultiplexedMedia", p |-> <<[o |-> 0, b |-> <<79,103,103,83>>]>>],
  [f |-> "Openexr", p |-> <<[o |-> 0, b |-> <<118,47,49,1>>]>>],
  [f |-> "OptimizedDalvikExecutable", p |-> <<[o |-> 0, b |-> <<100,101,121,10>>]>>],
  [f |-> "PcapDump", p |-> <<[o |-> 0, b |-> <<161,178,195,212>>]>>],
  [f |-> "PcapDump", p |-> <<[o |-> 0, b |-> <<212,195,178,161>>]>>],
  [f |-> "PcapNextGenerationDump", p |-> <<[o |-> 0, b |-> <<10,13,13,10>>]>>],
  [f |-> "PersonalStorageTable", p |-> <<[o |-> 0, b |-> <<33,66,68,78>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,0,0>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,0,1>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,2,0>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,2,1>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,3,0>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,3,1>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,4,0>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,4,1>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,5,0>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "PictureExchange", p |-> <<[o |-> 0, b |-> <<10,5,1>>], [o |-> 64, b |-> <<0>>]>>],
  [f |-> "QemuCopyOnWrite", p |-> <<[o |-> 0, b |-> <<81,70,73,251>>]>>],
  [f |-> "QuiteOkAudio", p |-> <<[o |-> 0, b |-> <<113,111,97,102>>]>>],
  [f |-> "QuiteOkImage", p |-> <<[o |-> 0, b |-> <<113,111,105,102>>]>>],
  [f |-> "Realaudio", p |-> <<[o |-> 0, b |-> <<46,114,97,253>>]>>],
  [f |-> "RedHatPackageManager", p |-> <<[o |-> 0, b |-> <<237,171,238,219>>]>>],
  [f |-> "Rzip", p |-> <<[o |-> 0, b |-> <<82,90,73,80>>]>>],
  [f |-> "ScreamTracker3Module", p |-> <<[o |-> 44, b |-> <<83,67,82,77>>]>>],
  [f |-> "Shapefile", p |-> <<[o |-> 0, b |-> <<0,0,39,10>>]>>],
  [f |-> "SiliconGraphicsMovie", p |-> <<[o |-> 0, b |-> <<77,79,86,73>>]>>],
  [f |-> "SonyDsdStreamFile", p |-> <<[o |-> 0, b |-> <<68,83,68,32>>]>>],
  [f |-> "Squashfs", p |-> <<[o |-> 0, b |-> <<104,115,113,115>>]>>],
  [f |-> "TagImageFileFormat", p |-> <<[o |-> 0, b |-> <<73,73,42,0>>]>>],
  [f |-> "TagImageFileFormat", p |-> <<[o |-> 0, b |-> <<73,73,43,0>>]>>],
  [f |-> "TagImageFileFormat", p |-> <<[o |-> 0, b |-> <<77,77,0,42>>]>>],
  [f |-> "TagImageFileFormat", p |-> <<[o |-> 0, b |-> <<77,77,0,43>>]>>],
  [f |-> "Tasty", p |-> <<[o |-> 0, b |-> <<92,161,171,31>>]>>],
  [f |-> "UltimateSoundtrackerModule", p |-> <<[o |-> 1080, b |-> <<77,46,75,46>>]>>],
  [f |-> "Universal3d", p |-> <<[o |-> 0, b |-> <<85,51,68,0>>]>>],
  [f |-> "Wavpack", p |-> <<[o |-> 0, b |-> <<119,118,112,107>>]>>],
  [f |-> "WebOpenFontFormat", p |-> <<[o |-> 0, b |-> <<119,79,70,70>>]>>],
  [f |-> "WebOpenFontFormat2", p |-> <<[o |-> 0, b |-> <<119,79,70,50>>]>>],
  [f |-> "WebassemblyBinary", p |-> <<[o |-> 0, b |-> <<0,97,115,109>>]>>],
  [f |-> "WindowsCursor", p |-> <<[o |-> 0, b |-> <<0,0,2,0>>]>>],
  [f |-> "WindowsIcon", p |-> <<[o |-> 0, b |-> <<0,0,1,0>>]>>],
  [f |-> "WindowsMetafile", p |-> <<[o |-> 0, b |-> <<1,0,9,0>>]>>],
  [f |-> "WindowsMetafile", p |-> <<[o |-> 0, b |-> <<2,0,9,0>>]>>],
  [f |-> "WindowsMetafile", p |-> <<[o |-> 0, b |-> <<215,205,198,154>>]>>],
  [f |-> "WordperfectDocument", p |-> <<[o |-> 0, b |-> <<255,87,80,67>>]>>],
  [f |-> "Xbox360Executable", p |-> <<[o |-> 0, b |-> <<88,69,88,49>>]>>],
  [f |-> "Xbox360Executable", p |-> <<[o |-> 0, b |-> <<88,69,88,50>>]>>],
  [f |-> "XboxExecutable", p |-> <<[o |-> 0, b |-> <<88,66,69,72>>]>>],
  [f |-> "Zip", p |-> <<[o |-> 0, b |-> <<80,75,3,4>>]>>],
  [f |-> "Zip", p |-> <<[o |-> 0, b |-> <<80,75,5,6>>]>>],
  [f |-> "Zpaq", p |-> <<[o |-> 0, b |-> <<55,107,83,116>>]>>],
  [f |-> "Zpaq", p |-> <<[o |-> 0, b |-> <<122,80,81>>]>>],
  [f |-> "Zstandard", p |-> <<[o |-> 0, b |-> <<40,181,47,253>>]>>],
  [f |-> "ArchivedByRobertJung", p |-> <<[o |-> 0, b |-> <<96,234>>], [o |-> 10, b |-> <<2>>]>>],
  [f |-> "Bzip", p |-> <<[o |-> 0, b |-> <<66,90,48>>]>>],
  [f |-> "Bzip2", p |-> <<[o |-> 0, b |-> <<66,90,104>>]>>],
  [f |-> "Commodore64Program", p |-> <<[o |-> 0, b |-> <<1,8>>], [o |-> 6, b |-> <<158>>]>>],
  [f |-> "JointPhotographicExpertsGroup", p |-> <<[o |-> 0, b |-> <<255,216,255>>]>>],
  [f |-> "JpegExtendedRange", p |-> <<[o |-> 0, b |-> <<73,73,188>>]>>],
  [f |-> "Mtv", p |-> <<[o |-> 0, b |-> <<65,77,86>>]>>],
  [f |-> "PortableArbitraryMap", p |-> <<[o |-> 0, b |-> <<80,55,32>>]>>],
  [f |-> "PortableArbitraryMap", p |-> <<[o |-> 0, b |-> <<80,55,10>>]>>],
  [f |-> "PortableArbitraryMap", p |-> <<[o |-> 0, b |-> <<80,55,13>>]>>],
  [f |-> "PortableArbitraryMap", p |-> <<[o |-> 0, b |-> <<80,55,9>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,49,32>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,49,10>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,49,13>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,49,9>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,52,32>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,52,10>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,52,13>>]>>],
  [f |-> "PortableBitmap", p |-> <<[o |-> 0, b |-> <<80,52,9>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,70,32>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,70,10>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,70,13>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,70,9>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,102,32>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,102,10>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,102,13>>]>>],
  [f |-> "PortableFloatmap", p |-> <<[o |-> 0, b |-> <<80,102,9>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,50,32>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,50,10>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,50,13>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,50,9>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,53,32>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,53,10>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,53,13>>]>>],
  [f |-> "PortableGraymap", p |-> <<[o |-> 0, b |-> <<80,53,9>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,51,32>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,51,10>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,51,13>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,51,9>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,54,32>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,54,10>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,54,13>>]>>],
  [f |-> "PortablePixmap", p |-> <<[o |-> 0, b |-> <<80,54,9>>]>>],
  [f |-> "Seqbox", p |-> <<[o |-> 0, b |-> <<83,66,120>>]>>],
  [f |-> "SmallWebFormat", p |-> <<[o |-> 0, b |-> <<67,87,83>>]>>],
  [f |-> "SmallWebFormat", p |-> <<[o |-> 0, b |-> <<70,87,83>>]>>],
  [f |-> "SmallWebFormat", p |-> <<[o |-> 0, b |-> <<90,87,83>>]>>],
  [f |-> "Zoo", p |-> <<[o |-> 0, b |-> <<90,79,79>>]>>],
  [f |-> "AdvancedAudioCoding", p |-> <<[o |-> 0, b |-> <<255,241>>]>>],
  [f |-> "AdvancedAudioCoding", p |-> <<[o |-> 0, b |-> <<255,249>>]>>],
  [f |-> "AppleDiskImage", p |-> <<[o |-> 0, b |-> <<120,1>>]>>],
  [f |-> "AudioCodec3", p |-> <<[o |-> 0, b |-> <<11,119>>]>>],
  [f |-> "AutodeskAnimator", p |-> <<[o |-> 4, b |-> <<17,175>>]>>],
  [f |-> "AutodeskAnimatorPro", p |-> <<[o |-> 4, b |-> <<18,175>>]>>],
  [f |-> "BdavMpeg2TransportStream", p |-> <<[o |-> 4, b |-> <<71>>], [o |-> 196, b |-> <<71>>]>>],
  [f |-> "CommonObjectFileFormat", p |-> <<[o |-> 0, b |-> <<0,2>>]>>],
  [f |-> "CommonObjectFileFormat", p |-> <<[o |-> 0, b |-> <<76,1>>]>>],
  [f |-> "CommonObjectFileFormat", p |-> <<[o |-> 0, b |-> <<100,134>>]>>],
  [f |-> "DerCertificate", p |-> <<[o |-> 0, b |-> <<48,130>>]>>],
  [f |-> "Gzip", p |-> <<[o |-> 0, b |-> <<31,139>>]>>],
  [f |-> "Mpeg12AudioLayer2", p |-> <<[o |-> 0, b |-> <<255,244>>]>>],
  [f |-> "Mpeg12AudioLayer2", p |-> <<[o |-> 0, b |-> <<255,245>>]>>],
  [f |-> "Mpeg12AudioLayer2", p |-> <<[o |-> 0, b |-> <<255,252>>]>>],
  [f |-> "Mpeg12AudioLayer2", p |-> <<[o |-> 0, b |-> <<255,253>>]>>],
  [f |-> "Mpeg12AudioLayer3", p |-> <<[o |-> 0, b |-> <<255,226>>]>>],
  [f |-> "Mpeg12AudioLayer3", p |-> <<[o |-> 0, b |-> <<255,227>>]>>],
  [f |-> "Mpeg12AudioLayer3", p |-> <<[o |-> 0, b |-> <<255,242>>]>>],
  [f |-> "Mpeg12AudioLayer3", p |-> <<[o |-> 0, b |-> <<255,243>>]>>],
  [f |-> "Mpeg12AudioLayer3", p |-> <<[o |-> 0, b |-> <<255,250>>]>>],
  [f |-> "Mpeg12AudioLayer3", p |-> <<[o |-> 0, b |-> <<255,251>>]>>],
  [f |-> "Mpeg2TransportStream", p |-> <<[o |-> 0, b |-> <<71>>], [o |-> 188, b |-> <<71>>]>>],
  [f |-> "MsDosExecutable", p |-> <<[o |-> 0, b |-> <<77,90>>]>>],
  [f |-> "MsDosExecutable", p |-> <<[o |-> 0, b |-> <<90,77>>]>>],
  [f |-> "Postscript", p |-> <<[o |-> 0, b |-> <<37,33>>]>>],
  [f |-> "SiliconGraphicsImage", p |-> <<[o |-> 0, b |-> <<1,218>>]>>],
  [f |-> "UnixCompress", p |-> <<[o |-> 0, b |-> <<31,157>>]>>],
  [f |-> "UnixCompress", p |-> <<[o |-> 0, b |-> <<31,160>>]>>]
>>
=============================================================================
