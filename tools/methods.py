METHOD = {
"C01": "encoding arbitrary bytes with the real encoder and decoding with the real decoder, for every filter and its abbreviated names; the result must equal the input term by term. Lengths around the run and group limits of RunLength (128/129) and ASCII85 (`z`, partial groups) are covered structurally. Unit tests sample a few payloads; here all payloads of a length are one path family.",
"C02": "running the real decoders against reference decoders written from ISO 32000-1 7.4 in the harness, on *every* input of up to 4 to 7 bytes and long structured ones: where the reference accepts, the output has to be equal; where the specification calls the data malformed (digit outside the alphabet, final group of one, truncated run), an error is required. The path conditions of decoder and reference meet in one formula, so a disagreement on a single byte value is found.",
"C03": "building cross-reference streams with symbolic entries of every width, /Index layout and predictor, encoding the rows in the harness (PNG filters written from RFC 2083) and comparing every entry with what the real parser returns. For Paeth and Average the solver decides equations over 8-bit arithmetic of three neighbours.",
"C04": "building files of up to 100 revisions with the harness's own file builder, each revision updating, freeing, adding or moving objects, in tables and xref streams; every object is then read through each public path (`Open` in both modes, by number, from the whole list) and compared with a reference state kept by the harness. Contents are symbolic, so an outdated object cannot pass as equal; the assertions then fold to identity of terms (few solver queries), forks come from text searches over symbolic bytes.",
"C05": "opening files of 1 to 3 revisions in byte-perfect mode and comparing `Bytes`, revision slices and raw object slices with the exact ranges the builder recorded. Symbolic bytes sit in contents, the header's comment and after `%%EOF`.",
"C06": "building object streams with symbolic objects, headers in many spellings and indices that are right or wrong; every object read must be exactly the bytes the builder put there; a wrong index must lead to the object of that number or an error.",
"C07": "writing with the real `PDFWriter` and `SimplePDFBuilder` in the three output modes, then reading with pdfer *and* with the harness's strict parser (xref offsets, `/Size`, `/W`, `/Index`, object framing checked). `HSizes` and `HBoundary` place the file around the widths of offset fields (2^8, 2^16, 2^24), which no test samples.",
"C08": "carrying payloads with symbolic bytes through writer and reader, plain and compressed, and through foreign spellings of stream objects; keyword texts (`endstream`, `endobj`, `stream`, `%%EOF`, `obj`, xref text) stand before, between and after the symbolic bytes. Result and input must be the same terms.",
"C09": "encrypting through the public API with symbolic passwords, IDs and random bytes: keys derived on the writing side must be those derived on the reading side; a password must be accepted exactly if its digest is the stored one; every string and stream of the file must be the cipher text of its plain text under the key of its object (checked by an independent reader of the file), nothing but allowed parts in the clear. Hashes and ciphers are uninterpreted functions on symbolic data, so agreement is proved for the *derivation*, whatever the primitive returns.",
"C10": "the harness implements algorithms 1 to 7 of ISO 32000-1 7.6 (`lib.Std`) and compares key, U, O and object keys with those of pdfer for arbitrary passwords, O, P, ID, object and generation numbers; files encrypted by the harness must open and read as their plain text, in V1, V2, V4 (RC4, AES, Identity, crypt filters per kind), with strings in object streams and xref streams left alone; malformed cipher text gives data or an error.",
"C11": "showing arbitrary ASCII texts with the real builder, or in hand-made content streams in every spelling, and requiring `ExtractContent` to return the same texts at positions computed by a reference interpreter of the text and graphics state in the harness (matrices over concrete values, all operator sequences of length 3 or 4).",
"C12": "writing metadata of arbitrary characters through the API, in all output modes, and reading with `ExtractMetadata` and with the strict parser (PDFDocEncoding or UTF-16BE); foreign Info dictionaries in many spellings.",
"C13": "all trees of up to 4 (6) bookmarks: the written outline is checked structurally by the strict parser (`/First`, `/Last`, `/Next`, `/Prev`, `/Parent`, `/Count`, destinations) and must read back as the same tree; foreign outlines are read; other catalog entries must stay.",
"C14": "page trees of every shape up to 4 pages and 4 levels in 8 spellings and numberings; the document after the operation is read by the strict parser, its pages compared with the reference sequence (identity by content mark, inherited boxes, rotation and resources resolved), unaffected objects compared byte by byte.",
"C15": "comparing a document with itself in another spelling (must be identical under every option set) and with a variant in which exactly one of 24 aspects differs (must be reported, exactly once where the property says so). The differing byte is symbolic: any change of the byte must be reported, no equal byte may be.",
"C16": "forms built by `harness/form` in six tree shapes and five file layouts; the fields read through the three entry points are compared with the definition from which the file was built (full names, inherited type, flags, values, options, lengths). Flags are arbitrary 32-bit values.",
"C17": "filling through every public entry point; the resulting file is read by the strict parser: the filled fields have the value (text as PDF text string, states for buttons, arrays for lists), all others and all other objects are unchanged, offsets are right, encryption is kept.",
"C18": "validation of symbolic texts against symbolic constraints; the reference predicate in the harness gives the set of fields that must be reported, in the order of the form, for every map iteration order.",
"C19": "the packets of a form in six file layouts and five stream forms: what is read must be what the builder put in; what is replaced must be read back by the strict parser as given, everything else unchanged.",
"C20": "parse and re-create XFA data XML with symbolic characters and an independent small XML reader in the harness; `encoding/xml` is executed symbolically from source.",
"C21": "an arbitrary byte at an arbitrary position (or numbers, cuts, repetitions, reference cycles) in documents that exercise every reader; asserted is only that the call returns. Panics, endless loops and unbounded allocation are found by the engine on every path and replayed natively. This is the property that quantifies over *all* inputs; the bound is the base documents and one damage (two in thorough) per document. It is the only expensive one (about 5 minutes in quick).",
"C22": "building TrueType fonts with symbolic metrics, deltas, glyph numbers, widths and names; the font read must report the values in the tables, and the embedded objects (`/Widths`, `/FontDescriptor`, `/ToUnicode`, encoding) checked by the strict parser must agree with cmap and hmtx scaled to thousandths; extraction must give the text back.",
"C23": "files of one page with hand-written fonts show a symbolic code; the text extracted must be the character of reference tables in the harness (Annex D of ISO 32000-1), of the difference or of the map that the file was built with. The code, the codes and characters of maps and differences are symbolic; the table look-ups become terms, so one path covers all codes of a spelling.",
"C24": "two-page files with images, fonts, annotations and inherited attributes in all combinations of kinds, storage and places (symbolic data and texts) are built from a description, and what extraction reports is compared with that description.",
"C25": "documents are built by the real page builder from symbolic choices of calls, texts, names and picture files (JPEG headers and PNG pictures made by the harness, samples symbolic; the real PNG decoder of Go's library is executed too, its CRC-32 byte by byte), and read back by an independent parser, token interpreter and picture description.",
"C26": "values of every type of packet are built by the harness with symbolic texts, presence of parts and numbers, written by the library and parsed again, or written by the harness in other spellings of the same XML; equality is structural (`reflect.DeepEqual` as a formula). `encoding/xml` is executed from source; map iterations branch over every order.",
}
