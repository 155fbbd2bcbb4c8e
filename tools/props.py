# Source of properties.jsonl and MANIFEST.json; run tools/gen.py after editing.
def P(id, title, statement, over, quant, why, files, mech, observe, claimed=True, reason=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                observe=observe, claimed=claimed, reason=reason)

PROPS = [
P("C01", "Filter encoders round-trip exactly",
  "For every byte string, decoding what the library's ASCIIHex, ASCII85, RunLength and Flate encoders produce, alone or through a chain of filter names, returns exactly the original bytes. The encoded text uses only the characters its filter allows and ends with the filter's end marker.",
  ["inputs"], "every byte string and every chain of the supported filters",
  "tests encode a few literals; run boundaries, tail lengths, the z abbreviation and every byte value are unreachable by sampling",
  ["core/parse/filters.go"], [("Encode*/Decode* pairs and the filter dispatch", "core/parse/filters.go")], ["return values of parse.Encode*/Decode*/DecodeFilter"]),
P("C02", "Filter decoders follow the PDF specification",
  "For every encoded input the decoders return the bytes the PDF specification defines (white space ignored, odd final hex digit padded, partial final ASCII85 group, end markers honoured, run and literal lengths, both filter name spellings), and input the specification forbids is reported as an error rather than decoded to something else.",
  ["inputs"], "every input string of each filter",
  "tests use well-formed samples only; conformance on every byte and position is a universal claim",
  ["core/parse/filters.go"], [("decoders", "core/parse/filters.go")], ["return values and errors of parse.Decode*"]),
P("C03", "Cross-reference streams are decoded exactly",
  "For every cross-reference stream, the object numbers, types, offsets, stream numbers and indices the parser reports are exactly those the field widths, index subsections and PNG row filters define. Free, missing and out-of-range entries never become objects.",
  ["inputs"], "every width triple, index list, row content and row filter",
  "tests parse files from one producer with fixed widths and the Up filter",
  ["core/parse/object_stream.go", "core/parse/incremental.go"], [("width, index and predictor decoding", "core/parse/object_stream.go:ParseXRefStreamFull")], ["XRefResult maps", "objects of an opened file"]),
P("C04", "Incremental updates: the newest revision wins",
  "In a file of any number of revisions, every object is the one its newest cross-reference section defines, whichever mix of tables and xref streams, direct and compressed objects the revisions use; objects a later revision frees are gone and the newest root is the document's root. Looking an object up by number agrees with listing the opened document. Opening returns, with the objects its readable sections define or an error, whatever cycle or wild value the /Prev entries hold.",
  ["inputs", "histories"], "every history of updates and every kind of section",
  "tests parse one hand-made update; the order, section kinds, freeing and moving of objects over histories are not sampled",
  ["core/parse/incremental.go", "core/parse/api.go", "core/parse/parser.go"], [("merge of xref sections", "core/parse/incremental.go"), ("lookup", "core/parse/api.go:GetObject")], ["PDF.GetObject, Objects, HasObject, Trailer", "FindObjectLocation"]),
P("C05", "Byte-perfect mode preserves the file",
  "Byte-perfect parsing returns exactly the bytes it was given, and every revision, header, raw object, raw dictionary and raw stream it reports is the slice of the source at the offsets reported. The bytes of revision k end at the k-th end-of-file marker and hold the document as it was after that revision. Looking objects up in byte-perfect mode gives the same objects as in standard mode.",
  ["inputs", "histories"], "every file and every number of revisions",
  "tests compare a few samples; preservation is a claim about every byte",
  ["core/parse/document.go", "core/parse/api.go", "core/parse/raw.go"], [("raw document model", "core/parse")], ["PDF.Bytes, Raw, Document, GetRawObject, revision extraction"]),
P("C06", "Object streams yield exactly their objects",
  "The object at a number the cross-reference section places in an object stream is exactly the bytes the stream's header assigns to it, whatever the order of the data, the white space, the position of the stream among similarly numbered objects or its dictionary. A malformed object stream gives an error or that object, never a crash or another object's bytes.",
  ["inputs"], "every object stream layout",
  "tests hold one object stream made by one producer",
  ["core/parse/object_stream.go"], [("object stream extraction", "core/parse/object_stream.go:GetObjectFromStream")], ["PDF.GetObject"]),
P("C07", "What the writer writes opens as the same objects",
  "For every sequence of added, set and replaced objects and every output mode (table, xref stream, object streams), the written file opens, has the root, info, version and objects given, with the values given, and nothing else. A table file is strictly conforming: every offset is exact, /Size exceeds every object number, and numbers never used are free.",
  ["inputs", "histories"], "every set of objects and every output mode",
  "tests check that output contains marker texts; offsets and values of every object are not",
  ["core/write/writer.go", "core/parse/api.go"], [("serialisation", "core/write/writer.go:Write")], ["bytes of PDFWriter.Bytes and the document they open as"]),
P("C08", "Stream payloads survive writing and reading",
  "Every byte string given to the writer as stream data, compressed or not, is what reading the stream back yields, whatever keywords, line ends or delimiters it contains, and the stream dictionary is the caller's plus one correct /Length and the right /Filter. Reading streams of other producers yields exactly the /Length bytes of data, whatever precedes /Length in the dictionary and whatever line ends surround the data.",
  ["inputs"], "every byte string, dictionary and spelling",
  "tests use texts without keywords or line ends at the edges",
  ["core/write/writer.go", "core/parse/extent.go"], [("stream writing", "core/write/writer.go"), ("stream bounds", "core/parse/extent.go")], ["PDF.GetObject, GetRawObject"]),
P("C09", "Encrypted output opens with its passwords and hides everything else",
  "For every user and owner password, file ID, content and output mode, a file written with SetupEncryptionWithPasswords opens with either password and gives every string and stream back exactly. It opens with no password other than those whose stored digests match. In the file every string and every stream, other than the encryption dictionary and metadata declared unencrypted, is AES-CBC cipher text under a random IV and the key of its object, never the plain text.",
  ["inputs"], "every password, ID, random value, content and output mode",
  "tests use two passwords and check that output contains /Encrypt; a leak or a refused password depends on lengths and contents",
  ["core/write/encryption_v5.go", "core/write/writer.go", "core/encrypt/key_derivation.go", "core/encrypt/decrypt.go"],
  [("key setup", "core/write/encryption_v5.go:SetupAES256Encryption"), ("encryption of objects", "core/write/writer.go:encryptContent")], ["PDFWriter.Bytes", "parse.OpenWithOptions, PDF.GetObject", "encrypt.Verify*/Unwrap*V5"]),
P("C10", "Standard-security documents decrypt exactly",
  "For every password, owner entry, permission value, file ID and supported revision (2 to 4; RC4 with 40 to 128 bits, AES-128), the derived keys and the password check are those of ISO 32000-1 algorithms 1 to 7: a password opens the file exactly if it is its user or owner password. Opened, every string, stream and object-stream member is exactly the plain text, whatever its number, generation and contents. Malformed cipher text or keys never cause a crash.",
  ["inputs"], "every key, password, object number, generation and content",
  "tests hold a few recorded vectors; key lengths, revisions, escapes in O/U and object numbers above 255 are unsampled",
  ["core/encrypt/key_derivation.go", "core/encrypt/decrypt.go", "core/encrypt/dictionary.go", "core/parse/get_object.go"],
  [("key derivation", "core/encrypt/key_derivation.go"), ("object decryption", "core/encrypt/decrypt.go:DecryptObject")], ["encrypt.DeriveEncryptionKey, ComputeUValue, DecryptObject", "parse.OpenWithOptions, PDF.GetObject"]),
P("C11", "Text shown on pages is extracted exactly",
  "For every document built with the page builder, ExtractPages returns the pages in order with their sizes, and for each page its shown strings in order, each with exactly the ASCII text given, the font, size, spacing and rise in force and the position the positioning operators give, and its rectangles and images with the colours, widths and transformation in force. The same holds for content of other producers, whatever white space, comments, line layout, string spelling, splitting over content streams, compression, page tree shape or inherited attributes. Cyclic page trees return.",
  ["inputs", "histories"], "every ASCII text, operator sequence, spelling of content and page tree",
  "tests show plain words with one operator per line; escapes, state over operators and layouts are unsampled",
  ["content/extract/content_stream.go", "content/extract/pages.go", "core/write/content.go", "core/write/page.go"],
  [("content interpretation", "content/extract/content_stream.go"), ("page tree", "content/extract/pages.go"), ("content writing", "core/write/content.go")], ["extract.ExtractPages of files from write.SimplePDFBuilder and of hand-made files"]),
P("C12", "Document metadata reads back as written",
  "For every text, any Unicode included, given as title, author, subject, keywords, creator, producer or custom field, and every custom field name, the written document is one whose Info dictionary holds that text as a PDF text string, and ExtractMetadata returns it exactly; nothing else appears, and custom fields never replace standard ones. PDF dates are kept and ISO 8601 dates become the PDF date of the same instant and time zone. Page count, version and encryption state are the document's, and Info dictionaries of other producers are read by their entries, whatever their spelling.",
  ["inputs"], "every text, name, date and spelling of the dictionary",
  "tests use short ASCII words and one date without a time zone",
  ["core/write/metadata.go", "content/extract/metadata.go", "content/extract/dict_helpers.go"],
  [("writing", "core/write/metadata.go:SetMetadata"), ("reading", "content/extract/metadata.go:ExtractMetadata")], ["bytes of the written file", "extract.ExtractMetadata"]),
P("C13", "Bookmarks form a correct outline and read back",
  "For every tree of bookmarks, the written outline has correct First, Last, Next, Prev, Parent and Count entries and the catalog keeps its other entries; ExtractBookmarks returns the same tree with the titles (any Unicode), page numbers, destinations and URIs given. Outlines of other producers are read the same way, whatever the spelling, destination form or layout of their items, and cyclic outlines return.",
  ["inputs"], "every tree, title, destination and URI",
  "tests look for titles in the output; links, counts, nesting and special characters are unsampled",
  ["core/write/bookmarks.go", "content/extract/bookmarks.go", "core/write/writer.go"],
  [("outline writing", "core/write/bookmarks.go"), ("outline reading", "content/extract/bookmarks.go"), ("catalog update", "core/write/writer.go:updateCatalogWithOutlines")], ["bytes of the written file", "extract.ExtractBookmarks"]),
P("C14", "Page operations change exactly the pages they name",
  "After every sequence of RotatePage, RotateAllPages, DeletePage, DeletePages and InsertPage calls, the rebuilt document has exactly the expected pages in order, with their content, size, resources and rotation, correct /Kids, /Count and /Parent entries, and the rest of the document and its encryption unchanged; page numbers out of range, or the deletion of every page, are refused with the document unchanged. ExtractPages, SplitPDF, SplitPDFByPageCount and MergePDFs give documents of exactly the chosen pages in the order given, with everything the pages need, for every page tree shape, object numbering, inherited attributes and spelling, encrypted sources included. Malformed page trees return.",
  ["inputs", "histories"], "every page tree within the bounds, page number, angle, range and operation sequence",
  "tests apply one operation to flat, freshly written documents and count pages; nested trees, inherited attributes, sequences and what pages refer to are unsampled",
  ["core/manipulate/manipulate.go", "core/manipulate/page_tree.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go", "core/manipulate/rotation.go", "core/manipulate/extraction.go", "core/manipulate/merging.go", "core/manipulate/splitting.go"],
  [("page tree", "core/manipulate/page_tree.go"), ("copying of pages", "core/manipulate/extraction.go:copyPages"), ("rebuilding", "core/manipulate/manipulate.go:rebuildPDF")], ["bytes of the result, read strictly", "extract.ExtractPages of the result"]),
P("C15", "Comparison reports exactly the differences",
  "Comparing a document with itself, or with the same content in other object numbers, string spellings or stream encodings, reports Identical and no differences under every option set. Otherwise the result is Identical exactly if page count, sizes and rotations, texts with their fonts, sizes and positions within tolerance, graphics, images with their data, annotations, bookmarks, form values and metadata are equal under the options given, one item matching one. A difference is reported at its page or field with the old and new value, and the summary and report agree with the result.",
  ["inputs"], "every pair of documents and option set within the bounds",
  "tests compare a few simple documents; duplicates, options in combination, tolerance boundaries and encodings are unsampled",
  ["core/compare/compare.go", "core/compare/myers_diff.go", "core/compare/text_diff.go", "core/compare/report.go", "content/extract/images.go"],
  [("comparison", "core/compare/compare.go:ComparePDFsWithOptions"), ("text matching", "core/compare/myers_diff.go:myersDiff")], ["ComparisonResult of ComparePDFsWithOptions", "GenerateReport"]),
P("C16", "Form fields are read as the document defines them",
  "ExtractAcroForm and ParseAcroForm find the form through the newest catalog and list every field of its tree once, in document order, with its full name, type, flags, value, default, maximum length, options, rectangle and parent, whether these are direct, referenced, inherited, stored in object streams or encrypted, and however strings and names are spelled. GetFieldValues maps each full name to its value, FindFieldByName returns the field with that full name, and the schema has one question per terminal field, in order, with the matching type, required and read-only marks, label, default, options, selection, length limit and position. Malformed field trees return.",
  ["inputs"], "every field tree, layout, spelling and flag value within the bounds",
  "tests read one flat form of literal strings; inheritance, nesting, spellings, object streams and encryption are unsampled",
  ["forms/acroform/parser.go", "forms/acroform/extract.go", "forms/forms.go"],
  [("field tree", "forms/acroform/parser.go:parseFields"), ("schema", "forms/acroform/parser.go:ToQuestion")], ["acroform.ExtractAcroForm, ParseAcroForm, GetFieldValues, FindFieldByName, ToFormSchema"]),
P("C17", "Filling and building forms stores the given values and keeps the rest",
  "After filling, every named field has exactly the given value (text of any Unicode, the name of a button's state with its widgets showing it, arrays of a list), whether named by full or partial name, nested, in an object stream or in an encrypted file; everything else in the file is unchanged, encryption stays, and unknown names are skipped. FieldBuilder and FormBuilder write fields with exactly the name, type, flags, value, default, length limit, options and rectangle set, and keep the catalog's other entries. Actions and appearances are added to a field without disturbing its other entries or events.",
  ["inputs", "histories"], "every text and value, field kind, layout and sequence of setters and actions within the bounds",
  "tests look for the value's bytes in the output; special characters, other fields and structure are unsampled",
  ["forms/acroform/fill_streams.go", "forms/acroform/replace.go", "forms/acroform/writer.go", "forms/acroform/actions.go", "forms/acroform/appearance.go", "forms/acroform/integration.go", "forms/acroform/flatten.go", "forms/acroform/stream_rebuild.go"],
  [("filling", "forms/acroform/fill_streams.go:FillFormFieldsWithStreams"), ("building", "forms/acroform/writer.go:createFieldObject"), ("actions", "forms/acroform/actions.go")], ["bytes of the result, read strictly", "acroform.ExtractAcroForm of the result"]),
P("C18", "Form validation reports exactly the values that break a constraint",
  "ValidateField and ValidateFormData report an error naming the field exactly for values longer in characters than the maximum length, values (each of several) not among the options of a list, of a combo box without free text or of a radio group, and empty values of required fields; required fields without a value, at any depth, are reported once, and so are values for unknown fields. ValidateFieldValue and ValidateFormSchema do the same for the lengths, pattern, numeric range and required marks of questions. The errors and their order do not depend on map order.",
  ["inputs", "schedules"], "every value, flag, limit and option set within the bounds, and every map order",
  "tests try a few ASCII values; limits in characters, option pairs, arrays and nested fields are unsampled",
  ["forms/acroform/validation.go"], [("field rules", "forms/acroform/validation.go:ValidateField"), ("form rules", "forms/acroform/validation.go:ValidateFormData")], ["errors of the Validate functions"]),
P("C19", "XFA packets are read, replaced and written exactly",
  "For every document whose newest catalog has a form with an XFA array, ExtractAllXFAStreams and FindXFADatasetsStream return each named packet's decoded data and object number, whatever its filters, string spelling, references, object streams, revisions or encryption, and nothing for absent packets. RebuildPDFFromXFAStreams, UpdateXFAInPDF and Form.Fill give a conforming document in which exactly the packets given have the new data and all else, encryption included, is as before. BuildPDFFromXFAStreams writes a document with exactly the packets given.",
  ["inputs"], "every packet set, data byte, layout and filter within the bounds",
  "tests search one simple file; indirect, nested, filtered, updated and encrypted packets are unsampled",
  ["core/parse/xfa_packets.go", "core/write/xfa_builder.go", "forms/xfa/xfa.go", "forms/xfa/xfa_utils.go", "forms/forms.go"],
  [("reading", "forms/xfa/xfa.go:ExtractAllXFAStreams"), ("rebuilding", "core/write/xfa_builder.go:BuildFromOriginal")], ["xfa.ExtractAllXFAStreams, forms.Extract", "bytes of the result, read strictly"]),
P("C20", "Values of XFA data survive their XML",
  "For every set of fields and tree of groups, ParseXFADatasets of what DatasetsToXFA writes has the same groups, names and values: texts without outer white space exactly (given as number or boolean only when that has the same text, or 1 and 0 as booleans), numbers and booleans as such; the XML does not depend on map order. UpdateXFAValues and UpdateXFAFieldValues set the values of exactly the fields named, in the data section or anywhere, whatever markup the text contains and however the field is spelled, and leave every other byte as it was.",
  ["inputs", "schedules"], "every character, group tree, spelling and map order within the bounds",
  "tests use plain words in flat data; markup characters, number-like texts, nested groups and other spellings are unsampled",
  ["forms/xfa/xfa.go", "forms/xfa/xfa_datasets_translator.go"],
  [("translator", "forms/xfa/xfa_datasets_translator.go:ParseXFADatasets"), ("update", "forms/xfa/xfa.go:findFields")], ["text and values returned"]),
P("C21", "Reading ends with a result or an error, whatever the file contains",
  "For every sequence of bytes given as a file, and every position, object number, revision number or page number, each function that opens, decrypts, reads, extracts, fills, flattens, changes, compares or decodes it (files, objects, filters, content, images, outlines, character maps, XFA packets, JPEG headers) returns a result or an error: it does not panic, and neither loops nor allocates without bound, whatever is damaged, cut off, repeated or refers back to itself.",
  ["inputs"], "every byte at every place, every number and every reference within the bounds",
  "tests use well-formed files; a panic needs one particular byte or number at one particular place",
  ["core/parse/object_stream.go", "core/parse/xref_stream.go", "core/parse/incremental.go", "core/parse/filters.go", "core/encrypt/decrypt.go", "content/extract/content_stream.go", "content/extract/encoding.go", "content/extract/pages.go", "core/manipulate/manipulate.go", "forms/acroform/parser.go"],
  [("sections", "core/parse/object_stream.go:ParseXRefStreamFull"), ("chain of revisions", "core/parse/incremental.go:parseXRefChain"), ("content", "content/extract/content_stream.go:parseContentStreamWithDecoders")], ["that the call returns"]),
P("C22", "Embedded fonts say what the font file says",
  "For every well-formed TrueType font, ParseTTF gives the metrics and names of its tables (UTF-16, Windows and Unicode platforms), GetSubsetGlyphs exactly the glyphs that its preferred Unicode character map (format 4 or 12) has for the characters added, and GetWidths their advance widths, whatever the values. AddEmbeddedFont writes a conforming TrueType font dictionary: WinAnsi encoding, a width in thousandths of an em for each code, descriptor, names properly escaped and the font file unchanged; ASCII text shown with it is the text extracted. A font cut off or without a required table is an error, and no change of a byte makes a function panic or run on.",
  ["inputs", "schedules"], "every table value, name character, delta, glyph and damaged byte within the bounds",
  "tests parse one made-up font without a character map; deltas, listed glyphs, shared metrics and damaged tables are unsampled",
  ["resources/font/font.go", "resources/font/pdf.go", "core/write/page.go"],
  [("parsing", "resources/font/font.go:ParseTTF"), ("objects", "resources/font/pdf.go:ToPDFObjects")], ["font.TTF, glyphs and widths returned", "bytes of the document, read strictly", "text extracted"]),
P("C23", "Text is decoded as its font says",
  "For every code that the WinAnsi, MacRoman and Standard encodings define, and every code a font's Differences replace (names of the Latin character set, uniXXXX, uXXXXX) or its ToUnicode map maps (bfchar, bfrange with a first value or an array; one or two byte codes; several characters, characters beyond the basic plane), ExtractPages gives the character the font in use defines: ToUnicode before Differences before the base encoding, StandardEncoding for simple fonts without one, two bytes a code in composite fonts. It does so however the shown string is spelled, and whether fonts, encodings and maps are inline, objects, inherited or compressed; q and Q restore the font.",
  ["inputs"], "every code, spelling, map, difference and place of definition within the bounds",
  "tests show a few ASCII texts in Helvetica; codes above 127, differences, maps and composite fonts are unsampled",
  ["content/extract/encoding.go", "content/extract/resources.go", "content/extract/content_stream.go"],
  [("decoding", "content/extract/encoding.go:Decode"), ("fonts", "content/extract/resources.go:extractFontDecoder")], ["text elements of ExtractPages"]),
P("C24", "Images, fonts, annotations and page attributes are extracted as the document defines them",
  "For every document, ExtractPages, ExtractPageImages, ExtractAllImages and ExtractContent report: each page's image resources by name, with size, colour space, depth, filter, format and the data decoded up to its image format (predictors aside), each image of the document once, and where images are shown; each page's fonts by name, with kind, base font, family, encoding, whether embedded and mapped to Unicode; each page's annotations in order, with kind, rectangle, texts, colour, border, link target, open state, icon and first quadrilateral; boxes, rotation and content, own or inherited. All this whether the entries are inline, objects, shared, or spelled in another way or order.",
  ["inputs"], "every choice of kinds, entries, spellings, places and text or data bytes within the bounds",
  "tests look at one or two simple pages; shared, inherited and indirect resources and most annotation entries are unsampled",
  ["content/extract/resources.go", "content/extract/images.go", "content/extract/annotations.go", "content/extract/pages.go", "content/extract/extract.go"],
  [("images", "content/extract/images.go:extractImageData"), ("annotations", "content/extract/annotations.go:extractAnnotation"), ("fonts", "content/extract/resources.go:extractFontInfo")], ["pages, images, fonts and annotations returned"]),
P("C25", "Pages made with the page builder show what was put on them",
  "For every sequence of calls of the content stream, a page's content holds exactly the operators and operands ISO 32000-1 has for them, with texts byte for byte. AddJPEGImage and AddImage give an image object with the picture's size, color space, bytes or pixel colors, and its transparency as a soft mask (colors not multiplied by it). The names AddImage and AddStandardFont return stand, on that page, for the image or font they were given for. AddWatermark draws its text or image at the position, angle, size, color and opacity asked for (or the documented defaults), or returns an error and draws nothing; other content keeps its graphics state. The document has the pages in the order finished, with their sizes; the same calls give the same bytes.",
  ["inputs"], "every choice of calls, operands from fixed sets, texts, names, samples and header bytes within the bounds, and every order of map iteration",
  "tests build a few pages with one image and mostly check that the result opens; samples with alpha, odd headers, equal names and missing options are unsampled",
  ["core/write/content.go", "core/write/image.go", "core/write/page.go", "core/write/watermark.go"],
  [("content", "core/write/content.go:ShowText"), ("images", "core/write/image.go:AddImage"), ("pages", "core/write/page.go:Build"), ("watermarks", "core/write/watermark.go:AddWatermark")], ["bytes of the document"]),
P("C26", "XFA forms and settings survive their XML",
  "For every form (title, and fields with name, type, label, description, default text, options, validation pattern, script and message, required or one of read-only and hidden, position, page, and rules that calculate, set or validate with one script), XFA configuration, connection set, locale set and stylesheet, parsing what FormToXFA, ConfigToXFA, ConnectionSetToXFA, LocaleSetToXFA or StylesheetToXFA writes gives an equal value: all sections, attributes, properties and texts (without outer white space; identifiers are assigned anew; rules in the order of their fields), whatever markup characters they contain; the XML does not depend on map order. ParseXFAForm, ParseXFAConfig, ParseXFAConnectionSet, ParseXFALocaleSet and ParseXFAStylesheet read the same from any spelling of that XML (prefix, quotes, references, CDATA, comments, attribute order), and the fields of nested subforms in document order.",
  ["inputs", "schedules"], "every text, combination of parts, spelling and map order within the bounds",
  "tests translate one or two settings of each kind and check that a word occurs or a count matches; the other settings, markup characters and spellings are unsampled",
  ["forms/xfa/xfa_form_translator.go", "forms/xfa/xfa_config_translator.go", "forms/xfa/xfa_connection_translator.go", "forms/xfa/xfa_locale_translator.go", "forms/xfa/xfa_stylesheet_translator.go"],
  [("forms", "forms/xfa/xfa_form_translator.go:ParseXFAForm"), ("configuration", "forms/xfa/xfa_config_translator.go:ConfigToXFA"), ("locales", "forms/xfa/xfa_locale_translator.go:ParseXFALocaleSet")], ["values returned"]),
]
