From 21a74fd48c56519ef44c2372e7b3cbd318ba2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 01/58] fix: read the whole xref stream dictionary, however
 long it is

---
 core/parse/object_stream.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..b8ebb12 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -61,6 +61,13 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		return nil, fmt.Errorf("xref stream dictionary not found")
 	}
 
+	// The dictionary may be longer than the window used to find the object header
+	if end := bytes.Index(xrefSection[dictStart:], []byte("stream")); end > 0 {
+		xrefStr = string(xrefSection[:dictStart+end])
+	} else {
+		xrefStr = string(xrefSection)
+	}
+
 	// Find /Size entry
 	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
 	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
@@ -141,7 +148,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	// Check for predictor (PNG filter)
 	// Look for /DecodeParms with /Predictor
 	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
+	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(xrefStr)
 
 	if decodeparmsMatch != nil {
 		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-- 
2.43.0


From f29d2abf946da350c0e952f6b87e3185a3da4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 02/58] fix: xref stream entries without a type field are
 in-use objects

---
 core/parse/object_stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index b8ebb12..7242cde 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -224,6 +224,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 			for i := 0; i < w1 && i < len(entry); i++ {
 				typeVal = typeVal<<8 | int(entry[i])
 			}
+			if w1 == 0 {
+				typeVal = 1 // a zero-width type field defaults to type 1 (ISO 32000-1, 7.5.8.2)
+			}
 
 			// Parse field 2 (offset for Type 1, stream object for Type 2)
 			field2 := int64(0)
-- 
2.43.0


From 176bb18d7e5f032ad8e5fe34a13d4a7925850013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 03/58] fix: undo the Average and Paeth row filters of
 predicted xref streams

---
 core/parse/object_stream.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 7242cde..bac9bfb 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -192,6 +192,22 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 						for i := 0; i < columns; i++ {
 							decoded[row*columns+i] = rowData[i] + prevRow[i]
 						}
+					case 3: // Average
+						for i := 0; i < columns; i++ {
+							left := 0
+							if i > 0 {
+								left = int(decoded[row*columns+i-1])
+							}
+							decoded[row*columns+i] = rowData[i] + byte((left+int(prevRow[i]))/2)
+						}
+					case 4: // Paeth
+						for i := 0; i < columns; i++ {
+							left, upLeft := byte(0), byte(0)
+							if i > 0 {
+								left, upLeft = decoded[row*columns+i-1], prevRow[i-1]
+							}
+							decoded[row*columns+i] = rowData[i] + paethPredictor(left, prevRow[i], upLeft)
+						}
 					default:
 						copy(decoded[row*columns:], rowData)
 					}
@@ -270,6 +286,25 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	return result, nil
 }
 
+// paethPredictor picks the neighbour closest to left+up-upLeft (PNG specification, section 9.4)
+func paethPredictor(left, up, upLeft byte) byte {
+	abs := func(n int) int {
+		if n < 0 {
+			return -n
+		}
+		return n
+	}
+	p := int(left) + int(up) - int(upLeft)
+	pl, pu, pul := abs(p-int(left)), abs(p-int(up)), abs(p-int(upLeft))
+	if pl <= pu && pl <= pul {
+		return left
+	}
+	if pu <= pul {
+		return up
+	}
+	return upLeft
+}
+
 // GetObjectFromStream extracts an object from an object stream (ObjStm)
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-- 
2.43.0


From 1d5d0ab99096677d9d7058389359c6e6a4ce5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 04/58] fix: the newest revision decides whether and where an
 object is stored

---
 core/parse/incremental.go   | 11 +++++++++++
 core/parse/object_stream.go |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..bc9e58f 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -14,6 +14,7 @@ type xrefSection struct {
 	StartXRef int64                     // Byte offset where this xref section starts
 	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
 	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Free      []int                     // Object numbers marked free (Type 0 entries)
 	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
@@ -328,6 +329,8 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 
 			if err1 == nil && err2 == nil && flag == "n" {
 				section.Objects[currentObjNum] = offset
+			} else if err1 == nil && err2 == nil && flag == "f" {
+				section.Free = append(section.Free, currentObjNum)
 			}
 			currentObjNum++
 		}
@@ -404,6 +407,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 
 	section.Objects = result.Objects
 	section.Streams = result.ObjectStreams
+	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
 	xrefData := p.pdfBytes[startXRef:]
@@ -437,13 +441,20 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
 	for _, section := range p.sections {
+		// Objects deleted by this revision
+		for _, objNum := range section.Free {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedStreams, objNum)
+		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
+			delete(p.mergedStreams, objNum)
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
+			delete(p.mergedObjs, objNum)
 		}
 	}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index bac9bfb..06d589a 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -26,6 +26,8 @@ type XRefResult struct {
 	Objects map[int]int64
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
+	// Free objects (Type 0)
+	Free []int
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -258,7 +260,8 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 			switch typeVal {
 			case 0:
-				// Type 0: free object - skip
+				// Type 0: free object
+				result.Free = append(result.Free, objNum)
 			case 1:
 				// Type 1: uncompressed, in-use object
 				// field2 = byte offset, field3 = generation
-- 
2.43.0


From c3b9fa247a797334ef8be1198d4dca0bf80d9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 05/58] fix: read xref tables longer than 10000 bytes
 completely

---
 core/parse/incremental.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index bc9e58f..ba214ab 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -284,7 +284,11 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(10000, len(xrefData))])
+	xrefEnd := bytes.Index(xrefData, []byte("trailer"))
+	if xrefEnd == -1 {
+		xrefEnd = min(10000, len(xrefData))
+	}
+	xrefStr := string(xrefData[:xrefEnd])
 
 	// Parse xref entries
 	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
-- 
2.43.0


From 35a830f7bfd40d18e08e2a61c2940e9ee6cbbd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 06/58] fix: use the startxref next to the last %%EOF

---
 core/parse/incremental.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index ba214ab..550a0e1 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -111,11 +111,12 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 
 	searchSection := pdfStr[searchStart:lastEOF]
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
 
-	if match == nil {
+	if len(matches) == 0 {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
 	}
+	match := matches[len(matches)-1] // a short revision may leave an older one in the window
 
 	offset, err := strconv.ParseInt(match[1], 10, 64)
 	if err != nil {
-- 
2.43.0


From ec45970b90f1ad3739f47a812ec5ebf6ae5aa385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 07/58] fix: object lookup follows the newest revision instead
 of the first startxref

---
 core/parse/get_object.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..beb71ab 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -24,6 +24,16 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
+	// All revisions merged, newest first
+	if merged, err := parseWithIncrementalUpdates(pdfBytes, verbose); err == nil {
+		if entry, ok := merged.ObjectStreams[objNum]; ok {
+			return &ObjectLocation{StreamObjNum: entry.StreamObjNum, IndexInStream: entry.IndexInStream}, nil
+		}
+		if offset, ok := merged.Objects[objNum]; ok {
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		}
+	}
+
 	// Parse xref to find object
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
 	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-- 
2.43.0


From b14bf5ef4dec67ffd948a50a78e070e1504d555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 08/58] fix: object and stream boundaries are not misled by
 keywords inside data, strings or comments

---
 core/parse/document_parser.go |  63 ++++-------------
 core/parse/extent.go          | 127 ++++++++++++++++++++++++++++++++++
 core/parse/get_object.go      |  66 +++++-------------
 3 files changed, 156 insertions(+), 100 deletions(-)
 create mode 100644 core/parse/extent.go

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..e2945c6 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -442,70 +442,31 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 	}
 
 	// Find endobj
-	endobjIdx := bytes.Index(section, []byte("endobj"))
-	if endobjIdx == -1 {
+	bodyStart := bytes.Index(section, []byte("obj")) + len("obj")
+	extent, ok := scanObject(section[bodyStart:])
+	if !ok {
 		return nil, fmt.Errorf("endobj not found for object %d", objNum)
 	}
 
 	// Include "endobj" in raw bytes
-	endOffset := endobjIdx + 6 // len("endobj")
+	endOffset := bodyStart + extent.end + len("endobj")
 
 	obj.RawBytes = section[:endOffset]
 	obj.EndOffset = offset + int64(endOffset)
 
-	// Check if this is a stream object
-	streamIdx := bytes.Index(obj.RawBytes, []byte("stream"))
-	if streamIdx != -1 {
+	// Record the stream boundaries
+	if extent.isStream {
 		obj.IsStream = true
 
-		// Find dictionary (before "stream")
-		dictStart := bytes.Index(obj.RawBytes, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < streamIdx && depth > 0 {
-				if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '<' && obj.RawBytes[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '>' && obj.RawBytes[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-
+		if dictStart := bytes.Index(obj.RawBytes, []byte("<<")); dictStart != -1 {
 			obj.DictStart = dictStart
-			obj.DictEnd = dictEnd
-			obj.DictRaw = obj.RawBytes[dictStart:dictEnd]
-		}
-
-		// Find stream data boundaries
-		// Stream keyword followed by single EOL
-		streamDataStart := streamIdx + 6 // len("stream")
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\n' {
-			streamDataStart++
+			obj.DictEnd = bodyStart + extent.dictEnd
+			obj.DictRaw = obj.RawBytes[dictStart:obj.DictEnd]
 		}
 
-		// Find endstream
-		endstreamIdx := bytes.Index(obj.RawBytes[streamDataStart:], []byte("endstream"))
-		if endstreamIdx != -1 {
-			streamDataEnd := streamDataStart + endstreamIdx
-			// Trim trailing EOL before endstream
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\n' {
-				streamDataEnd--
-			}
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\r' {
-				streamDataEnd--
-			}
-
-			obj.StreamStart = streamDataStart
-			obj.StreamEnd = streamDataEnd
-			obj.StreamRaw = obj.RawBytes[streamDataStart:streamDataEnd]
-		}
+		obj.StreamStart = bodyStart + extent.dataStart
+		obj.StreamEnd = bodyStart + extent.dataEnd
+		obj.StreamRaw = obj.RawBytes[obj.StreamStart:obj.StreamEnd]
 	}
 
 	return obj, nil
diff --git a/core/parse/extent.go b/core/parse/extent.go
new file mode 100644
index 0000000..2f3b1f3
--- /dev/null
+++ b/core/parse/extent.go
@@ -0,0 +1,127 @@
+package parse
+
+import (
+	"bytes"
+	"regexp"
+	"strconv"
+)
+
+var lengthEntry = regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
+
+// objectExtent describes where the body of an indirect object ends and, for a stream object,
+// where its data lies. All offsets are relative to the body (the bytes after "N G obj").
+type objectExtent struct {
+	end       int // position of "endobj"
+	isStream  bool
+	dictEnd   int // position just after the stream dictionary
+	keyword   int // position of "stream"
+	dataStart int
+	dataEnd   int
+	streamEnd int // position just after "endstream"
+}
+
+// scanObject finds the end of an object without being misled by keywords that occur inside
+// strings, comments or stream data. It reports false if there is no "endobj".
+func scanObject(body []byte) (objectExtent, bool) {
+	depth := 0
+	dictEnd := -1 // just past the ">>" closing the outermost dictionary
+	for i := 0; i < len(body); i++ {
+		switch body[i] {
+		case '(':
+			i = skipLiteralString(body, i)
+		case '%':
+			for i+1 < len(body) && body[i+1] != '\r' && body[i+1] != '\n' {
+				i++
+			}
+		case '<':
+			if i+1 < len(body) && body[i+1] == '<' {
+				depth++
+				i++
+			} else if end := bytes.IndexByte(body[i:], '>'); end > 0 {
+				i += end
+			}
+		case '>':
+			if i+1 < len(body) && body[i+1] == '>' {
+				i++
+				if depth--; depth == 0 {
+					dictEnd = i + 1
+				}
+			}
+		case 'e':
+			if bytes.HasPrefix(body[i:], []byte("endobj")) {
+				return objectExtent{end: i}, true
+			}
+		case 's':
+			if depth == 0 && dictEnd >= 0 && bytes.HasPrefix(body[i:], []byte("stream")) &&
+				len(bytes.TrimSpace(body[dictEnd:i])) == 0 {
+				return scanStream(body, i, dictEnd)
+			}
+		}
+	}
+	// Unbalanced delimiters: fall back to a plain search
+	end := bytes.Index(body, []byte("endobj"))
+	return objectExtent{end: end}, end >= 0
+}
+
+// skipLiteralString returns the position of the parenthesis closing the string that starts at i.
+func skipLiteralString(b []byte, i int) int {
+	depth := 0
+	for ; i < len(b); i++ {
+		switch b[i] {
+		case '\\':
+			i++
+		case '(':
+			depth++
+		case ')':
+			if depth--; depth == 0 {
+				return i
+			}
+		}
+	}
+	return i
+}
+
+// scanStream measures a stream whose keyword is at the given position, trusting /Length when
+// "endstream" follows the data it announces.
+func scanStream(body []byte, keyword, dictEnd int) (objectExtent, bool) {
+	ext := objectExtent{isStream: true, dictEnd: dictEnd, keyword: keyword, dataStart: keyword + len("stream")}
+	if ext.dataStart < len(body) && body[ext.dataStart] == '\r' {
+		ext.dataStart++
+	}
+	if ext.dataStart < len(body) && body[ext.dataStart] == '\n' {
+		ext.dataStart++
+	}
+
+	data := body[ext.dataStart:]
+	endstream := -1
+	if m := lengthEntry.FindSubmatch(body[:keyword]); m != nil && m[2] == nil {
+		if length, err := strconv.Atoi(string(m[1])); err == nil && length <= len(data) {
+			rest := bytes.TrimLeft(data[length:], "\r\n \t")
+			if bytes.HasPrefix(rest, []byte("endstream")) {
+				ext.dataEnd = ext.dataStart + length
+				endstream = len(data) - len(rest)
+			}
+		}
+	}
+	if endstream < 0 {
+		if endstream = bytes.Index(data, []byte("endstream")); endstream >= 0 {
+			ext.dataEnd = ext.dataStart + endstream
+			if ext.dataEnd > ext.dataStart && body[ext.dataEnd-1] == '\n' {
+				ext.dataEnd--
+			}
+			if ext.dataEnd > ext.dataStart && body[ext.dataEnd-1] == '\r' {
+				ext.dataEnd--
+			}
+		}
+	}
+	if endstream < 0 {
+		end := bytes.Index(data, []byte("endobj"))
+		ext.end = ext.dataStart + end
+		ext.dataEnd, ext.streamEnd = ext.end, ext.end
+		return ext, end >= 0
+	}
+	ext.streamEnd = ext.dataStart + endstream + len("endstream")
+	end := bytes.Index(body[ext.streamEnd:], []byte("endobj"))
+	ext.end = ext.streamEnd + end
+	return ext, end >= 0
+}
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index beb71ab..3e3a600 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -179,74 +179,42 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		genNum, _ = strconv.Atoi(string(headerMatch[1]))
 	}
 
-	// Find endobj
-	endobjPos := bytes.Index(objData, []byte("endobj"))
-	if endobjPos == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
-	}
-
 	// Extract content between header and endobj
 	// Skip past "N G obj" to get to the content
-	contentStart := bytes.Index(objData[:endobjPos], []byte("obj"))
+	contentStart := bytes.Index(objData, []byte("obj"))
 	if contentStart == -1 {
-		contentStart = 0
+		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	}
+	if contentStart >= 3 && bytes.HasPrefix(objData[contentStart-3:], []byte("endobj")) {
+		contentStart = 0 // no header before the content
 	} else {
 		contentStart += 3 // Skip "obj"
 		// Skip whitespace
-		for contentStart < endobjPos && (objData[contentStart] == ' ' || objData[contentStart] == '\n' || objData[contentStart] == '\r' || objData[contentStart] == '\t') {
+		for contentStart < len(objData) && (objData[contentStart] == ' ' || objData[contentStart] == '\n' || objData[contentStart] == '\r' || objData[contentStart] == '\t') {
 			contentStart++
 		}
 	}
 
-	content := objData[contentStart:endobjPos]
+	// Find endobj
+	extent, ok := scanObject(objData[contentStart:])
+	if !ok {
+		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	}
+	content := objData[contentStart : contentStart+extent.end]
 
 	// Check if this is a stream object
-	streamStart := bytes.Index(content, []byte("stream"))
-	if streamStart != -1 {
-		// This is a stream object
-		// Find "endstream" to get the full stream
-		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
-		}
-		content = content[:endstreamPos+len("endstream")]
+	if extent.isStream {
+		streamStart := extent.keyword
+		content = content[:extent.streamEnd]
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
-			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
 			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-			lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-			}
-
-			// Find actual stream data (after "stream\r\n" or "stream\n")
-			streamDataStart := streamStart + 6
-			// Skip exactly one EOL per PDF spec
-			if streamDataStart < len(content) && content[streamDataStart] == '\r' {
-				streamDataStart++
-			}
-			if streamDataStart < len(content) && content[streamDataStart] == '\n' {
-				streamDataStart++
-			}
-
-			// Use /Length if available, otherwise find endstream
-			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
-				streamData = content[streamDataStart : streamDataStart+streamLength]
-			} else {
-				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-				if streamDataEnd == -1 {
-					streamDataEnd = len(content) - streamDataStart
-				}
-				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
-			}
+			streamData := content[extent.dataStart:extent.dataEnd]
 
 			if verbose {
-				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
+				log.Printf("Decrypting stream: %d bytes, objNum=%d, genNum=%d", len(streamData), objNum, genNum)
 			}
 			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
 			if err == nil {
-- 
2.43.0


From 26adb84de8e1785cc6c24ab49eccdba110186733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 09/58] fix: each revision uses the startxref next to its own
 %%EOF

---
 core/parse/document_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index e2945c6..fabdda6 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -131,10 +131,11 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 
 	searchSection := string(pdfBytes[searchStart:eofOffset])
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-	if match == nil {
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
+	if len(matches) == 0 {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
+	match := matches[len(matches)-1]
 
 	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
-- 
2.43.0


From 461e8063d8161ab2904593d2af21a889b5760faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 10/58] fix: objects are taken from the right object stream and
 cut where the next object begins

---
 core/parse/api.go           |   3 +
 core/parse/object_stream.go | 114 ++++++++++++++----------------------
 2 files changed, 46 insertions(+), 71 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..e6da8e3 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -288,6 +288,9 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 
 	if ref.InStream {
 		// Object is in an object stream - extract it
+		if stm, ok := p.xref.Objects[ref.StreamObjNum]; ok && !stm.InStream {
+			return getObjectFromStreamAt(p.raw, stm.Offset, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
+		}
 		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
 	}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 06d589a..2f77db2 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -311,66 +311,37 @@ func paethPredictor(left, up, upLeft byte) byte {
 // GetObjectFromStream extracts an object from an object stream (ObjStm)
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
-	}
-
-	streamObjStart := matches[0]
-
-	// Find the object stream's dictionary and stream data
-	objSection := pdfBytes[streamObjStart:]
-
-	// Find dictionary
-	dictStart := bytes.Index(objSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("object stream dictionary not found")
+	// Step 1: Get the object stream itself, preferably through the cross-reference data
+	loc, err := FindObjectLocation(pdfBytes, streamObjNum, false)
+	offset := int64(-1)
+	if err == nil && loc.IsDirect {
+		offset = loc.ByteOffset
 	}
+	return getObjectFromStreamAt(pdfBytes, offset, objNum, streamObjNum, indexInStream, encryptInfo, verbose)
+}
 
-	// Find dictionary end to get dict content
-	dictEnd := bytes.Index(objSection[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end not found")
-	}
-	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
-
-	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("/Length not found in object stream dictionary")
-	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
-
-	// Find stream keyword
-	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, fmt.Errorf("stream keyword not found in object stream")
-	}
-	streamKeyword += dictStart
-
-	// Skip "stream" and exactly one EOL marker (per PDF spec)
-	streamDataStart := streamKeyword + 6
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\n' {
-		streamDataStart++
+// getObjectFromStreamAt extracts an object from the object stream at the given byte offset
+func getObjectFromStreamAt(pdfBytes []byte, streamOffset int64, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	header := regexp.MustCompile(fmt.Sprintf(`^\s*%d\s+\d+\s+obj`, streamObjNum))
+	if streamOffset < 0 || streamOffset >= int64(len(pdfBytes)) || !header.Match(pdfBytes[streamOffset:]) {
+		// The recorded offset is wrong: search for the header
+		anywhere := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%d\s+\d+\s+obj`, streamObjNum))
+		match := anywhere.FindIndex(pdfBytes)
+		if match == nil {
+			return nil, fmt.Errorf("object stream %d not found", streamObjNum)
+		}
+		streamOffset = int64(match[0])
 	}
+	objSection := pdfBytes[streamOffset:]
+	objSection = objSection[header.FindIndex(objSection)[1]:]
 
-	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+	// Find the object stream's dictionary and stream data
+	extent, ok := scanObject(objSection)
+	if !ok || !extent.isStream {
+		return nil, fmt.Errorf("object %d is not an object stream", streamObjNum)
 	}
-
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+	dictSection := string(objSection[:extent.dictEnd])
+	streamData := objSection[extent.dataStart:extent.dataEnd]
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
@@ -391,7 +362,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		zlibReader.Close()
 	}
 
-	if err != nil || zlibErr != nil {
+	if !strings.Contains(dictSection, "/Filter") {
+		decompressed = streamData
+	} else if err != nil || zlibErr != nil {
 		// Try raw deflate
 		flateReader := flate.NewReader(bytes.NewReader(streamData))
 		decompressed, err = io.ReadAll(flateReader)
@@ -408,8 +381,6 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
 	// Find /N and /First from dictionary
-	dictSection := string(objSection[dictStart:streamKeyword])
-
 	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
 	nMatch := nPattern.FindStringSubmatch(dictSection)
 	if nMatch == nil {
@@ -431,6 +402,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 	var entries []objEntry
 
+	if firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %d beyond object stream of %d bytes", firstOffset, len(decompressed))
+	}
 	headerData := decompressed[:firstOffset]
 	headerStr := string(headerData)
 	fields := strings.Fields(headerStr)
@@ -441,12 +415,11 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
-		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
-	}
-
 	// Find the object at the specified index
-	targetEntry := entries[indexInStream]
+	var targetEntry objEntry
+	if indexInStream >= 0 && indexInStream < len(entries) {
+		targetEntry = entries[indexInStream]
+	}
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
 		found := false
@@ -464,17 +437,16 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 
 	// Calculate object data range
 	objDataStart := firstOffset + targetEntry.offset
-	var objDataEnd int
+	objDataEnd := len(decompressed)
 
-	// Find next object's offset or end of stream
-	if indexInStream < len(entries)-1 {
-		nextEntry := entries[indexInStream+1]
-		objDataEnd = firstOffset + nextEntry.offset
-	} else {
-		objDataEnd = len(decompressed)
+	// The object ends where the next one in the stream begins
+	for _, e := range entries {
+		if e.offset > targetEntry.offset && firstOffset+e.offset < objDataEnd {
+			objDataEnd = firstOffset + e.offset
+		}
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if objDataStart < firstOffset || objDataStart >= len(decompressed) {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
-- 
2.43.0


From 122201bc1a58172035a08406706a33cf756ec646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 11/58] fix: object stream offsets are relative to /First

---
 core/write/object_stream.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..e0109ed 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -68,12 +68,10 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		})
 	}
 
-	// Calculate offsets
+	// Calculate offsets, relative to the start of the object data
 	currentOffset := 0
 	for i := range objInfos {
 		objInfos[i].offset = currentOffset
-		// Offset is relative to start of object data (after header)
-		// We'll add header length later
 		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
 	}
 
@@ -87,25 +85,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	headerStr := strings.TrimSpace(headerBuilder.String())
 	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+	firstOffset := len(headerBytes) + 1 // data starts after the header and a space
 
 	// Build data section
 	var dataBuilder bytes.Buffer
-- 
2.43.0


From 81d8961d817f0335eee1baddf46f80ae06ac6d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 12/58] fix: object streams are written in a stable order and
 without the encryption dictionary

---
 core/write/object_stream.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0109ed..0ac48c2 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -31,12 +32,18 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		if obj.IsFree {
 			continue
 		}
+		// The encryption dictionary must stay readable without decryption
+		if w.encryptRef != "" && w.encryptRef == fmt.Sprintf("%d %d R", objNum, obj.Generation) {
+			continue
+		}
 		// Only compress non-stream objects (stream objects are already compressed)
 		if obj.Stream == nil && obj.Content != nil {
 			eligibleObjs = append(eligibleObjs, objNum)
 		}
 	}
 
+	sort.Ints(eligibleObjs) // stable output
+
 	if len(eligibleObjs) == 0 {
 		return nil, nil, nil
 	}
-- 
2.43.0


From e6f8fa846ce25bb63c763f62a7ac95ce9a36c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 13/58] fix: xref streams carry the trailer entries

---
 core/write/xref_stream.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..b55e5e4 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -133,7 +133,6 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	compressedData := compressed.Bytes()
 
 	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -141,6 +140,19 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Filter": "/FlateDecode",
 		"/Length": len(compressedData),
 	}
+	// The stream dictionary takes the place of the trailer (ISO 32000-1, 7.5.8.2)
+	if w.rootRef != "" {
+		xrefStreamDict["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		xrefStreamDict["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		xrefStreamDict["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		xrefStreamDict["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
 
 	// Increment object counter
 	w.nextObjNum++
-- 
2.43.0


From 20f8405cf472cd4bd5de4da9cd37ef0ae2b0b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 14/58] fix: streams without data are written as streams

---
 core/write/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..a8c661c 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -111,6 +111,9 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 		dict["Filter"] = "/FlateDecode"
 	}
 
+	if streamData == nil {
+		streamData = []byte{} // an empty stream is still a stream
+	}
 	dict["Length"] = len(streamData)
 
 	w.objects[objNum] = &PDFObject{
@@ -147,6 +150,9 @@ func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, co
 		dict["Filter"] = "/FlateDecode"
 	}
 
+	if streamData == nil {
+		streamData = []byte{} // an empty stream is still a stream
+	}
 	dict["Length"] = len(streamData)
 
 	w.objects[objNum] = &PDFObject{
-- 
2.43.0


From 3c054a24a395eca3b289375cf0a2098e31db7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 15/58] fix: a caller's /Length entry does not duplicate the
 real one

---
 core/write/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/write/writer.go b/core/write/writer.go
index a8c661c..c1edfd0 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -114,6 +114,7 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	if streamData == nil {
 		streamData = []byte{} // an empty stream is still a stream
 	}
+	delete(dict, "/Length") // same key with the optional slash
 	dict["Length"] = len(streamData)
 
 	w.objects[objNum] = &PDFObject{
@@ -153,6 +154,7 @@ func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, co
 	if streamData == nil {
 		streamData = []byte{} // an empty stream is still a stream
 	}
+	delete(dict, "/Length") // same key with the optional slash
 	dict["Length"] = len(streamData)
 
 	w.objects[objNum] = &PDFObject{
-- 
2.43.0


From 9724f899d599453d1a5ea83f1b29971193ed9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 16/58] fix: take a stream's /Length from its own dictionary,
 not a nested one

---
 core/parse/extent.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/parse/extent.go b/core/parse/extent.go
index 2f3b1f3..4a28f4a 100644
--- a/core/parse/extent.go
+++ b/core/parse/extent.go
@@ -6,7 +6,7 @@ import (
 	"strconv"
 )
 
-var lengthEntry = regexp.MustCompile(`/Length\s+(\d+)(\s+\d+\s+R)?`)
+var lengthEntry = regexp.MustCompile(`^/Length\s+(\d+)(\s+\d+\s+R)?`)
 
 // objectExtent describes where the body of an indirect object ends and, for a stream object,
 // where its data lies. All offsets are relative to the body (the bytes after "N G obj").
@@ -24,7 +24,8 @@ type objectExtent struct {
 // strings, comments or stream data. It reports false if there is no "endobj".
 func scanObject(body []byte) (objectExtent, bool) {
 	depth := 0
-	dictEnd := -1 // just past the ">>" closing the outermost dictionary
+	dictEnd := -1  // just past the ">>" closing the outermost dictionary
+	lengthAt := -1 // the /Length entry of the outermost dictionary
 	for i := 0; i < len(body); i++ {
 		switch body[i] {
 		case '(':
@@ -47,6 +48,10 @@ func scanObject(body []byte) (objectExtent, bool) {
 					dictEnd = i + 1
 				}
 			}
+		case '/':
+			if depth == 1 && lengthAt < 0 && lengthEntry.Match(body[i:]) {
+				lengthAt = i
+			}
 		case 'e':
 			if bytes.HasPrefix(body[i:], []byte("endobj")) {
 				return objectExtent{end: i}, true
@@ -54,7 +59,7 @@ func scanObject(body []byte) (objectExtent, bool) {
 		case 's':
 			if depth == 0 && dictEnd >= 0 && bytes.HasPrefix(body[i:], []byte("stream")) &&
 				len(bytes.TrimSpace(body[dictEnd:i])) == 0 {
-				return scanStream(body, i, dictEnd)
+				return scanStream(body, i, dictEnd, lengthAt)
 			}
 		}
 	}
@@ -83,7 +88,7 @@ func skipLiteralString(b []byte, i int) int {
 
 // scanStream measures a stream whose keyword is at the given position, trusting /Length when
 // "endstream" follows the data it announces.
-func scanStream(body []byte, keyword, dictEnd int) (objectExtent, bool) {
+func scanStream(body []byte, keyword, dictEnd, lengthAt int) (objectExtent, bool) {
 	ext := objectExtent{isStream: true, dictEnd: dictEnd, keyword: keyword, dataStart: keyword + len("stream")}
 	if ext.dataStart < len(body) && body[ext.dataStart] == '\r' {
 		ext.dataStart++
@@ -94,7 +99,11 @@ func scanStream(body []byte, keyword, dictEnd int) (objectExtent, bool) {
 
 	data := body[ext.dataStart:]
 	endstream := -1
-	if m := lengthEntry.FindSubmatch(body[:keyword]); m != nil && m[2] == nil {
+	var m [][]byte
+	if lengthAt >= 0 {
+		m = lengthEntry.FindSubmatch(body[lengthAt:keyword])
+	}
+	if m != nil && m[2] == nil {
 		if length, err := strconv.Atoi(string(m[1])); err == nil && length <= len(data) {
 			rest := bytes.TrimLeft(data[length:], "\r\n \t")
 			if bytes.HasPrefix(rest, []byte("endstream")) {
-- 
2.43.0


From 212fb9cc0cd7aaab0ca57fa77e4f982743d7b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 17/58] fix: pad passwords with the standard padding string,
 not with the password itself

---
 core/encrypt/key_derivation.go | 62 +++++++++++-----------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..5e1b7ea 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -23,30 +23,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
-	// Pad or truncate password to 32 bytes
-	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
-	// - For empty password, the padding string itself is used
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedPassword := make([]byte, 32)
-	if len(password) == 0 {
-		// Empty password: use padding string directly
-		copy(paddedPassword, paddingString)
-	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
-	}
+	// Pad or truncate password to 32 bytes (Algorithm 2, step a)
+	paddedPassword := padPassword(password)
 
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
 	hash := md5.New()
@@ -99,6 +77,22 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	return key, nil
 }
 
+// passwordPadding is the padding string of ISO 32000-1, 7.6.3.3
+var passwordPadding = []byte{
+	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
+	0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
+	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
+	0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
+}
+
+// padPassword truncates the password to 32 bytes or completes it with the padding string
+func padPassword(password []byte) []byte {
+	padded := make([]byte, 32)
+	n := copy(padded, password)
+	copy(padded[n:], passwordPadding)
+	return padded
+}
+
 // ComputeUValue computes the U value for password verification
 // For revision 4 (AES), the U value is 48 bytes: 32-byte hash + 16-byte validation salt
 // Algorithm 5 from ISO 32000-1:2008
@@ -202,25 +196,7 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
 	// Pad owner password to 32 bytes
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedOwnerPassword := make([]byte, 32)
-	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
-	} else {
-		// Empty password - use padding string
-		copy(paddedOwnerPassword, paddingString)
-	}
+	paddedOwnerPassword := padPassword(ownerPassword)
 
 	// MD5 hash of padded owner password
 	hash := md5.New()
-- 
2.43.0


From d79e0cea63b6117d27ca1d743c7ec17a1ff06af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 18/58] fix: derive the user key from the owner password with
 all 20 RC4 passes

---
 core/encrypt/key_derivation.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 5e1b7ea..08340fa 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -227,12 +227,20 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 		}
 		cipher.XORKeyStream(decryptedO, encrypt.O)
 	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+		// Revision 3+: undo the 20 RC4 passes (Algorithm 7, step b)
+		decryptedO = decryptedO[:min(32, len(encrypt.O))]
+		copy(decryptedO, encrypt.O)
+		for i := 19; i >= 0; i-- {
+			passKey := make([]byte, len(ownerHash))
+			for j := range ownerHash {
+				passKey[j] = ownerHash[j] ^ byte(i)
+			}
+			cipher, err := rc4.NewCipher(passKey)
+			if err != nil {
+				return nil, err
+			}
+			cipher.XORKeyStream(decryptedO, decryptedO)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
 	}
 
 	// Now derive user key from decrypted O (which is the user password hash)
-- 
2.43.0


From ed7593e45cb82c624b21e46cbd48415e224fceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 19/58] fix: /EncryptMetadata takes part in the key from
 revision 4 only

---
 core/encrypt/key_derivation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 08340fa..bdf7ef2 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -49,8 +49,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF (revision 4 and later)
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
-- 
2.43.0


From 3ecd51fc7bb8a51f36ac91d0fb4a7b8d8b6ccc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 20/58] fix: parse the encryption dictionary and file ID as PDF
 objects, not by text search

Object numbers matched as suffixes ("5 0 obj" in "15 0 obj"), literal strings
ended at their first parenthesis, escapes were kept, unsigned /P overflowed,
entries of nested dictionaries were taken and 40-bit defaults were ignored.
---
 core/encrypt/dictionary.go     | 161 ++++++++++++++++++
 core/encrypt/key_derivation.go |  15 +-
 core/encrypt/parser.go         | 287 ++++++---------------------------
 3 files changed, 211 insertions(+), 252 deletions(-)
 create mode 100644 core/encrypt/dictionary.go

diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
new file mode 100644
index 0000000..2a32d7a
--- /dev/null
+++ b/core/encrypt/dictionary.go
@@ -0,0 +1,161 @@
+package encrypt
+
+import (
+	"bytes"
+	"fmt"
+	"regexp"
+)
+
+// isDelimiter reports whether c ends a PDF name, number or keyword
+func isDelimiter(c byte) bool {
+	return bytes.IndexByte([]byte(" \t\r\n\f\x00()<>[]{}/%"), c) >= 0
+}
+
+// skipSpace returns the position of the first byte at or after i that is neither white space nor comment
+func skipSpace(b []byte, i int) int {
+	for i < len(b) {
+		if b[i] == '%' {
+			for i < len(b) && b[i] != '\r' && b[i] != '\n' {
+				i++
+			}
+		} else if bytes.IndexByte([]byte(" \t\r\n\f\x00"), b[i]) < 0 {
+			break
+		} else {
+			i++
+		}
+	}
+	return i
+}
+
+// tokenEnd returns the position just after the token that starts at i. Strings, names and
+// other regular tokens are one token each, as are the delimiters <<, >>, [ and ].
+func tokenEnd(b []byte, i int) int {
+	switch {
+	case b[i] == '(':
+		depth := 0
+		for ; i < len(b); i++ {
+			if b[i] == '\\' {
+				i++
+			} else if b[i] == '(' {
+				depth++
+			} else if b[i] == ')' {
+				if depth--; depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		return len(b)
+	case bytes.HasPrefix(b[i:], []byte("<<")), bytes.HasPrefix(b[i:], []byte(">>")):
+		return i + 2
+	case b[i] == '<':
+		if end := bytes.IndexByte(b[i:], '>'); end >= 0 {
+			return i + end + 1
+		}
+		return len(b)
+	case b[i] != '/' && isDelimiter(b[i]):
+		return i + 1
+	}
+	for i++; i < len(b) && !isDelimiter(b[i]); i++ {
+	}
+	return i
+}
+
+// decodeString returns the bytes denoted by a literal or hexadecimal string token
+func decodeString(token []byte) []byte {
+	if len(token) < 2 || token[0] != '(' && token[0] != '<' {
+		return nil
+	}
+	if token[0] == '<' {
+		digits := bytes.Join(bytes.Fields(token[1:len(token)-1]), nil)
+		if len(digits)%2 == 1 {
+			digits = append(digits, '0') // a missing last digit is 0
+		}
+		return parseHexString(string(digits))
+	}
+	body := token[1 : len(token)-1]
+	var out []byte
+	for i := 0; i < len(body); i++ {
+		c := body[i]
+		if c == '\r' { // an end of line is read as a line feed
+			if i+1 < len(body) && body[i+1] == '\n' {
+				i++
+			}
+			c = '\n'
+		} else if c == '\\' && i+1 < len(body) {
+			i++
+			c = body[i]
+			switch {
+			case c == 'n':
+				c = '\n'
+			case c == 'r':
+				c = '\r'
+			case c == 't':
+				c = '\t'
+			case c == 'b':
+				c = '\b'
+			case c == 'f':
+				c = '\f'
+			case c == '\n':
+				continue
+			case c == '\r':
+				if i+1 < len(body) && body[i+1] == '\n' {
+					i++
+				}
+				continue
+			case c >= '0' && c <= '7':
+				c -= '0'
+				for n := 0; n < 2 && i+1 < len(body) && body[i+1] >= '0' && body[i+1] <= '7'; n++ {
+					i++
+					c = c<<3 | (body[i] - '0')
+				}
+			}
+		}
+		out = append(out, c)
+	}
+	return out
+}
+
+// dictionaryEntries returns the top-level entries of the dictionary at the start of b, each
+// value being the text of its first token or of the whole nested dictionary or array.
+func dictionaryEntries(b []byte) map[string][]byte {
+	i := skipSpace(b, 0)
+	if !bytes.HasPrefix(b[i:], []byte("<<")) {
+		return nil
+	}
+	entries := make(map[string][]byte)
+	key := ""
+	for i = skipSpace(b, i+2); i < len(b) && !bytes.HasPrefix(b[i:], []byte(">>")); i = skipSpace(b, i) {
+		start, depth := i, 0
+		for i < len(b) {
+			opening := bytes.HasPrefix(b[i:], []byte("<<")) || b[i] == '['
+			closing := bytes.HasPrefix(b[i:], []byte(">>")) || b[i] == ']'
+			i = tokenEnd(b, i)
+			if opening {
+				depth++
+			} else if closing {
+				depth--
+			}
+			if depth <= 0 {
+				break
+			}
+			i = skipSpace(b, i)
+		}
+		if token := b[start:i]; key != "" {
+			entries[key] = token
+			key = ""
+		} else if token[0] == '/' {
+			key = string(token)
+		}
+	}
+	return entries
+}
+
+// findDictionary returns the bytes from the dictionary of the given object on
+func findDictionary(pdfBytes []byte, objNum int) []byte {
+	header := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%d\s+\d+\s+obj`, objNum))
+	match := header.FindIndex(pdfBytes)
+	if match == nil {
+		return nil
+	}
+	return pdfBytes[match[1]:]
+}
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bdf7ef2..601124c 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -299,18 +299,11 @@ func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
 	if match != nil {
 		// Find the first binary string in parentheses
 		idStart := match[1] - 1 // Position of '('
-		parenStart := bytes.Index(pdfBytes[idStart:], []byte("("))
-		if parenStart != -1 {
-			parenStart += idStart + 1
-			parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-			if parenEnd != -1 {
-				fileID := pdfBytes[parenStart : parenStart+parenEnd]
-				if verbose {
-					log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
-				}
-				return fileID
-			}
+		fileID := decodeString(pdfBytes[idStart:tokenEnd(pdfBytes, idStart)])
+		if verbose {
+			log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
 		}
+		return fileID
 	}
 
 	if verbose {
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..d23ec1b 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -1,7 +1,6 @@
 package encrypt
 
 import (
-	"bytes"
 	"fmt"
 	"log"
 	"regexp"
@@ -13,121 +12,42 @@ import (
 
 // ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
 func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find /Encrypt reference in trailer
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatchIndex(pdfStr)
-
-	var encryptObjNum int
-	var err error
-
+	// Find /Encrypt in trailer: a reference, or the dictionary itself
+	encryptPattern := regexp.MustCompile(`/Encrypt\s*(?:<<|(\d+)\s+(\d+)\s+R)`)
+	encryptMatch := encryptPattern.FindSubmatchIndex(pdfBytes)
 	if encryptMatch == nil {
 		return nil, fmt.Errorf("/Encrypt dictionary not found")
 	}
 
-	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
-	if err != nil {
-		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
-	}
-
-	if verbose {
-		log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
-	}
-
-	// Find the Encrypt object
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex == -1 {
-		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
-	}
-
-	// Find dictionary content - need to handle nested dictionaries
-	dictStart := bytes.Index(pdfBytes[objIndex:], []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("Encrypt dictionary start not found")
-	}
-	dictStart += objIndex
-
-	// Find matching >> (handle nested dictionaries)
-	depth := 0
-	dictEnd := dictStart
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
+	objBody := pdfBytes[encryptMatch[0]+len("/Encrypt"):]
+	if encryptMatch[2] >= 0 {
+		encryptObjNum, err := strconv.Atoi(string(pdfBytes[encryptMatch[2]:encryptMatch[3]]))
+		if err != nil {
+			return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
+		}
+		if verbose {
+			log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
 		}
-	}
-
-	if dictEnd == dictStart {
-		return nil, fmt.Errorf("Encrypt dictionary end not found")
-	}
-
-	dictContent := pdfStr[dictStart:dictEnd]
-
-	if verbose {
-		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
-	}
-
-	encrypt := &types.PDFEncryption{}
-
-	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
-	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
-		encrypt.Filter = match[1]
-	}
 
-	// Parse /V (encryption version) - must be at top level, not in nested dicts
-	vPattern := regexp.MustCompile(`/V\s+(\d+)`)
-	matches := vPattern.FindAllStringSubmatch(dictContent, -1)
-	// Take the first match that's not inside a nested dictionary structure
-	for _, match := range matches {
-		// Check if it's at top level (simple heuristic: not immediately after /CF or /StdCF)
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// If we see /CF or /StdCF before this, it's nested - skip
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.V, _ = strconv.Atoi(match[1])
-			break
+		// Find the Encrypt object
+		objBody = findDictionary(pdfBytes, encryptObjNum)
+		if objBody == nil {
+			return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
 		}
 	}
 
-	// Parse /R (revision) - must be at top level
-	rPattern := regexp.MustCompile(`/R\s+(\d+)`)
-	matches = rPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.R, _ = strconv.Atoi(match[1])
-			break
-		}
+	entries := dictionaryEntries(objBody)
+	if entries == nil {
+		return nil, fmt.Errorf("Encrypt dictionary start not found")
 	}
 
-	// Parse /Length (key length in bits) - look for top-level /Length
-	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// Top-level /Length should not be inside /CF
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
-			keyBits, _ := strconv.Atoi(match[1])
-			if keyBits > 0 {
-				encrypt.KeyLength = keyBits / 8
-				break
-			}
-		}
+	encrypt := &types.PDFEncryption{
+		Filter: strings.TrimPrefix(string(entries["/Filter"]), "/"),
+	}
+	encrypt.V, _ = strconv.Atoi(string(entries["/V"]))
+	encrypt.R, _ = strconv.Atoi(string(entries["/R"]))
+	if keyBits, _ := strconv.Atoi(string(entries["/Length"])); keyBits > 0 {
+		encrypt.KeyLength = keyBits / 8
 	}
 
 	// Set defaults if not found
@@ -137,152 +57,37 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if encrypt.R == 0 {
 		encrypt.R = 4 // Default revision
 	}
+	if encrypt.V == 1 || encrypt.R == 2 {
+		encrypt.KeyLength = 5 // always 40 bits
+	}
 	if encrypt.KeyLength == 0 {
-		// Default key length based on revision
-		if encrypt.R == 2 {
-			encrypt.KeyLength = 5 // 40 bits
-		} else if encrypt.R >= 5 {
+		switch {
+		case encrypt.R >= 5:
 			encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
-		} else {
+		case encrypt.V == 4:
 			encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
+		default:
+			encrypt.KeyLength = 5 // 40 bits
 		}
 	}
 
-	// Parse /O (owner password hash) - binary data in parentheses or hex string
-	// Try hex format first: /O <hex>
-	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
-	oHexMatch := oHexPattern.FindStringSubmatch(dictContent)
-	if oHexMatch != nil {
-		hexStr := oHexMatch[1]
-		encrypt.O = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted O value (hex): %d bytes", len(encrypt.O))
-		}
-	} else {
-		// Try binary format: /O (binary)
-		oPattern := regexp.MustCompile(`/O\s*\(`)
-		oMatch := oPattern.FindStringIndex(dictContent)
-		if oMatch != nil {
-			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
-			}
-		}
-	}
-
-	// Parse /U (user password hash) - binary data in parentheses or hex string
-	// Try hex format first: /U <hex>
-	uHexPattern := regexp.MustCompile(`/U\s*<([0-9A-Fa-f]+)>`)
-	uHexMatch := uHexPattern.FindStringSubmatch(dictContent)
-	if uHexMatch != nil {
-		hexStr := uHexMatch[1]
-		encrypt.U = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted U value (hex): %d bytes", len(encrypt.U))
-		}
-	} else {
-		// Try binary format: /U (binary)
-		uPattern := regexp.MustCompile(`/U\s*\(`)
-		uMatch := uPattern.FindStringIndex(dictContent)
-		if uMatch != nil {
-			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
-				}
-			}
-		}
-	}
-
-	// Parse /P (permissions)
-	pPattern := regexp.MustCompile(`/P\s+(-?\d+)`)
-	if match := pPattern.FindStringSubmatch(dictContent); match != nil {
-		pVal, _ := strconv.ParseInt(match[1], 10, 32)
-		encrypt.P = int32(pVal)
+	// Password hashes: literal or hexadecimal strings
+	encrypt.O = decodeString(entries["/O"])
+	encrypt.U = decodeString(entries["/U"])
+	if encrypt.R >= 5 {
+		encrypt.UE = decodeString(entries["/UE"])
+		encrypt.OE = decodeString(entries["/OE"])
 	}
 
-	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
-		encrypt.EncryptMetadata = false
-	} else {
-		encrypt.EncryptMetadata = true
-	}
+	// Parse /P (permissions), written as a signed or unsigned 32-bit number
+	pVal, _ := strconv.ParseInt(string(entries["/P"]), 10, 64)
+	encrypt.P = int32(pVal)
 
-	// Parse /UE (encrypted user encryption key) - V5+ only
-	// Format: /UE <hex> or /UE (binary)
-	if encrypt.R >= 5 {
-		ueHexPattern := regexp.MustCompile(`/UE\s*<([0-9A-Fa-f]+)>`)
-		ueHexMatch := ueHexPattern.FindStringSubmatch(dictContent)
-		if ueHexMatch != nil {
-			hexStr := ueHexMatch[1]
-			encrypt.UE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted UE value (hex): %d bytes", len(encrypt.UE))
-			}
-		} else {
-			uePattern := regexp.MustCompile(`/UE\s*\(`)
-			ueMatch := uePattern.FindStringIndex(dictContent)
-			if ueMatch != nil {
-				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
-				}
-			}
-		}
+	encrypt.EncryptMetadata = string(entries["/EncryptMetadata"]) != "false"
 
-		// Parse /OE (encrypted owner encryption key) - V5+ only
-		oeHexPattern := regexp.MustCompile(`/OE\s*<([0-9A-Fa-f]+)>`)
-		oeHexMatch := oeHexPattern.FindStringSubmatch(dictContent)
-		if oeHexMatch != nil {
-			hexStr := oeHexMatch[1]
-			encrypt.OE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted OE value (hex): %d bytes", len(encrypt.OE))
-			}
-		} else {
-			oePattern := regexp.MustCompile(`/OE\s*\(`)
-			oeMatch := oePattern.FindStringIndex(dictContent)
-			if oeMatch != nil {
-				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
-				}
-			}
-		}
+	if verbose {
+		log.Printf("Encrypt dictionary: V=%d R=%d, O %d bytes, U %d bytes, UE %d bytes, OE %d bytes",
+			encrypt.V, encrypt.R, len(encrypt.O), len(encrypt.U), len(encrypt.UE), len(encrypt.OE))
 	}
 
 	return encrypt, nil
-- 
2.43.0


From 5ff52f475803905363d6126a88fb304b50d8cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 21/58] fix: verify the AES-256 owner password against /O

Any password whose garbage unwrapping of /OE ended in a plausible padding byte
was accepted.
---
 core/encrypt/decrypt.go        |  9 +++++----
 core/encrypt/key_derivation.go | 27 +++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..2031d31 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -54,17 +54,18 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				log.Printf("User password U value verification failed, trying owner password...")
 			}
 			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
+			oMatch := false
 			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
+				oMatch, err2 = VerifyOValueV5(password, ownerPasswordKey, encrypt)
+			}
+			if err2 == nil && oMatch {
 				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
 				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
 					// The unwrapped owner key is the user encryption key
 					encryptKey = ownerKey
 					encrypt.EncryptKey = encryptKey
 					if verbose {
-						log.Printf("Owner password verified via /OE unwrapping")
+						log.Printf("Owner password verified")
 						log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
 					}
 					uMatch = true
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 601124c..27a980b 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -574,3 +574,30 @@ func VerifyUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncry
 
 	return match, nil
 }
+
+// VerifyOValueV5 verifies an owner password against the stored O value: validation salt (8) +
+// hash of password, salt and U value, encrypted with the owner key (32) + key salt (8)
+func VerifyOValueV5(ownerPassword []byte, ownerPasswordKey []byte, encrypt *types.PDFEncryption) (bool, error) {
+	if len(encrypt.O) < 48 || len(encrypt.U) < 48 {
+		return false, fmt.Errorf("O or U value too short for V5: %d and %d bytes (expected at least 48)", len(encrypt.O), len(encrypt.U))
+	}
+	if len(ownerPasswordKey) < 16 {
+		return false, fmt.Errorf("owner password key too short: %d bytes (need at least 16 for AES-128)", len(ownerPasswordKey))
+	}
+
+	hash := sha256.New()
+	hash.Write(ownerPassword)
+	hash.Write(encrypt.O[:8])
+	hash.Write(encrypt.U[:48])
+	hashed := hash.Sum(nil)
+
+	block, err := aes.NewCipher(ownerPasswordKey[:16])
+	if err != nil {
+		return false, fmt.Errorf("failed to create AES cipher: %v", err)
+	}
+	encrypted := make([]byte, 32)
+	block.Encrypt(encrypted[:16], hashed[:16])
+	block.Encrypt(encrypted[16:], hashed[16:])
+
+	return bytes.Equal(encrypted, encrypt.O[8:40]), nil
+}
-- 
2.43.0


From 51d90f16bda56fffb8f8f644ff42ea21b258f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 22/58] fix: honour crypt filters (RC4, Identity) and reject
 malformed keys and padding

/CFM /V2 files were decrypted with AES; key lengths above 128 bits, short keys and
bad padding made the decryption code panic or return damaged data.
---
 core/encrypt/decrypt.go        | 24 ++++++++++++++++++++----
 core/encrypt/key_derivation.go |  6 ++++++
 core/encrypt/parser.go         | 16 ++++++++++++++++
 types/types.go                 |  2 ++
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 2031d31..f2ef318 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -204,6 +204,19 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		// Not encrypted
 		return objBytes, nil
 	}
+	return decryptData(objBytes, objNum, genNum, encrypt, encrypt.StreamMethod)
+}
+
+// decryptData decrypts with the given crypt filter method, or the one V implies
+func decryptData(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption, method string) ([]byte, error) {
+	if method == "" {
+		switch encrypt.V {
+		case 1, 2:
+			method = "V2"
+		case 4, 5:
+			method = "AESV2"
+		}
+	}
 
 	// PyPDF line 914: pack1 = struct.pack("<i", idnum)[:3]
 	// struct.pack("<i", idnum) packs as little-endian int32 (4 bytes)
@@ -227,6 +240,9 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	// PyPDF line 918: key = self._key
 	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
 	keyData := make([]byte, n+5)
+	if len(encrypt.EncryptKey) < n {
+		return nil, types.NewPDFErrorf(types.ErrCodeDecryptionFailed, "encryption key too short: %d bytes (need %d)", len(encrypt.EncryptKey), n)
+	}
 	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
 	copy(keyData[n:], pack1)
 	copy(keyData[n+3:], pack2)
@@ -236,7 +252,7 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 	keyHash.Write(keyData)
 
 	// Decrypt based on encryption algorithm
-	if encrypt.V == 1 || encrypt.V == 2 {
+	if method == "V2" {
 		// RC4 encryption
 		// PyPDF line 922: rc4_key = key_hash.digest()[: min(n + 5, 16)]
 		rc4KeyHash := keyHash.Sum(nil)
@@ -249,7 +265,7 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		decrypted := make([]byte, len(objBytes))
 		cipher.XORKeyStream(decrypted, objBytes)
 		return decrypted, nil
-	} else if encrypt.V == 4 || encrypt.V == 5 {
+	} else if method == "AESV2" || method == "AESV3" {
 		// AES encryption (AES-128 or AES-256)
 		// PyPDF line 925: key_hash.update(b"sAlT")
 		// PyPDF line 926: aes128_key = key_hash.digest()[: min(n + 5, 16)]
@@ -294,8 +310,8 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		}
 
 		paddingLen := int(decrypted[len(decrypted)-1])
-		if paddingLen > len(decrypted) {
-			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d > %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
+		if paddingLen == 0 || paddingLen > 16 {
+			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d of %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
 		}
 
 		return decrypted[:len(decrypted)-paddingLen], nil
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 27a980b..f238cae 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -23,6 +23,9 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > 16 {
+		return nil, fmt.Errorf("invalid key length: %d bits", encrypt.KeyLength*8)
+	}
 	// Pad or truncate password to 32 bytes (Algorithm 2, step a)
 	paddedPassword := padPassword(password)
 
@@ -195,6 +198,9 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > 16 {
+		return nil, fmt.Errorf("invalid key length: %d bits", encrypt.KeyLength*8)
+	}
 	// Pad owner password to 32 bytes
 	paddedOwnerPassword := padPassword(ownerPassword)
 
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index d23ec1b..e9efdc8 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -71,6 +71,13 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		}
 	}
 
+	// Crypt filters
+	if encrypt.V == 4 {
+		filters := dictionaryEntries(entries["/CF"])
+		encrypt.StreamMethod = cryptFilterMethod(filters, entries["/StmF"])
+		encrypt.StringMethod = cryptFilterMethod(filters, entries["/StrF"])
+	}
+
 	// Password hashes: literal or hexadecimal strings
 	encrypt.O = decodeString(entries["/O"])
 	encrypt.U = decodeString(entries["/U"])
@@ -92,3 +99,12 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	return encrypt, nil
 }
+
+// cryptFilterMethod returns the method of the named crypt filter, or "" if it is not known
+func cryptFilterMethod(filters map[string][]byte, name []byte) string {
+	if string(name) == "/Identity" {
+		return "None"
+	}
+	filter := dictionaryEntries(filters[string(name)])
+	return strings.TrimPrefix(string(filter["/CFM"]), "/")
+}
diff --git a/types/types.go b/types/types.go
index 433b90f..f0e7a7c 100644
--- a/types/types.go
+++ b/types/types.go
@@ -16,6 +16,8 @@ type PDFEncryption struct {
 	P               int32  // Permissions
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
+	StreamMethod    string // Crypt filter method of streams (/CFM: None, V2, AESV2, AESV3); empty: implied by V
+	StringMethod    string // Crypt filter method of strings
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From a60f759083e0d82fc581f6679b3262de058b1de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 23/58] fix: encrypt and decrypt the strings of objects, not
 whole objects

Dictionaries of encrypted files were decrypted as a whole and came back as
garbage or ciphertext strings; the writer left all strings in the clear. XRef
streams, plain metadata and the encryption dictionary are not encrypted, and only
the stream's own /Length entry is updated.
---
 core/encrypt/dictionary.go | 64 ++++++++++++++++++++++++++++++++++++++
 core/parse/api.go          |  6 +++-
 core/parse/extent.go       |  3 +-
 core/parse/get_object.go   | 45 ++++++++++++++++++++-------
 core/write/writer.go       | 29 +++++++++++++----
 5 files changed, 128 insertions(+), 19 deletions(-)

diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
index 2a32d7a..f4acd4b 100644
--- a/core/encrypt/dictionary.go
+++ b/core/encrypt/dictionary.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // isDelimiter reports whether c ends a PDF name, number or keyword
@@ -159,3 +161,65 @@ func findDictionary(pdfBytes []byte, objNum int) []byte {
 	}
 	return pdfBytes[match[1]:]
 }
+
+// transformStrings returns object content (without stream data) with every string replaced
+// by what f makes of it. Strings are written in hexadecimal form if asHex is set and
+// otherwise keep their form. Strings for which f fails are left alone.
+func transformStrings(content []byte, asHex bool, f func([]byte) ([]byte, error)) []byte {
+	var out []byte
+	for i := 0; i < len(content); {
+		start := skipSpace(content, i)
+		out = append(out, content[i:start]...)
+		if start >= len(content) {
+			break
+		}
+		i = tokenEnd(content, start)
+		if i > len(content) {
+			i = len(content)
+		}
+		token := content[start:i]
+		if token[0] == '(' || token[0] == '<' && !bytes.HasPrefix(token, []byte("<<")) {
+			if s, err := f(decodeString(token)); err == nil {
+				if asHex || token[0] == '<' {
+					token = []byte(fmt.Sprintf("<%X>", s))
+				} else {
+					token = encodeLiteral(s)
+				}
+			}
+		}
+		out = append(out, token...)
+	}
+	return out
+}
+
+// encodeLiteral writes s as a literal string
+func encodeLiteral(s []byte) []byte {
+	out := []byte{'('}
+	for _, c := range s {
+		switch c {
+		case '(', ')', '\\':
+			out = append(out, '\\', c)
+		case '\r':
+			out = append(out, '\\', 'r')
+		default:
+			out = append(out, c)
+		}
+	}
+	return append(out, ')')
+}
+
+// DecryptStrings returns object content (without stream data) with its strings decrypted
+func DecryptStrings(content []byte, objNum, genNum int, encrypt *types.PDFEncryption) []byte {
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
+		return append([]byte{}, content...)
+	}
+	return transformStrings(content, false, func(s []byte) ([]byte, error) {
+		return decryptData(s, objNum, genNum, encrypt, encrypt.StringMethod)
+	})
+}
+
+// EncryptStrings returns object content (without stream data) with its strings replaced by
+// hexadecimal strings holding what encryptData makes of them
+func EncryptStrings(content []byte, encryptData func([]byte) ([]byte, error)) []byte {
+	return transformStrings(content, true, encryptData)
+}
diff --git a/core/parse/api.go b/core/parse/api.go
index e6da8e3..1aefc20 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -295,7 +295,11 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 	}
 
 	// Direct object - get from byte offset
-	return GetDirectObject(p.raw, objNum, ref.Offset, p.encryption, p.opts.Verbose)
+	encryption := p.encryption
+	if p.trailer != nil && isReferenceTo(p.trailer.EncryptRef, objNum) {
+		encryption = nil // the encryption dictionary itself is not encrypted
+	}
+	return GetDirectObject(p.raw, objNum, ref.Offset, encryption, p.opts.Verbose)
 }
 
 // GetRawObject returns a PDFRawObject with full byte preservation.
diff --git a/core/parse/extent.go b/core/parse/extent.go
index 4a28f4a..6bd1f38 100644
--- a/core/parse/extent.go
+++ b/core/parse/extent.go
@@ -14,6 +14,7 @@ type objectExtent struct {
 	end       int // position of "endobj"
 	isStream  bool
 	dictEnd   int // position just after the stream dictionary
+	lengthAt  int // position of the /Length entry, or -1
 	keyword   int // position of "stream"
 	dataStart int
 	dataEnd   int
@@ -89,7 +90,7 @@ func skipLiteralString(b []byte, i int) int {
 // scanStream measures a stream whose keyword is at the given position, trusting /Length when
 // "endstream" follows the data it announces.
 func scanStream(body []byte, keyword, dictEnd, lengthAt int) (objectExtent, bool) {
-	ext := objectExtent{isStream: true, dictEnd: dictEnd, keyword: keyword, dataStart: keyword + len("stream")}
+	ext := objectExtent{isStream: true, dictEnd: dictEnd, lengthAt: lengthAt, keyword: keyword, dataStart: keyword + len("stream")}
 	if ext.dataStart < len(body) && body[ext.dataStart] == '\r' {
 		ext.dataStart++
 	}
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index 3e3a600..869fd21 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"regexp"
 	"strconv"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
@@ -208,9 +209,8 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		content = content[:extent.streamEnd]
 
 		// Decrypt stream data if needed
-		if encryptInfo != nil {
+		if encryptInfo != nil && !isUnencryptedStream(content[:streamStart], encryptInfo) {
 			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
 			streamData := content[extent.dataStart:extent.dataEnd]
 
 			if verbose {
@@ -222,8 +222,17 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
 				}
 				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
+				var tail []byte
+				newLength := ""
+				if extent.lengthAt >= 0 {
+					newLength = fmt.Sprintf("/Length %d", len(decryptedStream))
+					tail = dictPart[extent.lengthAt:]
+					tail = tail[len(lengthEntry.Find(tail)):]
+					dictPart = dictPart[:extent.lengthAt]
+				}
+				dictPart = encrypt.DecryptStrings(dictPart, objNum, genNum, encryptInfo)
+				dictPart = append(dictPart, newLength...)
+				dictPart = append(dictPart, encrypt.DecryptStrings(tail, objNum, genNum, encryptInfo)...)
 
 				// Reconstruct content with updated dictionary and decrypted stream
 				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
@@ -241,13 +250,8 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			}
 		}
 	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
-		}
+		// Not a stream - decrypt the string values
+		content = encrypt.DecryptStrings(content, objNum, genNum, encryptInfo)
 	}
 
 	// Reconstruct full object
@@ -260,3 +264,22 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 	return []byte(result), nil
 }
+
+var (
+	xrefStreamType = regexp.MustCompile(`/Type\s*/XRef\b`)
+	metadataType   = regexp.MustCompile(`/Type\s*/Metadata\b`)
+)
+
+// isUnencryptedStream reports whether the stream with the given dictionary is stored in the
+// clear in an encrypted document
+func isUnencryptedStream(dict []byte, encryptInfo *types.PDFEncryption) bool {
+	return xrefStreamType.Match(dict) ||
+		encryptInfo.V >= 4 && !encryptInfo.EncryptMetadata && metadataType.Match(dict)
+}
+
+// isReferenceTo reports whether ref ("N G R") refers to the given object
+func isReferenceTo(ref string, objNum int) bool {
+	var n int
+	_, err := fmt.Sscanf(strings.TrimSpace(strings.TrimPrefix(ref, "/Encrypt")), "%d", &n)
+	return err == nil && n == objNum
+}
diff --git a/core/write/writer.go b/core/write/writer.go
index c1edfd0..bdf0ba8 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -14,6 +14,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -316,7 +317,7 @@ func (w *PDFWriter) Write(out io.Writer) error {
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
-			if w.encryptInfo != nil {
+			if w.encryptInfo != nil && !w.isPlainMetadata(obj.Dict) {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
 				if err == nil {
 					streamData = encrypted
@@ -325,17 +326,15 @@ func (w *PDFWriter) Write(out io.Writer) error {
 					content = w.formatDictionary(obj.Dict)
 				}
 			}
+			content = w.encryptStrings(content, objNum, obj.Generation)
 
 			buf.Write(content)
 			buf.WriteString("\nstream\n")
 			buf.Write(streamData)
 			buf.WriteString("\nendstream")
 		} else if obj.Content != nil {
-			// Encrypt content if needed (for non-stream objects like strings in dicts)
-			content := obj.Content
-			// Note: For non-stream objects, encryption is more complex
-			// (need to encrypt individual strings, not the whole object)
-			// For simplicity, we skip encryption of non-stream content here
+			// Encrypt the strings of non-stream objects
+			content := w.encryptStrings(obj.Content, objNum, obj.Generation)
 			buf.Write(content)
 		}
 
@@ -486,6 +485,24 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	}
 }
 
+// isPlainMetadata reports whether dict belongs to a metadata stream that must not be encrypted
+func (w *PDFWriter) isPlainMetadata(dict Dictionary) bool {
+	return w.encryptInfo.V >= 4 && !w.encryptInfo.EncryptMetadata &&
+		(dict["Type"] == "/Metadata" || dict["/Type"] == "/Metadata")
+}
+
+// encryptStrings encrypts the strings in a dictionary or other object, except those of the
+// encryption dictionary and of objects given with their stream data
+func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) []byte {
+	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 ||
+		w.encryptRef == fmt.Sprintf("%d %d R", objNum, genNum) || bytes.Contains(content, []byte("endstream")) {
+		return content
+	}
+	return encrypt.EncryptStrings(content, func(s []byte) ([]byte, error) {
+		return w.encryptStream(s, objNum, genNum)
+	})
+}
+
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
 	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
-- 
2.43.0


From f97051309b4519b2507973665160a7f9a8e21f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 24/58] fix: write RC4-encrypted streams and report encryption
 failures

Documents with V1 or V2 encryption were written in the clear, as were streams
whose encryption failed.
---
 core/write/writer.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index bdf0ba8..2354e9d 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -8,6 +8,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/rand"
+	"crypto/rc4"
 	"fmt"
 	"io"
 	"sort"
@@ -319,12 +320,13 @@ func (w *PDFWriter) Write(out io.Writer) error {
 			streamData := obj.Stream
 			if w.encryptInfo != nil && !w.isPlainMetadata(obj.Dict) {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
 				}
+				streamData = encrypted
+				// Update length in dictionary
+				obj.Dict["Length"] = len(streamData)
+				content = w.formatDictionary(obj.Dict)
 			}
 			content = w.encryptStrings(content, objNum, obj.Generation)
 
@@ -514,9 +516,12 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
 
 	n := w.encryptInfo.KeyLength
-	if n == 0 {
+	if n == 0 || w.encryptInfo.V == 1 {
 		n = 5
 	}
+	if len(w.encryptInfo.EncryptKey) < n {
+		return nil, fmt.Errorf("encryption key too short: %d bytes (need %d)", len(w.encryptInfo.EncryptKey), n)
+	}
 
 	keyData := make([]byte, n+5)
 	copy(keyData, w.encryptInfo.EncryptKey[:n])
@@ -566,8 +571,13 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
+	rc4Cipher, err := rc4.NewCipher(keyHash.Sum(nil)[:min(n+5, 16)])
+	if err != nil {
+		return nil, err
+	}
+	encrypted := make([]byte, len(data))
+	rc4Cipher.XORKeyStream(encrypted, data)
+	return encrypted, nil
 }
 
 // Bytes returns the complete PDF as a byte slice
-- 
2.43.0


From 34176a97dc7785621775e34706707431a179d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 25/58] fix: look up byte-perfect documents' objects through
 the cross-reference sections; keep generations of xref streams

---
 core/parse/api.go             | 6 ++++++
 core/parse/document_parser.go | 7 ++++---
 core/parse/object_stream.go   | 6 ++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 1aefc20..1d2c809 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -143,6 +143,12 @@ func (p *PDF) parseBytePerfect() error {
 	}
 	p.doc = doc
 
+	// Objects are looked up as in standard mode: through the merged cross-reference sections, which
+	// also know deleted objects and objects in object streams
+	if err := p.parseStandard(); err == nil {
+		return nil
+	}
+
 	// Build unified xref from document revisions
 	for _, rev := range doc.Revisions {
 		for objNum, obj := range rev.Objects {
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index fabdda6..83f4e24 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -310,9 +310,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Convert to XRefEntry format
 	for objNum, offset := range result.Objects {
 		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum: objNum,
-			Offset:    offset,
-			InUse:     true,
+			ObjectNum:  objNum,
+			Generation: result.Generations[objNum],
+			Offset:     offset,
+			InUse:      true,
 		})
 	}
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2f77db2..ac82886 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -24,6 +24,8 @@ type ObjectStreamEntry struct {
 type XRefResult struct {
 	// Regular objects (Type 1): objNum -> byte offset
 	Objects map[int]int64
+	// Generations of the regular objects that have one other than 0
+	Generations map[int]int
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
 	// Free objects (Type 0)
@@ -34,6 +36,7 @@ type XRefResult struct {
 func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefResult, error) {
 	result := &XRefResult{
 		Objects:       make(map[int]int64),
+		Generations:   make(map[int]int),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
 	}
 
@@ -267,6 +270,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 				// field2 = byte offset, field3 = generation
 				if field2 > 0 {
 					result.Objects[objNum] = field2
+					if field3 != 0 {
+						result.Generations[objNum] = int(field3)
+					}
 				}
 			case 2:
 				// Type 2: compressed object in object stream
-- 
2.43.0


From 09891c35da243a20dcf4bfbbfc6471b0f8e9728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 26/58] fix: encrypt strings and raw stream data of objects
 whose text mentions endstream

---
 core/encrypt/dictionary.go | 34 ++++++++++++++++++++++++++++++--
 core/encrypt/parser.go     |  6 +++---
 core/write/writer.go       | 40 ++++++++++++++++++++++++++++++++++----
 3 files changed, 71 insertions(+), 9 deletions(-)

diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
index f4acd4b..027193d 100644
--- a/core/encrypt/dictionary.go
+++ b/core/encrypt/dictionary.go
@@ -117,9 +117,9 @@ func decodeString(token []byte) []byte {
 	return out
 }
 
-// dictionaryEntries returns the top-level entries of the dictionary at the start of b, each
+// DictionaryEntries returns the top-level entries of the dictionary at the start of b, each
 // value being the text of its first token or of the whole nested dictionary or array.
-func dictionaryEntries(b []byte) map[string][]byte {
+func DictionaryEntries(b []byte) map[string][]byte {
 	i := skipSpace(b, 0)
 	if !bytes.HasPrefix(b[i:], []byte("<<")) {
 		return nil
@@ -152,6 +152,36 @@ func dictionaryEntries(b []byte) map[string][]byte {
 	return entries
 }
 
+// SetLength returns the dictionary with its /Length entry set to length
+func SetLength(dict []byte, length int) []byte {
+	depth, isKey := 0, true
+	start := skipSpace(dict, 0)
+	for i := start; i < len(dict); {
+		end := tokenEnd(dict, i)
+		token := string(dict[i:end])
+		i = skipSpace(dict, end)
+		switch {
+		case token == "<<" || token == "[":
+			depth++
+		case token == ">>" || token == "]":
+			depth--
+			isKey = true
+		case depth == 1 && isKey && token[0] == '/':
+			isKey = false
+			if token == "/Length" {
+				// the value ends at the next key or at the end of the dictionary
+				for end = i; end < len(dict) && dict[end] != '/' && dict[end] != '>'; {
+					end = skipSpace(dict, tokenEnd(dict, end))
+				}
+				return []byte(fmt.Sprintf("%s%d %s", dict[:i], length, dict[end:]))
+			}
+		case depth == 1:
+			isKey = true
+		}
+	}
+	return []byte(fmt.Sprintf("<</Length %d %s", length, dict[min(start+2, len(dict)):]))
+}
+
 // findDictionary returns the bytes from the dictionary of the given object on
 func findDictionary(pdfBytes []byte, objNum int) []byte {
 	header := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%d\s+\d+\s+obj`, objNum))
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index e9efdc8..1a86790 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -36,7 +36,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		}
 	}
 
-	entries := dictionaryEntries(objBody)
+	entries := DictionaryEntries(objBody)
 	if entries == nil {
 		return nil, fmt.Errorf("Encrypt dictionary start not found")
 	}
@@ -73,7 +73,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	// Crypt filters
 	if encrypt.V == 4 {
-		filters := dictionaryEntries(entries["/CF"])
+		filters := DictionaryEntries(entries["/CF"])
 		encrypt.StreamMethod = cryptFilterMethod(filters, entries["/StmF"])
 		encrypt.StringMethod = cryptFilterMethod(filters, entries["/StrF"])
 	}
@@ -105,6 +105,6 @@ func cryptFilterMethod(filters map[string][]byte, name []byte) string {
 	if string(name) == "/Identity" {
 		return "None"
 	}
-	filter := dictionaryEntries(filters[string(name)])
+	filter := DictionaryEntries(filters[string(name)])
 	return strings.TrimPrefix(string(filter["/CFM"]), "/")
 }
diff --git a/core/write/writer.go b/core/write/writer.go
index 2354e9d..d32395a 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -335,8 +336,10 @@ func (w *PDFWriter) Write(out io.Writer) error {
 			buf.Write(streamData)
 			buf.WriteString("\nendstream")
 		} else if obj.Content != nil {
-			// Encrypt the strings of non-stream objects
-			content := w.encryptStrings(obj.Content, objNum, obj.Generation)
+			content, err := w.encryptContent(obj.Content, objNum, obj.Generation)
+			if err != nil {
+				return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
+			}
 			buf.Write(content)
 		}
 
@@ -494,10 +497,10 @@ func (w *PDFWriter) isPlainMetadata(dict Dictionary) bool {
 }
 
 // encryptStrings encrypts the strings in a dictionary or other object, except those of the
-// encryption dictionary and of objects given with their stream data
+// encryption dictionary
 func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) []byte {
 	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 ||
-		w.encryptRef == fmt.Sprintf("%d %d R", objNum, genNum) || bytes.Contains(content, []byte("endstream")) {
+		w.encryptRef == fmt.Sprintf("%d %d R", objNum, genNum) {
 		return content
 	}
 	return encrypt.EncryptStrings(content, func(s []byte) ([]byte, error) {
@@ -505,6 +508,35 @@ func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) []byte {
 	})
 }
 
+// encryptContent encrypts the raw content of an object: its strings and, if it has stream data,
+// that data
+func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte, error) {
+	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
+		return content, nil
+	}
+	if bytes.Contains(content, []byte("endstream")) {
+		object := []byte(fmt.Sprintf("%d %d obj\n%s\nendobj", objNum, genNum, content))
+		raw, err := parse.ParseRawObject(object, objNum, genNum, 0)
+		if err == nil && raw.IsStream {
+			data := raw.StreamRaw
+			if entries := encrypt.DictionaryEntries(raw.DictRaw); w.encryptInfo.V < 4 || w.encryptInfo.EncryptMetadata ||
+				string(entries["/Type"]) != "/Metadata" {
+				if data, err = w.encryptStream(data, objNum, genNum); err != nil {
+					return nil, err
+				}
+			}
+			dict := encrypt.SetLength(raw.DictRaw, len(data))
+			var buf bytes.Buffer
+			buf.Write(w.encryptStrings(dict, objNum, genNum))
+			buf.WriteString("\nstream\n")
+			buf.Write(data)
+			buf.WriteString("\nendstream")
+			return buf.Bytes(), nil
+		}
+	}
+	return w.encryptStrings(content, objNum, genNum), nil
+}
+
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
 	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
-- 
2.43.0


From 6903a5c43bed87a09ac24ebd82893de6b325a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:54 +0000
Subject: [PATCH 27/58] fix: read dictionary entries and text strings by their
 tokens when extracting content

---
 content/extract/annotations.go  | 61 +++++++++-----------
 content/extract/bookmarks.go    | 20 +------
 content/extract/dict_helpers.go | 82 +++++++++++++++------------
 content/extract/metadata.go     | 99 ++++++++++++---------------------
 content/extract/pages.go        | 41 ++------------
 content/extract/resources.go    |  6 --
 core/encrypt/dictionary.go      |  6 +-
 core/encrypt/key_derivation.go  |  2 +-
 core/encrypt/parser.go          |  8 +--
 9 files changed, 124 insertions(+), 201 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..b09f5e3 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -116,23 +116,13 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Contents (annotation text/contents)
-	contents := extractDictValue(annotStr, "/Contents")
-	if contents != "" {
-		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
-	}
+	annotation.Contents = extractTextValue(annotStr, "/Contents")
 
 	// Extract Title
-	title := extractDictValue(annotStr, "/T")
-	if title != "" {
-		annotation.Title = unescapePDFString(title)
-	}
+	annotation.Title = extractTextValue(annotStr, "/T")
 
 	// Extract Subject
-	subject := extractDictValue(annotStr, "/Subj")
-	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
-	}
+	annotation.Subject = extractTextValue(annotStr, "/Subj")
 
 	// Extract Color
 	color := extractArrayValue(annotStr, "/C")
@@ -170,28 +160,8 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// Check for URI
-		uriRef := extractDictValue(annotStr, "/URI")
-		if uriRef != "" {
-			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
-				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
-			} else {
-				// It's a reference - get the URI object
-				uriObjNum, err := parseObjectRef(uriRef)
-				if err == nil {
-					uriObj, err := pdf.GetObject(uriObjNum)
-					if err == nil {
-						uriStr := string(uriObj)
-						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
-						}
-					}
-				}
-			}
-		}
+		// Check for URI: in the annotation, or in its action (a dictionary or a reference to one)
+		annotation.URI = extractURI(annotStr, pdf)
 
 		// Check for Destination (named destination or array)
 		dest := extractDictValue(annotStr, "/Dest")
@@ -235,3 +205,24 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 
 	return annotation
 }
+
+// extractURI returns the URI of an annotation or outline item: its own /URI entry or that of its
+// action, which is a dictionary or a reference to one
+func extractURI(itemStr string, pdf *parse.PDF) string {
+	if uri := extractTextValue(itemStr, "/URI"); uri != "" {
+		return uri
+	}
+	actionStr := extractInlineDict(itemStr, "/A")
+	if actionStr == "" {
+		actionObjNum, err := parseObjectRef(extractDictValue(itemStr, "/A"))
+		if err != nil {
+			return ""
+		}
+		actionObj, err := pdf.GetObject(actionObjNum)
+		if err != nil {
+			return ""
+		}
+		actionStr = string(actionObj)
+	}
+	return extractTextValue(actionStr, "/URI")
+}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..0cb6320 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -71,29 +71,13 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	itemStr := string(itemObj)
 
 	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+	title := extractTextValue(itemStr, "/Title")
 
 	// Extract destination or action
 	dest := extractDictValue(itemStr, "/Dest")
 	uri := ""
 	if dest == "" {
-		// Check for action with URI
-		actionRef := extractDictValue(itemStr, "/A")
-		if actionRef != "" {
-			actionObjNum, err := parseObjectRef(actionRef)
-			if err == nil {
-				actionObj, err := pdf.GetObject(actionObjNum)
-				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
-				}
-			}
-		}
+		uri = extractURI(itemStr, pdf)
 	}
 
 	bookmark := types.Bookmark{
diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index 2467c6e..f893527 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -1,48 +1,60 @@
 package extract
 
-import "strings"
+import (
+	"strings"
+	"unicode/utf16"
 
-// extractInlineDict extracts an inline dictionary value from a PDF dictionary string
-// For example, from "/Resources<<...>>", extracts the "<<...>>" part
-func extractInlineDict(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+)
 
-	// Find the dictionary after the key
-	dictStart := keyIdx + len(key)
-	for dictStart < len(dictStr) && (dictStr[dictStart] == ' ' || dictStr[dictStart] == '\n' || dictStr[dictStart] == '\r') {
-		dictStart++
+// dictEntries returns the top-level entries of the dictionary in an object's text. The text
+// may also be the inside of a dictionary, without its << and >>.
+func dictEntries(dictStr string) map[string][]byte {
+	trimmed := strings.TrimLeft(dictStr, " \t\r\n\f\x00")
+	if strings.HasPrefix(trimmed, "/") {
+		return encrypt.DictionaryEntries([]byte("<<" + trimmed + ">>"))
 	}
+	start := strings.Index(trimmed, "<<")
+	if start == -1 {
+		return nil
+	}
+	return encrypt.DictionaryEntries([]byte(trimmed[start:]))
+}
 
-	// Check if it's a dictionary <<...>>
-	if dictStart+1 >= len(dictStr) || dictStr[dictStart] != '<' || dictStr[dictStart+1] != '<' {
+// extractDictValue returns the value of a dictionary entry: the object number of a reference,
+// the text of a number, name, string or array, or "" if the entry is missing or is itself a
+// dictionary.
+func extractDictValue(dictStr, key string) string {
+	value := string(dictEntries(dictStr)[key])
+	if strings.HasPrefix(value, "<<") || value == "null" {
 		return ""
 	}
+	return value
+}
 
-	// Find matching >>
-	dictEnd := dictStart + 2
-	depth := 1
-	for dictEnd+1 < len(dictStr) && depth > 0 {
-		if dictStr[dictEnd] == '>' && dictStr[dictEnd+1] == '>' {
-			depth--
-			if depth == 0 {
-				// Return the dictionary content (without << >>)
-				return dictStr[dictStart+2 : dictEnd]
-			}
-			dictEnd += 2
-		} else if dictEnd+1 < len(dictStr) && dictStr[dictEnd] == '<' && dictStr[dictEnd+1] == '<' {
-			depth++
-			dictEnd += 2
-		} else {
-			dictEnd++
-		}
-	}
+// extractTextValue returns the text of a dictionary entry that is a text string
+func extractTextValue(dictStr, key string) string {
+	return decodeTextString(encrypt.DecodeString(dictEntries(dictStr)[key]))
+}
 
-	if depth == 0 {
-		return dictStr[dictStart+2 : dictEnd]
+// extractInlineDict extracts an inline dictionary value from a PDF dictionary string
+// For example, from "/Resources<<...>>", extracts the "..." part
+func extractInlineDict(dictStr, key string) string {
+	value := string(dictEntries(dictStr)[key])
+	if !strings.HasPrefix(value, "<<") {
+		return ""
 	}
+	return strings.TrimSuffix(value[2:], ">>")
+}
 
-	return ""
+// decodeTextString decodes a text string: UTF-16BE if it starts with a byte order mark, else as it is
+func decodeTextString(text []byte) string {
+	if len(text) < 2 || text[0] != 0xFE || text[1] != 0xFF {
+		return string(text)
+	}
+	var units []uint16
+	for i := 2; i+1 < len(text); i += 2 {
+		units = append(units, uint16(text[i])<<8|uint16(text[i+1]))
+	}
+	return string(utf16.Decode(units))
 }
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..9446f17 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -2,11 +2,11 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 	"time"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -56,68 +56,48 @@ func parseObjectRef(ref string) (int, error) {
 
 // parseInfoDict parses a PDF Info dictionary
 func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
-	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
 	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
+		"/Title":        &metadata.Title,
+		"/Author":       &metadata.Author,
+		"/Subject":      &metadata.Subject,
+		"/Keywords":     &metadata.Keywords,
+		"/Creator":      &metadata.Creator,
+		"/Producer":     &metadata.Producer,
+		"/CreationDate": &metadata.CreationDate,
+		"/ModDate":      &metadata.ModDate,
 	}
 
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
+	for key, token := range dictEntries(infoStr) {
+		if token[0] != '(' && (token[0] != '<' || len(token) > 1 && token[1] == '<') {
+			continue // not a string
 		}
+		value := decodeTextString(encrypt.DecodeString(token))
+		if fieldPtr, ok := fieldMap[key]; ok {
+			*fieldPtr = value
+			continue
+		}
+		// Custom field (any field that's not a standard field)
+		if metadata.Custom == nil {
+			metadata.Custom = make(map[string]string)
+		}
+		metadata.Custom[decodeName(key)] = value
 	}
+}
 
-	// Extract custom fields (any field that's not a standard field)
-	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
-	standardFields := map[string]bool{
-		"Title":        true,
-		"Author":       true,
-		"Subject":      true,
-		"Keywords":     true,
-		"Creator":      true,
-		"Producer":     true,
-		"CreationDate": true,
-		"ModDate":      true,
-	}
-
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
-
-			// Skip if it's a standard field (already extracted)
-			if !standardFields[fieldName] {
-				if metadata.Custom == nil {
-					metadata.Custom = make(map[string]string)
-				}
-				metadata.Custom[fieldName] = fieldValue
+// decodeName returns the text of a name without its slash, with #xx escapes decoded
+func decodeName(name string) string {
+	var text []byte
+	for i := 1; i < len(name); i++ {
+		if name[i] == '#' && i+2 < len(name) {
+			if c, err := strconv.ParseUint(name[i+1:i+3], 16, 8); err == nil {
+				text = append(text, byte(c))
+				i += 2
+				continue
 			}
 		}
+		text = append(text, name[i])
 	}
+	return string(text)
 }
 
 // extractMetadataFromBytes extracts metadata by searching PDF bytes
@@ -126,16 +106,9 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 	// In practice, Info dict parsing should work
 }
 
-// unescapePDFString unescapes a PDF string literal
+// unescapePDFString unescapes the inside of a PDF string literal
 func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
+	return string(encrypt.DecodeString([]byte("(" + s + ")")))
 }
 
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..068644a 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -119,11 +119,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		return result, nil
 	}
 
-	// Parse Kids array (e.g., "[5 0 R 6 0 R 7 0 R]" or "5 0 R 6 0 R")
-	// If kidsStr already starts with [, use it as-is, otherwise wrap it
-	if !strings.HasPrefix(kidsStr, "[") {
-		kidsStr = "[" + kidsStr + "]"
-	}
+	// Parse Kids array (e.g., "[5 0 R 6 0 R 7 0 R]")
 	kids := parseObjectRefArray(kidsStr)
 	for _, kidRef := range kids {
 		kidObjNum, err := parseObjectRef(kidRef)
@@ -311,42 +307,15 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 
 // Helper functions for parsing PDF dictionaries and arrays
 
-func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
-	}
-
-	return ""
-}
-
 func extractArrayValue(dictStr, key string) []float64 {
-	// Find the array after the key (e.g., "/MediaBox [0 0 612 792]")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[\s*([^\]]+)\]`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if match == nil || len(match) < 2 {
+	// Take the array from its entry (e.g., "/MediaBox [0 0 612 792]")
+	array := extractDictValue(dictStr, key)
+	if !strings.HasPrefix(array, "[") {
 		return nil
 	}
 
 	// Parse numbers from array
-	parts := strings.Fields(match[1])
+	parts := strings.Fields(strings.Trim(array, "[]"))
 	var values []float64
 	for _, part := range parts {
 		if val, err := strconv.ParseFloat(part, 64); err == nil {
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..0e08833 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -148,9 +148,6 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 	// Extract Subtype (Type1, TrueType, Type0, etc.)
 	// Try both /Subtype and Subtype (with and without leading /)
 	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "" {
-		subtype = extractDictValue(fontStr, "Subtype")
-	}
 	if subtype != "" {
 		fontInfo.Subtype = subtype
 		// Ensure it starts with /
@@ -163,9 +160,6 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 
 	// Extract BaseFont
 	baseFont := extractDictValue(fontStr, "/BaseFont")
-	if baseFont == "" {
-		baseFont = extractDictValue(fontStr, "BaseFont")
-	}
 	if baseFont != "" {
 		fontInfo.Name = baseFont
 		// Remove leading / if present for family extraction
diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
index 027193d..8ca0ed0 100644
--- a/core/encrypt/dictionary.go
+++ b/core/encrypt/dictionary.go
@@ -62,8 +62,8 @@ func tokenEnd(b []byte, i int) int {
 	return i
 }
 
-// decodeString returns the bytes denoted by a literal or hexadecimal string token
-func decodeString(token []byte) []byte {
+// DecodeString returns the bytes denoted by a literal or hexadecimal string token
+func DecodeString(token []byte) []byte {
 	if len(token) < 2 || token[0] != '(' && token[0] != '<' {
 		return nil
 	}
@@ -209,7 +209,7 @@ func transformStrings(content []byte, asHex bool, f func([]byte) ([]byte, error)
 		}
 		token := content[start:i]
 		if token[0] == '(' || token[0] == '<' && !bytes.HasPrefix(token, []byte("<<")) {
-			if s, err := f(decodeString(token)); err == nil {
+			if s, err := f(DecodeString(token)); err == nil {
 				if asHex || token[0] == '<' {
 					token = []byte(fmt.Sprintf("<%X>", s))
 				} else {
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index f238cae..6b2957e 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -305,7 +305,7 @@ func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
 	if match != nil {
 		// Find the first binary string in parentheses
 		idStart := match[1] - 1 // Position of '('
-		fileID := decodeString(pdfBytes[idStart:tokenEnd(pdfBytes, idStart)])
+		fileID := DecodeString(pdfBytes[idStart:tokenEnd(pdfBytes, idStart)])
 		if verbose {
 			log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
 		}
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 1a86790..e8674c6 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -79,11 +79,11 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	}
 
 	// Password hashes: literal or hexadecimal strings
-	encrypt.O = decodeString(entries["/O"])
-	encrypt.U = decodeString(entries["/U"])
+	encrypt.O = DecodeString(entries["/O"])
+	encrypt.U = DecodeString(entries["/U"])
 	if encrypt.R >= 5 {
-		encrypt.UE = decodeString(entries["/UE"])
-		encrypt.OE = decodeString(entries["/OE"])
+		encrypt.UE = DecodeString(entries["/UE"])
+		encrypt.OE = DecodeString(entries["/OE"])
 	}
 
 	// Parse /P (permissions), written as a signed or unsigned 32-bit number
-- 
2.43.0


From d8e990fa4f2c46ae053a7176e459175d675977e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 28/58] fix: extract page content operation by operation
 instead of line by line

---
 content/extract/content_stream.go | 502 +++++++++++++++++-------------
 content/extract/pages.go          |  66 +---
 content/extract/resources.go      |  48 +--
 3 files changed, 302 insertions(+), 314 deletions(-)

diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..528772b 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -1,7 +1,6 @@
 package extract
 
 import (
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -23,15 +22,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 
 	// Parse text state
 	textState := &textState{
-		fontName:    "",
-		fontSize:    0,
-		x:           0,
-		y:           0,
-		charSpacing: 0,
-		wordSpacing: 0,
-		textRise:    0,
-		textMatrix:  [6]float64{1, 0, 0, 1, 0, 0},
-		inText:      false,
+		textMatrix: [6]float64{1, 0, 0, 1, 0, 0},
 	}
 
 	// Parse graphics state
@@ -44,257 +35,185 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 	// Track current transformation matrix (for images)
 	// Default is identity matrix [1 0 0 1 0 0]
 	currentMatrix := [6]float64{1, 0, 0, 1, 0, 0}
-	matrixStack := [][6]float64{} // Stack for q/Q operators
 
-	// Split content stream into tokens
-	lines := strings.Split(contentStr, "\n")
-	for _, line := range lines {
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
+	// Stack for q/Q operators
+	var stateStack []savedState
+
+	showText := func(text string) {
+		textElements = append(textElements, createTextElement(text, textState))
+	}
 
-		// Parse text operators
-		if strings.HasPrefix(line, "BT") {
+	for _, op := range splitOperations(contentStr) {
+		n := op.numbers()
+		switch op.operator {
+		// Text objects
+		case "BT":
 			textState.inText = true
-			continue
-		}
-		if strings.HasPrefix(line, "ET") {
+			textState.setMatrix([6]float64{1, 0, 0, 1, 0, 0})
+		case "ET":
 			textState.inText = false
-			continue
-		}
 
 		// Text positioning
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+Td`).FindStringSubmatch(line); match != nil {
-			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
-					textState.x += tx
-					textState.y += ty
-				}
+		case "Td":
+			if len(n) == 2 {
+				textState.move(n[0], n[1])
+			}
+		case "TD":
+			if len(n) == 2 {
+				textState.leading = -n[1]
+				textState.move(n[0], n[1])
+			}
+		case "T*":
+			textState.move(0, -textState.leading)
+		case "TL":
+			if len(n) == 1 {
+				textState.leading = n[0]
 			}
-			continue
-		}
 
 		// Text matrix
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+Tm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
+		case "Tm":
+			if len(n) == 6 {
+				textState.setMatrix([6]float64{n[0], n[1], n[2], n[3], n[4], n[5]})
 			}
-			textState.textMatrix = matrix
-			textState.x = matrix[4]
-			textState.y = matrix[5]
-			continue
-		}
 
 		// Font and size
-		if match := regexp.MustCompile(`^([/\w]+)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
-			textState.fontName = match[1]
-			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
-				textState.fontSize = size
-			}
-			// Set font decoder if available
-			if fontDecoders != nil {
-				textState.decoder = fontDecoders[textState.fontName]
+		case "Tf":
+			if len(op.operands) == 2 && len(n) == 1 {
+				textState.fontName = op.operands[0]
+				textState.fontSize = n[0]
+				// Set font decoder if available
+				if fontDecoders != nil {
+					textState.decoder = fontDecoders[textState.fontName]
+				}
 			}
-			continue
-		}
 
-		// Character spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tc`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.charSpacing = val
+		// Character spacing, word spacing and text rise
+		case "Tc":
+			if len(n) == 1 {
+				textState.charSpacing = n[0]
 			}
-			continue
-		}
-
-		// Word spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tw`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.wordSpacing = val
+		case "Tw":
+			if len(n) == 1 {
+				textState.wordSpacing = n[0]
 			}
-			continue
-		}
-
-		// Text rise
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Ts`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.textRise = val
+		case "Ts":
+			if len(n) == 1 {
+				textState.textRise = n[0]
 			}
-			continue
-		}
-
-		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Literal string
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Hex string
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-
-		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			// Move to next line (simplified - would need leading)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+'`).FindStringSubmatch(line); match != nil {
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
 
-		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
-			text := parseTextArrayWithDecoder(match[1], textState.decoder)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
+		// Show text: literal or hex string
+		case "Tj":
+			if len(op.operands) == 1 {
+				showText(parseTextArrayWithDecoder(op.operands[0], textState.decoder))
+			}
+		// Show text on the next line
+		case "'":
+			if len(op.operands) == 1 {
+				textState.move(0, -textState.leading)
+				showText(parseTextArrayWithDecoder(op.operands[0], textState.decoder))
+			}
+		case "\"":
+			if len(op.operands) == 3 && len(n) == 2 {
+				textState.wordSpacing = n[0]
+				textState.charSpacing = n[1]
+				textState.move(0, -textState.leading)
+				showText(parseTextArrayWithDecoder(op.operands[2], textState.decoder))
+			}
+		// Show text array
+		case "TJ":
+			if len(op.operands) == 1 {
+				showText(parseTextArrayWithDecoder(op.operands[0], textState.decoder))
+			}
 
 		// Graphics operations
 		// Rectangle (re operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+re`).FindStringSubmatch(line); match != nil {
-			if x, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if y, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if w, err := strconv.ParseFloat(match[3], 64); err == nil {
-						if h, err := strconv.ParseFloat(match[4], 64); err == nil {
-							graphic := types.Graphic{
-								Type:        types.GraphicTypeRectangle,
-								FillColor:   graphicsState.fillColor,
-								StrokeColor: graphicsState.strokeColor,
-								LineWidth:   graphicsState.lineWidth,
-								BoundingBox: &types.Rectangle{
-									LowerX: x,
-									LowerY: y,
-									UpperX: x + w,
-									UpperY: y + h,
-								},
-							}
-							graphics = append(graphics, graphic)
-						}
-					}
+		case "re":
+			if len(n) == 4 {
+				x, y, w, h := n[0], n[1], n[2], n[3]
+				graphic := types.Graphic{
+					Type:        types.GraphicTypeRectangle,
+					FillColor:   graphicsState.fillColor,
+					StrokeColor: graphicsState.strokeColor,
+					LineWidth:   graphicsState.lineWidth,
+					BoundingBox: &types.Rectangle{
+						LowerX: x,
+						LowerY: y,
+						UpperX: x + w,
+						UpperY: y + h,
+					},
 				}
+				graphics = append(graphics, graphic)
 			}
-			continue
-		}
-
-		// Move to (m operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+m`).FindStringSubmatch(line); match != nil {
-			// Start of a path - we'll track this for line/path extraction
-			// For now, just note it
-			continue
-		}
 
 		// Line to (l operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+l`).FindStringSubmatch(line); match != nil {
+		case "l":
 			// Simplified - would need to track path start
 			// For now, just note that a line was drawn
-			graphic := types.Graphic{
-				Type:        types.GraphicTypeLine,
-				StrokeColor: graphicsState.strokeColor,
-				LineWidth:   graphicsState.lineWidth,
+			if len(n) == 2 {
+				graphic := types.Graphic{
+					Type:        types.GraphicTypeLine,
+					StrokeColor: graphicsState.strokeColor,
+					LineWidth:   graphicsState.lineWidth,
+				}
+				graphics = append(graphics, graphic)
 			}
-			graphics = append(graphics, graphic)
-			continue
-		}
 
-		// Stroke (S operator)
-		if strings.HasPrefix(line, "S") {
-			// Stroke the current path
-			continue
-		}
+		// Save graphics state (q operator)
+		case "q":
+			stateStack = append(stateStack, savedState{currentMatrix, *graphicsState, textState.textStateParams})
 
-		// Fill (f operator)
-		if strings.HasPrefix(line, "f") {
-			// Fill the current path
-			continue
-		}
-
-		// Save graphics state (q operator) - push current matrix to stack
-		if strings.TrimSpace(line) == "q" {
-			matrixStack = append(matrixStack, currentMatrix)
-			continue
-		}
-
-		// Restore graphics state (Q operator) - pop matrix from stack
-		if strings.TrimSpace(line) == "Q" {
-			if len(matrixStack) > 0 {
-				currentMatrix = matrixStack[len(matrixStack)-1]
-				matrixStack = matrixStack[:len(matrixStack)-1]
+		// Restore graphics state (Q operator)
+		case "Q":
+			if len(stateStack) > 0 {
+				saved := stateStack[len(stateStack)-1]
+				stateStack = stateStack[:len(stateStack)-1]
+				currentMatrix, *graphicsState, textState.textStateParams = saved.matrix, saved.graphics, saved.text
 			}
-			continue
-		}
 
-		// Set transformation matrix (cm operator)
+		// Concatenate to the transformation matrix (cm operator)
 		// Format: a b c d e f cm
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+cm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
+		case "cm":
+			if len(n) == 6 {
+				m := currentMatrix
+				currentMatrix = [6]float64{
+					n[0]*m[0] + n[1]*m[2], n[0]*m[1] + n[1]*m[3],
+					n[2]*m[0] + n[3]*m[2], n[2]*m[1] + n[3]*m[3],
+					n[4]*m[0] + n[5]*m[2] + m[4], n[4]*m[1] + n[5]*m[3] + m[5],
 				}
 			}
-			// Multiply with current matrix (concatenate transformations)
-			// For simplicity, we'll just replace (assuming q/Q handles stacking)
-			// In full implementation, should multiply: newMatrix = currentMatrix * matrix
-			// For now, replace since DrawImageAt uses q/cm/Do/Q pattern
-			currentMatrix = matrix
-			continue
-		}
 
 		// Set line width (w operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+w`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				graphicsState.lineWidth = val
+		case "w":
+			if len(n) == 1 {
+				graphicsState.lineWidth = n[0]
 			}
-			continue
-		}
 
-		// Set fill color RGB (rg operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+rg`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.fillColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
+		// Set fill color (rg and g operators)
+		case "rg":
+			if len(n) == 3 {
+				graphicsState.fillColor = &types.Color{R: n[0], G: n[1], B: n[2]}
+			}
+		case "g":
+			if len(n) == 1 {
+				graphicsState.fillColor = &types.Color{R: n[0], G: n[0], B: n[0]}
 			}
-			continue
-		}
 
-		// Set stroke color RGB (RG operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+RG`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.strokeColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
+		// Set stroke color (RG and G operators)
+		case "RG":
+			if len(n) == 3 {
+				graphicsState.strokeColor = &types.Color{R: n[0], G: n[1], B: n[2]}
+			}
+		case "G":
+			if len(n) == 1 {
+				graphicsState.strokeColor = &types.Color{R: n[0], G: n[0], B: n[0]}
 			}
-			continue
-		}
 
 		// Draw image (Do operator)
 		// Extract position and size from current transformation matrix
-		if match := regexp.MustCompile(`^([/\w]+)\s+Do`).FindStringSubmatch(line); match != nil {
+		case "Do":
+			if len(op.operands) != 1 {
+				continue
+			}
 			// Transformation matrix [a b c d e f] where:
 			// - a, d are scale factors (width, height)
 			// - e, f are translation (x, y position)
@@ -313,7 +232,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 			}
 
 			imageRef := types.ImageRef{
-				ImageID:   match[1],
+				ImageID:   op.operands[0],
 				X:         x,
 				Y:         y,
 				Width:     width,
@@ -321,27 +240,154 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 				Transform: currentMatrix,
 			}
 			imageRefs = append(imageRefs, imageRef)
-			continue
 		}
 	}
 
 	return textElements, graphics, imageRefs
 }
 
+// operation is one operator of a content stream with its operands
+type operation struct {
+	operands []string
+	operator string
+}
+
+// numbers returns the operands that are numbers
+func (op operation) numbers() []float64 {
+	var values []float64
+	for _, operand := range op.operands {
+		if operand[0] == '(' || operand[0] == '<' || operand[0] == '[' || operand[0] == '/' {
+			continue
+		}
+		if val, err := strconv.ParseFloat(operand, 64); err == nil {
+			values = append(values, val)
+		}
+	}
+	return values
+}
+
+// splitOperations splits a content stream into its operations
+func splitOperations(content string) []operation {
+	var ops []operation
+	var operands []string
+	for i := skipContentSpace(content, 0); i < len(content); i = skipContentSpace(content, i) {
+		end := contentTokenEnd(content, i)
+		token := content[i:end]
+		i = end
+		switch {
+		case strings.IndexByte("([</+-.0123456789", token[0]) >= 0, token == "true", token == "false", token == "null":
+			operands = append(operands, token)
+			continue
+		case token == "ID":
+			// Inline image: its data ends with EI between white space
+			for i++; i < len(content); i++ {
+				if isContentSpace(content[i-1]) && strings.HasPrefix(content[i:], "EI") &&
+					(i+2 == len(content) || isContentSpace(content[i+2])) {
+					break
+				}
+			}
+		}
+		ops = append(ops, operation{operands, token})
+		operands = nil
+	}
+	return ops
+}
+
+// isContentSpace reports whether c is white space
+func isContentSpace(c byte) bool {
+	return strings.IndexByte(" \t\r\n\f\x00", c) >= 0
+}
+
+// skipContentSpace returns the position of the first byte at or after i that is neither white space nor comment
+func skipContentSpace(s string, i int) int {
+	for i < len(s) {
+		if s[i] == '%' {
+			for i < len(s) && s[i] != '\r' && s[i] != '\n' {
+				i++
+			}
+		} else if isContentSpace(s[i]) {
+			i++
+		} else {
+			break
+		}
+	}
+	return i
+}
+
+// contentTokenEnd returns the position just after the token that starts at i. A string, array or
+// dictionary is one token.
+func contentTokenEnd(s string, i int) int {
+	switch {
+	case s[i] == '(':
+		for depth := 0; i < len(s); i++ {
+			if s[i] == '\\' {
+				i++
+			} else if s[i] == '(' {
+				depth++
+			} else if s[i] == ')' {
+				if depth--; depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		return len(s)
+	case s[i] == '[', strings.HasPrefix(s[i:], "<<"):
+		closing := "]"
+		if s[i] == '<' {
+			closing = ">>"
+		}
+		for i = skipContentSpace(s, i+len(closing)); i < len(s); i = skipContentSpace(s, contentTokenEnd(s, i)) {
+			if strings.HasPrefix(s[i:], closing) {
+				return i + len(closing)
+			}
+		}
+		return len(s)
+	case s[i] == '<':
+		if end := strings.IndexByte(s[i:], '>'); end >= 0 {
+			return i + end + 1
+		}
+		return len(s)
+	case s[i] != '/' && strings.IndexByte(")>]{}", s[i]) >= 0:
+		return i + 1
+	}
+	for i++; i < len(s) && strings.IndexByte(" \t\r\n\f\x00()<>[]{}/%", s[i]) < 0; i++ {
+	}
+	return i
+}
+
 // textState tracks the current text rendering state
 type textState struct {
+	textStateParams
+	x          float64
+	y          float64
+	textMatrix [6]float64
+	inText     bool
+}
+
+// textStateParams are the text parameters that belong to the graphics state
+type textStateParams struct {
 	fontName    string
 	fontSize    float64
-	x           float64
-	y           float64
 	charSpacing float64
 	wordSpacing float64
 	textRise    float64
-	textMatrix  [6]float64
-	inText      bool
+	leading     float64
 	decoder     *FontDecoder // Current font decoder for text extraction
 }
 
+// setMatrix sets the text matrix and the start of the current line
+func (state *textState) setMatrix(matrix [6]float64) {
+	state.textMatrix = matrix
+	state.x = matrix[4]
+	state.y = matrix[5]
+}
+
+// move moves the start of the current line by an offset in text space
+func (state *textState) move(tx, ty float64) {
+	state.x += tx*state.textMatrix[0] + ty*state.textMatrix[2]
+	state.y += tx*state.textMatrix[1] + ty*state.textMatrix[3]
+}
+
 // graphicsState tracks the current graphics rendering state
 type graphicsState struct {
 	lineWidth   float64
@@ -349,6 +395,13 @@ type graphicsState struct {
 	strokeColor *types.Color
 }
 
+// savedState is what the q operator saves
+type savedState struct {
+	matrix   [6]float64
+	graphics graphicsState
+	text     textStateParams
+}
+
 // createTextElement creates a TextElement from text and current text state
 func createTextElement(text string, state *textState) types.TextElement {
 	// Calculate approximate width (simplified - would need font metrics)
@@ -381,8 +434,9 @@ func parseTextArrayWithDecoder(arrStr string, decoder *FontDecoder) string {
 
 	// Remove brackets if present
 	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
+	if strings.HasPrefix(arrStr, "[") {
+		arrStr = strings.TrimSuffix(arrStr[1:], "]")
+	}
 
 	// Parse elements - strings in parentheses, hex strings, or numbers
 	// Pattern: (text) or <hex> or number
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 068644a..25f762a 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -226,7 +226,8 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 			contentRefs = []string{contents}
 		}
 
-		// Extract text and graphics from content streams
+		// The content streams of a page are one stream of operations, split anywhere between tokens
+		var pageContent strings.Builder
 		for _, contentRef := range contentRefs {
 			contentObjNum, err := parseObjectRef(contentRef)
 			if err != nil {
@@ -236,62 +237,15 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 				continue
 			}
 
-			contentObj, err := pdf.GetObject(contentObjNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get content object %d: %v\n", contentObjNum, err)
-				}
-				continue
-			}
-
-			// Parse content stream
-			// Content streams are usually stored as stream objects with FlateDecode
-			// We need to get the actual stream data, not the object wrapper
-			contentStr := string(contentObj)
-
-			// Check if this is a stream object and extract/decompress the stream data
-			if strings.Contains(contentStr, "stream") {
-				streamIdx := strings.Index(contentStr, "stream")
-				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
-
-					// Extract stream data
-					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
-						dataStart++
-					}
-					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
-						dataStart++
-					}
-
-					endstreamIdx := strings.Index(contentStr[dataStart:], "endstream")
-					if endstreamIdx != -1 {
-						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
-
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
-							}
-						} else {
-							contentStr = string(streamData)
-						}
-					}
-				}
-			}
-
-			textElements, graphics, images := parseContentStreamWithDecoders(contentStr, pdf, pageObjNum, fontDecoders, verbose)
-			page.Text = append(page.Text, textElements...)
-			page.Graphics = append(page.Graphics, graphics...)
-			page.Images = append(page.Images, images...)
+			pageContent.WriteString(extractStreamData(contentObjNum, pdf, verbose))
+			pageContent.WriteString("\n")
 		}
+
+		// Extract text and graphics from the content
+		textElements, graphics, images := parseContentStreamWithDecoders(pageContent.String(), pdf, pageObjNum, fontDecoders, verbose)
+		page.Text = append(page.Text, textElements...)
+		page.Graphics = append(page.Graphics, graphics...)
+		page.Images = append(page.Images, images...)
 	}
 
 	// Extract annotations
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 0e08833..116a021 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -550,46 +550,26 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 		return ""
 	}
 
-	objStr := string(obj)
-
-	// Check if this is a stream object
-	streamIdx := strings.Index(objStr, "stream")
-	if streamIdx == -1 {
+	// Find the stream's dictionary and data
+	object := []byte(fmt.Sprintf("%d 0 obj\n%s\nendobj", objNum, obj))
+	raw, err := parse.ParseRawObject(object, objNum, 0, 0)
+	if err != nil || !raw.IsStream {
 		return ""
 	}
 
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
-	// Extract stream data
-	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
-		dataStart++
-	}
-	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-		dataStart++
-	}
-
-	endstreamIdx := strings.Index(objStr[dataStart:], "endstream")
-	if endstreamIdx == -1 {
-		return ""
-	}
-
-	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
-
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
-		if err == nil {
-			return string(decompressed)
-		}
-		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
+	// Apply the stream's filters
+	filter := extractDictValue(string(raw.DictRaw), "/Filter")
+	decoded := raw.StreamRaw
+	for _, name := range strings.Fields(strings.ReplaceAll(strings.Trim(filter, "[]"), "/", " /")) {
+		if decoded, err = parse.DecodeFilter(decoded, name); err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
+			}
+			return string(raw.StreamRaw)
 		}
 	}
 
-	return string(streamData)
+	return string(decoded)
 }
 
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
-- 
2.43.0


From cc8fd4a291cc8fe1c9aaf6782d44a4f326c9f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 29/58] fix: inherit page attributes and read each page tree
 node and outline item once

---
 content/extract/bookmarks.go | 17 ++++++++----
 content/extract/images.go    | 14 +++++++---
 content/extract/pages.go     | 50 ++++++++++++++++++++++++------------
 3 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index 0cb6320..ae6229e 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -1,6 +1,8 @@
 package extract
 
 import (
+	"fmt"
+
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -46,7 +48,7 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	}
 
 	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, make(map[int]bool), verbose)
 	if err != nil {
 		return []types.Bookmark{}, nil
 	}
@@ -54,14 +56,19 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	return bookmarks, nil
 }
 
-// extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
+// extractBookmarksRecursive recursively extracts bookmarks from the outline tree. visited has the
+// items that have been read: each is read only once.
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]bool, verbose bool) ([]types.Bookmark, error) {
 	var bookmarks []types.Bookmark
 
 	itemObjNum, err := parseObjectRef(itemRef)
 	if err != nil {
 		return bookmarks, err
 	}
+	if visited[itemObjNum] {
+		return bookmarks, fmt.Errorf("outline item %d occurs more than once", itemObjNum)
+	}
+	visited[itemObjNum] = true
 
 	itemObj, err := pdf.GetObject(itemObjNum)
 	if err != nil {
@@ -90,7 +97,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Extract children (First/Next chain)
 	firstRef := extractDictValue(itemStr, "/First")
 	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+		children, err := extractBookmarksRecursive(pdf, firstRef, visited, verbose)
 		if err == nil {
 			bookmark.Children = children
 		}
@@ -101,7 +108,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Get next sibling
 	nextRef := extractDictValue(itemStr, "/Next")
 	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
+		siblings, err := extractBookmarksRecursive(pdf, nextRef, visited, verbose)
 		if err == nil {
 			bookmarks = append(bookmarks, siblings...)
 		}
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..803adfc 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -192,7 +192,7 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 
 	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
+	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, make(map[int]bool), verbose)
 
 	// For each page, extract Resources and get image object numbers
 	for i, pageObjNum := range pageObjNums {
@@ -272,8 +272,9 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	return allImages, nil
 }
 
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
+// extractPageObjectNumbers recursively extracts page object numbers from the pages tree, reading
+// each inner node only once
+func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, visited map[int]bool, verbose bool) []int {
 	var pageObjNums []int
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
@@ -291,6 +292,11 @@ func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []i
 		return pageObjNums
 	}
 
+	if visited[pagesObjNum] {
+		return pageObjNums
+	}
+	visited[pagesObjNum] = true
+
 	// This is a /Pages node - get Kids and recurse
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if kidsStr == "" {
@@ -305,7 +311,7 @@ func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []i
 			continue
 		}
 		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
+		childPages := extractPageObjectNumbers(pdf, kidObjNum, visited, verbose)
 		pageObjNums = append(pageObjNums, childPages...)
 	}
 
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 25f762a..2618657 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -53,7 +53,7 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	}
 
 	// Extract pages from pages tree
-	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, verbose)
+	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, nil, make(map[int]bool), verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to extract pages from tree: %w", err)
 	}
@@ -66,8 +66,12 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	return pages, nil
 }
 
-// extractPagesFromTree recursively extracts pages from a pages tree
-func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
+// inheritedKeys are the page attributes that a page inherits from its ancestors in the page tree
+var inheritedKeys = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
+
+// extractPagesFromTree recursively extracts pages from a pages tree. inherited has the attributes
+// of the node's ancestors, and visited the inner nodes that have been read: each is read only once.
+func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, inherited map[string]string, visited map[int]bool, verbose bool) ([]types.Page, error) {
 	var result []types.Page
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
@@ -81,22 +85,29 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 	}
 
 	// Check if this is a page or a pages node
-	// Look for /Type/Page or /Type/Pages in the dictionary
-	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
-	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
-		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
-		}
-	}
+	pageType := extractDictValue(pagesStr, "/Type")
 	if verbose {
-		fmt.Printf("Type: %s (from string check)\n", pageType)
+		fmt.Printf("Type: %s\n", pageType)
+	}
+
+	// Attributes of this node, or else of its ancestors
+	entries := dictEntries(pagesStr)
+	attributes := make(map[string]string)
+	for _, key := range inheritedKeys {
+		if value, ok := entries[key]; ok {
+			attributes[key] = string(value)
+		} else if value, ok := inherited[key]; ok {
+			attributes[key] = value
+		}
 	}
+
 	if pageType == "/Page" {
-		// This is a page object
+		// This is a page object; add the attributes it inherits
+		for _, key := range inheritedKeys {
+			if _, ok := entries[key]; !ok && attributes[key] != "" {
+				pagesStr = strings.Replace(pagesStr, "<<", "<<"+key+" "+attributes[key]+" ", 1)
+			}
+		}
 		page, err := extractPage(pdfBytes, pdf, pagesObjNum, pagesStr, verbose)
 		if err != nil {
 			if verbose {
@@ -107,6 +118,11 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		return []types.Page{page}, nil
 	}
 
+	if visited[pagesObjNum] {
+		return nil, fmt.Errorf("page tree node %d occurs more than once", pagesObjNum)
+	}
+	visited[pagesObjNum] = true
+
 	// This is a pages node - get Kids array
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if verbose {
@@ -131,7 +147,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		}
 
 		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
+		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, attributes, visited, verbose)
 		if err != nil {
 			if verbose {
 				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
-- 
2.43.0


From 814c11b45995e59b272cdd4edf70bb099a39cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 30/58] fix: write page text, sizes and standard fonts so that
 ASCII text and fractional sizes survive

---
 core/write/content.go |  6 +++---
 core/write/page.go    | 38 +++++++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..cb59b7a 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -324,8 +324,8 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-	for _, c := range s {
-		switch c {
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; c {
 		case '(':
 			result.WriteString("\\(")
 		case ')':
@@ -339,7 +339,7 @@ func escapePDFString(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			result.WriteRune(c)
+			result.WriteByte(c)
 		}
 	}
 	return result.String()
diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..ec3fa03 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -27,8 +27,9 @@ var (
 type PageBuilder struct {
 	writer      *PDFWriter
 	size        PageSize
-	fonts       map[string]int // font name -> object number
-	images      map[string]int // image name -> object number
+	fonts       map[string]int    // resource name -> object number
+	standard    map[string]string // standard font name -> resource name
+	images      map[string]int    // image name -> object number
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
@@ -37,11 +38,12 @@ type PageBuilder struct {
 // NewPageBuilder creates a new page builder
 func (w *PDFWriter) NewPageBuilder(size PageSize) *PageBuilder {
 	return &PageBuilder{
-		writer:  w,
-		size:    size,
-		fonts:   make(map[string]int),
-		images:  make(map[string]int),
-		content: NewContentStream(),
+		writer:   w,
+		size:     size,
+		fonts:    make(map[string]int),
+		standard: make(map[string]string),
+		images:   make(map[string]int),
+		content:  NewContentStream(),
 	}
 }
 
@@ -54,15 +56,21 @@ func (pb *PageBuilder) Content() *ContentStream {
 // Returns the resource name to use (e.g., "/F1")
 func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	// Check if already added
-	for name, _ := range pb.fonts {
-		if name == fontName {
-			return "/" + name
-		}
+	if name, ok := pb.standard[fontName]; ok {
+		return "/" + name
 	}
 
-	// Create font dictionary
+	// Create font dictionary, with an encoding that has ASCII text as it is
 	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
-	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
+	for n := len(pb.fonts) + 2; pb.fonts[resourceName] != 0; n++ {
+		resourceName = fmt.Sprintf("F%d", n)
+	}
+	pb.standard[fontName] = resourceName
+	encoding := "/Encoding/WinAnsiEncoding"
+	if fontName == "Symbol" || fontName == "ZapfDingbats" {
+		encoding = "" // these have their own encodings
+	}
+	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s%s>>", fontName, encoding)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
 
@@ -155,8 +163,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	resources += ">>"
 
 	// Create page object
-	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %.0f %.0f]/Contents %d 0 R/Resources%s>>`,
-		pagesObjNum, pb.size.Width, pb.size.Height, contentObjNum, resources)
+	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %s %s]/Contents %d 0 R/Resources%s>>`,
+		pagesObjNum, pb.writer.formatValue(pb.size.Width), pb.writer.formatValue(pb.size.Height), contentObjNum, resources)
 	pb.pageObjNum = pb.writer.AddObject([]byte(pageDict))
 
 	return pb.pageObjNum
-- 
2.43.0


From cbbe43dc88ff6ae942e0b1ea4fbc0de25bf3274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 31/58] fix: write bookmarks as text strings with parents, keep
 the catalog's entries and resolve page numbers

---
 content/extract/annotations.go | 39 +++++++-------
 content/extract/bookmarks.go   | 38 +++++++++++---
 core/encrypt/dictionary.go     | 50 ++++++++++++------
 core/write/bookmarks.go        | 20 +++++---
 core/write/writer.go           | 94 ++++++++++++++--------------------
 5 files changed, 136 insertions(+), 105 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index b09f5e3..63252e7 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -164,10 +164,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.URI = extractURI(annotStr, pdf)
 
 		// Check for Destination (named destination or array)
-		dest := extractDictValue(annotStr, "/Dest")
-		if dest != "" {
-			annotation.Destination = dest
-		}
+		annotation.Destination = extractDestination(annotStr, "/Dest")
 	}
 
 	// Text annotation-specific
@@ -206,23 +203,27 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	return annotation
 }
 
-// extractURI returns the URI of an annotation or outline item: its own /URI entry or that of its
-// action, which is a dictionary or a reference to one
+// extractAction returns the action dictionary of an annotation or outline item, which is in the item
+// or an object of its own
+func extractAction(itemStr string, pdf *parse.PDF) string {
+	if action := extractInlineDict(itemStr, "/A"); action != "" {
+		return action
+	}
+	actionObjNum, err := parseObjectRef(extractDictValue(itemStr, "/A"))
+	if err != nil {
+		return ""
+	}
+	actionObj, err := pdf.GetObject(actionObjNum)
+	if err != nil {
+		return ""
+	}
+	return string(actionObj)
+}
+
+// extractURI returns the URI of an annotation or outline item: its own /URI entry or that of its action
 func extractURI(itemStr string, pdf *parse.PDF) string {
 	if uri := extractTextValue(itemStr, "/URI"); uri != "" {
 		return uri
 	}
-	actionStr := extractInlineDict(itemStr, "/A")
-	if actionStr == "" {
-		actionObjNum, err := parseObjectRef(extractDictValue(itemStr, "/A"))
-		if err != nil {
-			return ""
-		}
-		actionObj, err := pdf.GetObject(actionObjNum)
-		if err != nil {
-			return ""
-		}
-		actionStr = string(actionObj)
-	}
-	return extractTextValue(actionStr, "/URI")
+	return extractTextValue(extractAction(itemStr, pdf), "/URI")
 }
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ae6229e..1ff6ee1 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -2,6 +2,7 @@ package extract
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -47,8 +48,16 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 		return []types.Bookmark{}, nil
 	}
 
+	// Number the pages that destinations refer to
+	pageNums := make(map[int]int)
+	if pagesObjNum, err := parseObjectRef(extractDictValue(string(catalogObj), "/Pages")); err == nil {
+		for i, pageObjNum := range extractPageObjectNumbers(pdf, pagesObjNum, make(map[int]bool), verbose) {
+			pageNums[pageObjNum] = i + 1
+		}
+	}
+
 	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, make(map[int]bool), verbose)
+	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, pageNums, make(map[int]bool), verbose)
 	if err != nil {
 		return []types.Bookmark{}, nil
 	}
@@ -56,9 +65,9 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	return bookmarks, nil
 }
 
-// extractBookmarksRecursive recursively extracts bookmarks from the outline tree. visited has the
-// items that have been read: each is read only once.
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]bool, verbose bool) ([]types.Bookmark, error) {
+// extractBookmarksRecursive recursively extracts bookmarks from the outline tree. pageNums has the
+// page numbers of page objects, and visited the items that have been read: each is read only once.
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNums map[int]int, visited map[int]bool, verbose bool) ([]types.Bookmark, error) {
 	var bookmarks []types.Bookmark
 
 	itemObjNum, err := parseObjectRef(itemRef)
@@ -81,10 +90,11 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]b
 	title := extractTextValue(itemStr, "/Title")
 
 	// Extract destination or action
-	dest := extractDictValue(itemStr, "/Dest")
+	dest := extractDestination(itemStr, "/Dest")
 	uri := ""
 	if dest == "" {
 		uri = extractURI(itemStr, pdf)
+		dest = extractDestination(extractAction(itemStr, pdf), "/D")
 	}
 
 	bookmark := types.Bookmark{
@@ -93,11 +103,16 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]b
 		URI:         uri,
 		Children:    []types.Bookmark{},
 	}
+	if strings.HasPrefix(dest, "[") {
+		if pageObjNum, err := parseObjectRef(strings.TrimLeft(dest, "[ ")); err == nil {
+			bookmark.PageNumber = pageNums[pageObjNum]
+		}
+	}
 
 	// Extract children (First/Next chain)
 	firstRef := extractDictValue(itemStr, "/First")
 	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, visited, verbose)
+		children, err := extractBookmarksRecursive(pdf, firstRef, pageNums, visited, verbose)
 		if err == nil {
 			bookmark.Children = children
 		}
@@ -108,7 +123,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]b
 	// Get next sibling
 	nextRef := extractDictValue(itemStr, "/Next")
 	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, visited, verbose)
+		siblings, err := extractBookmarksRecursive(pdf, nextRef, pageNums, visited, verbose)
 		if err == nil {
 			bookmarks = append(bookmarks, siblings...)
 		}
@@ -116,3 +131,12 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]b
 
 	return bookmarks, nil
 }
+
+// extractDestination returns a destination entry: an array or name as it is, or the text of a string
+func extractDestination(dictStr, key string) string {
+	dest := extractDictValue(dictStr, key)
+	if strings.HasPrefix(dest, "(") || strings.HasPrefix(dest, "<") {
+		return extractTextValue(dictStr, key)
+	}
+	return dest
+}
diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
index 8ca0ed0..4ea9ebb 100644
--- a/core/encrypt/dictionary.go
+++ b/core/encrypt/dictionary.go
@@ -154,34 +154,50 @@ func DictionaryEntries(b []byte) map[string][]byte {
 
 // SetLength returns the dictionary with its /Length entry set to length
 func SetLength(dict []byte, length int) []byte {
-	depth, isKey := 0, true
+	return SetEntry(dict, "/Length", fmt.Sprint(length))
+}
+
+// SetEntry returns the dictionary at the start of dict with one of its top-level entries set to value
+func SetEntry(dict []byte, key, value string) []byte {
 	start := skipSpace(dict, 0)
-	for i := start; i < len(dict); {
-		end := tokenEnd(dict, i)
-		token := string(dict[i:end])
+	for i := skipSpace(dict, min(start+2, len(dict))); i < len(dict) && !bytes.HasPrefix(dict[i:], []byte(">>")); {
+		valueStart := skipSpace(dict, tokenEnd(dict, i))
+		end := valueEnd(dict, valueStart)
+		if string(dict[i:tokenEnd(dict, i)]) == key {
+			return []byte(fmt.Sprintf("%s %s %s", dict[:tokenEnd(dict, i)], value, dict[end:]))
+		}
 		i = skipSpace(dict, end)
-		switch {
+	}
+	return []byte(fmt.Sprintf("%s%s %s %s", dict[:min(start+2, len(dict))], key, value, dict[min(start+2, len(dict)):]))
+}
+
+// valueEnd returns the position just after the value that starts at i: a reference, a dictionary,
+// an array or a single token
+func valueEnd(b []byte, i int) int {
+	depth := 0
+	for start := i; i < len(b); i = skipSpace(b, i) {
+		switch token := string(b[i:tokenEnd(b, i)]); {
 		case token == "<<" || token == "[":
 			depth++
+		case (token == ">>" || token == "]") && i == start:
+			return i // no value
 		case token == ">>" || token == "]":
 			depth--
-			isKey = true
-		case depth == 1 && isKey && token[0] == '/':
-			isKey = false
-			if token == "/Length" {
-				// the value ends at the next key or at the end of the dictionary
-				for end = i; end < len(dict) && dict[end] != '/' && dict[end] != '>'; {
-					end = skipSpace(dict, tokenEnd(dict, end))
-				}
-				return []byte(fmt.Sprintf("%s%d %s", dict[:i], length, dict[end:]))
+		}
+		i = tokenEnd(b, i)
+		if depth == 0 {
+			if end := reference.Find(b[start:]); end != nil {
+				return start + len(end)
 			}
-		case depth == 1:
-			isKey = true
+			return i
 		}
 	}
-	return []byte(fmt.Sprintf("<</Length %d %s", length, dict[min(start+2, len(dict)):]))
+	return len(b)
 }
 
+// reference matches an indirect reference
+var reference = regexp.MustCompile(`^\d+\s+\d+\s+R\b`)
+
 // findDictionary returns the bytes from the dictionary of the given object on
 func findDictionary(pdfBytes []byte, objNum int) []byte {
 	header := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%d\s+\d+\s+obj`, objNum))
diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..7ced749 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -17,7 +17,9 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 	}
 
 	// Create outline items recursively
-	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
+	outlinesObjNum := w.nextObjNum
+	w.nextObjNum++ // Reserve it
+	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, outlinesObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to create outline items: %w", err)
 	}
@@ -30,7 +32,10 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		"/Count": count,
 	}
 
-	outlinesObjNum := w.AddObject(w.formatDictionary(outlinesDict))
+	w.objects[outlinesObjNum] = &PDFObject{
+		Number:  outlinesObjNum,
+		Content: w.formatDictionary(outlinesDict),
+	}
 
 	// Store outlines reference for catalog update
 	w.outlinesRef = fmt.Sprintf("%d 0 R", outlinesObjNum)
@@ -59,8 +64,11 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 				dest = fmt.Sprintf("[%d 0 R /XYZ 0 792 null]", pageObjNum)
 			}
 		} else if bookmark.Destination != "" {
-			// Use provided destination string (should be in format like "[pageObjNum /XYZ ...]")
+			// Use provided destination (should be in format like "[pageObjNum /XYZ ...]"), else it is a name
 			dest = bookmark.Destination
+			if strings.IndexByte("[/(<", dest[0]) == -1 {
+				dest = "(" + escapePDFString(dest) + ")"
+			}
 		}
 
 		// Create action for URI if provided
@@ -69,7 +77,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  rawValue("(" + escapePDFString(bookmark.URI) + ")"),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,11 +101,11 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": textString(bookmark.Title),
 		}
 
 		if dest != "" {
-			itemDict["/Dest"] = dest
+			itemDict["/Dest"] = rawValue(dest)
 		}
 		if actionRef != "" {
 			itemDict["/A"] = actionRef
diff --git a/core/write/writer.go b/core/write/writer.go
index d32395a..11c4fff 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -14,6 +14,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
@@ -200,63 +201,10 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
-	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
-	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
+	// Set the catalog's /Outlines entry
+	if start := bytes.Index(catalogObj.Content, []byte("<<")); start != -1 {
+		catalogObj.Content = encrypt.SetEntry(catalogObj.Content[start:], "/Outlines", w.outlinesRef)
 	}
-
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
-}
-
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
 }
 
 // SetEncryptRef sets the encrypt dictionary object reference
@@ -457,6 +405,38 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 	return buf.Bytes()
 }
 
+// rawValue is a value that is already in PDF syntax
+type rawValue string
+
+// textString returns a text string: a literal string if it is ASCII, else UTF-16BE in hexadecimal
+func textString(s string) rawValue {
+	for i := 0; i < len(s); i++ {
+		if s[i] >= 0x80 {
+			var buf bytes.Buffer
+			buf.WriteString("<FEFF")
+			for _, unit := range utf16.Encode([]rune(s)) {
+				fmt.Fprintf(&buf, "%04X", unit)
+			}
+			return rawValue(buf.String() + ">")
+		}
+	}
+	return rawValue("(" + escapePDFString(s) + ")")
+}
+
+// nameOf returns the name with the given text, with or without its slash
+func nameOf(text string) string {
+	var buf bytes.Buffer
+	buf.WriteByte('/')
+	for _, c := range []byte(strings.TrimPrefix(text, "/")) {
+		if c <= ' ' || c > '~' || strings.IndexByte("#()<>[]{}/%", c) >= 0 {
+			fmt.Fprintf(&buf, "#%02X", c)
+		} else {
+			buf.WriteByte(c)
+		}
+	}
+	return buf.String()
+}
+
 // formatValue formats a value for PDF output
 func (w *PDFWriter) formatValue(value interface{}) string {
 	switch v := value.(type) {
@@ -466,6 +446,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return strconv.FormatInt(v, 10)
 	case float64:
 		return strconv.FormatFloat(v, 'f', -1, 64)
+	case rawValue:
+		return string(v)
 	case string:
 		// If it looks like a name or reference, use as-is
 		if strings.HasPrefix(v, "/") || strings.HasSuffix(v, " R") {
-- 
2.43.0


From b4a198f95bf2de87edc2727fe9dceab3ece3c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 32/58] fix: write metadata values and names of any text so
 that they read back; negative timezones

---
 core/write/metadata.go | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..2ae9769 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -19,43 +19,41 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = textString(metadata.Title)
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = textString(metadata.Author)
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = textString(metadata.Subject)
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = textString(metadata.Keywords)
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = textString(metadata.Creator)
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = textString(metadata.Producer)
 	}
 	if metadata.CreationDate != "" {
-		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
+		dict["/CreationDate"] = dateString(metadata.CreationDate)
 	}
 	if metadata.ModDate != "" {
-		dict["/ModDate"] = formatPDFDate(metadata.ModDate)
+		dict["/ModDate"] = dateString(metadata.ModDate)
 	}
 
 	// If no dates provided, set current time as ModDate
 	if metadata.ModDate == "" {
-		dict["/ModDate"] = formatPDFDate(time.Now().Format(time.RFC3339))
+		dict["/ModDate"] = dateString(time.Now().Format(time.RFC3339))
 	}
 
 	// Add custom fields
 	for key, value := range metadata.Custom {
 		if key != "" && value != "" {
-			// Ensure key starts with /
-			if !strings.HasPrefix(key, "/") {
-				key = "/" + key
+			if _, standard := dict[nameOf(key)]; !standard {
+				dict[nameOf(key)] = textString(value)
 			}
-			dict[key] = escapePDFStringForMetadata(value)
 		}
 	}
 
@@ -112,6 +110,11 @@ func escapePDFStringForMetadata(s string) string {
 	return s
 }
 
+// dateString returns the literal string with the date in PDF format
+func dateString(date string) rawValue {
+	return rawValue("(" + formatPDFDate(date) + ")")
+}
+
 // formatPDFDate formats a date string for PDF
 // Accepts ISO 8601 format (YYYY-MM-DD or YYYY-MM-DDTHH:MM:SS) or PDF format (D:YYYYMMDDHHmmSSOHH'mm)
 // Returns PDF date format: D:YYYYMMDDHHmmSSOHH'mm
@@ -162,16 +165,11 @@ func formatPDFDate(dateStr string) string {
 
 	// Get timezone offset
 	_, offset := t.Zone()
-	offsetHours := offset / 3600
-	offsetMins := (offset % 3600) / 60
-
-	// Format timezone
-	var tzStr string
-	if offsetHours >= 0 {
-		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
-	} else {
-		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
+	sign := '+'
+	if offset < 0 {
+		sign, offset = '-', -offset
 	}
+	tzStr := fmt.Sprintf("%c%02d'%02d", sign, offset/3600, offset%3600/60)
 
 	pdfDate := fmt.Sprintf("D:%04d%02d%02d%02d%02d%02d%s",
 		year, month, day, hour, min, sec, tzStr)
-- 
2.43.0


From ac9ea179e14a0a2f84a9d70f87af0785bf60184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 33/58] fix: report the number of pages, not of objects, as a
 document's page count

---
 content/extract/bookmarks.go |  6 ++----
 content/extract/images.go    | 21 +++++++++++++++++++++
 content/extract/metadata.go  |  2 +-
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index 1ff6ee1..c4353c5 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -50,10 +50,8 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 
 	// Number the pages that destinations refer to
 	pageNums := make(map[int]int)
-	if pagesObjNum, err := parseObjectRef(extractDictValue(string(catalogObj), "/Pages")); err == nil {
-		for i, pageObjNum := range extractPageObjectNumbers(pdf, pagesObjNum, make(map[int]bool), verbose) {
-			pageNums[pageObjNum] = i + 1
-		}
+	for i, pageObjNum := range documentPageObjectNumbers(pdf, verbose) {
+		pageNums[pageObjNum] = i + 1
 	}
 
 	// Extract bookmarks recursively
diff --git a/content/extract/images.go b/content/extract/images.go
index 803adfc..555c913 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -272,6 +272,27 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	return allImages, nil
 }
 
+// documentPageObjectNumbers returns the page object numbers of the document in order
+func documentPageObjectNumbers(pdf *parse.PDF, verbose bool) []int {
+	trailer := pdf.Trailer()
+	if trailer == nil {
+		return nil
+	}
+	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	if err != nil {
+		return nil
+	}
+	catalogObj, err := pdf.GetObject(rootObjNum)
+	if err != nil {
+		return nil
+	}
+	pagesObjNum, err := parseObjectRef(extractDictValue(string(catalogObj), "/Pages"))
+	if err != nil {
+		return nil
+	}
+	return extractPageObjectNumbers(pdf, pagesObjNum, make(map[int]bool), verbose)
+}
+
 // extractPageObjectNumbers recursively extracts page object numbers from the pages tree, reading
 // each inner node only once
 func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, visited map[int]bool, verbose bool) []int {
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index 9446f17..6250cd1 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -15,7 +15,7 @@ import (
 func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.DocumentMetadata, error) {
 	metadata := &types.DocumentMetadata{
 		PDFVersion: pdf.Version(),
-		PageCount:  pdf.ObjectCount(), // Will be updated when we parse pages
+		PageCount:  len(documentPageObjectNumbers(pdf, verbose)),
 		Encrypted:  pdf.IsEncrypted(),
 		Custom:     make(map[string]string),
 	}
-- 
2.43.0


From aa87754564894d03d6791d5de01af474cca705bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 34/58] fix: encrypt with the crypt filter method of the
 document

---
 core/write/writer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 11c4fff..50d16a8 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -486,7 +486,7 @@ func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) []byte {
 		return content
 	}
 	return encrypt.EncryptStrings(content, func(s []byte) ([]byte, error) {
-		return w.encryptStream(s, objNum, genNum)
+		return w.encryptData(s, objNum, genNum, w.encryptInfo.StringMethod)
 	})
 }
 
@@ -524,6 +524,14 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
 		return data, nil
 	}
+	return w.encryptData(data, objNum, genNum, w.encryptInfo.StreamMethod)
+}
+
+// encryptData encrypts with the given crypt filter method, or the one V implies
+func (w *PDFWriter) encryptData(data []byte, objNum, genNum int, method string) ([]byte, error) {
+	if method == "None" {
+		return data, nil
+	}
 
 	// Derive object-specific key (same as decrypt)
 	pack1 := []byte{byte(objNum & 0xff), byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}
@@ -546,7 +554,7 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	keyHash.Write(keyData)
 
 	// AES encryption
-	if w.encryptInfo.V == 4 || w.encryptInfo.V == 5 {
+	if method != "V2" && (w.encryptInfo.V == 4 || w.encryptInfo.V == 5) {
 		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
 		aesKeyHash := keyHash.Sum(nil)
 		aesKeyLen := min(n+5, 16)
-- 
2.43.0


From d1eee2f9eba208a8b195da7305478de76cf67490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:26 +0000
Subject: [PATCH 35/58] fix: page operations act on the current page tree, copy
 what pages need and keep the rest of the document

---
 core/encrypt/dictionary.go    |  62 +++++++--
 core/manipulate/deletion.go   | 236 ++++++----------------------------
 core/manipulate/extraction.go | 108 ++++++++++------
 core/manipulate/insertion.go  | 112 ++++------------
 core/manipulate/manipulate.go | 164 ++++++-----------------
 core/manipulate/merging.go    | 162 +----------------------
 core/manipulate/page_tree.go  | 132 +++++++++++++++++++
 core/manipulate/rotation.go   | 103 ++-------------
 core/manipulate/splitting.go  |   6 +-
 9 files changed, 374 insertions(+), 711 deletions(-)
 create mode 100644 core/manipulate/page_tree.go

diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
index 4ea9ebb..d42c7c3 100644
--- a/core/encrypt/dictionary.go
+++ b/core/encrypt/dictionary.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+	"strconv"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -159,16 +160,33 @@ func SetLength(dict []byte, length int) []byte {
 
 // SetEntry returns the dictionary at the start of dict with one of its top-level entries set to value
 func SetEntry(dict []byte, key, value string) []byte {
-	start := skipSpace(dict, 0)
-	for i := skipSpace(dict, min(start+2, len(dict))); i < len(dict) && !bytes.HasPrefix(dict[i:], []byte(">>")); {
-		valueStart := skipSpace(dict, tokenEnd(dict, i))
-		end := valueEnd(dict, valueStart)
-		if string(dict[i:tokenEnd(dict, i)]) == key {
-			return []byte(fmt.Sprintf("%s %s %s", dict[:tokenEnd(dict, i)], value, dict[end:]))
+	if start, end, ok := findEntry(dict, key); ok {
+		return []byte(fmt.Sprintf("%s %s %s", bytes.TrimRight(dict[:start], " "), value, dict[end:]))
+	}
+	start := min(skipSpace(dict, 0)+2, len(dict))
+	return []byte(fmt.Sprintf("%s%s %s %s", dict[:start], key, value, dict[start:]))
+}
+
+// Entry returns the whole value of a top-level entry of the dictionary at the start of dict, or ""
+// if there is none
+func Entry(dict []byte, key string) string {
+	start, end, _ := findEntry(dict, key)
+	return string(dict[start:end])
+}
+
+// findEntry returns where the value of a top-level entry of the dictionary at the start of dict
+// starts and ends
+func findEntry(dict []byte, key string) (start, end int, ok bool) {
+	for i := skipSpace(dict, min(skipSpace(dict, 0)+2, len(dict))); i < len(dict) && !bytes.HasPrefix(dict[i:], []byte(">>")); {
+		keyEnd := tokenEnd(dict, i)
+		start = skipSpace(dict, keyEnd)
+		end = valueEnd(dict, start)
+		if string(dict[i:keyEnd]) == key {
+			return start, end, true
 		}
 		i = skipSpace(dict, end)
 	}
-	return []byte(fmt.Sprintf("%s%s %s %s", dict[:min(start+2, len(dict))], key, value, dict[min(start+2, len(dict)):]))
+	return 0, 0, false
 }
 
 // valueEnd returns the position just after the value that starts at i: a reference, a dictionary,
@@ -196,7 +214,7 @@ func valueEnd(b []byte, i int) int {
 }
 
 // reference matches an indirect reference
-var reference = regexp.MustCompile(`^\d+\s+\d+\s+R\b`)
+var reference = regexp.MustCompile(`^(\d+)\s+\d+\s+R\b`)
 
 // findDictionary returns the bytes from the dictionary of the given object on
 func findDictionary(pdfBytes []byte, objNum int) []byte {
@@ -238,6 +256,34 @@ func transformStrings(content []byte, asHex bool, f func([]byte) ([]byte, error)
 	return out
 }
 
+// ReplaceReferences returns an object with each of its indirect references replaced by what f
+// makes of the object number. Strings, comments and stream data are left alone.
+func ReplaceReferences(content []byte, f func(objNum int) string) []byte {
+	var out []byte
+	for i := 0; i < len(content); {
+		start := skipSpace(content, i)
+		out = append(out, content[i:start]...)
+		if start >= len(content) {
+			break
+		}
+		i = min(tokenEnd(content, start), len(content))
+		if string(content[start:i]) == "stream" {
+			return append(out, content[start:]...)
+		}
+		if c := content[start]; c < '0' || c > '9' {
+			// not a reference
+		} else if ref := reference.FindSubmatch(content[start:]); ref != nil {
+			if objNum, err := strconv.Atoi(string(ref[1])); err == nil {
+				out = append(out, f(objNum)...)
+				i = start + len(ref[0])
+				continue
+			}
+		}
+		out = append(out, content[start:i]...)
+	}
+	return out
+}
+
 // encodeLiteral writes s as a literal string
 func encodeLiteral(s []byte) []byte {
 	out := []byte{'('}
diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..e099218 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,235 +2,73 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
+	"sort"
 )
 
 // DeletePage deletes a specific page from the PDF
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) DeletePage(pageNumber int) error {
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	pages, err := m.pages()
 	if err != nil {
-		return fmt.Errorf("failed to get page object: %w", err)
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
-
-	// Find the parent Pages object that contains this page
-	parentPagesObjNum, err := m.findParentPagesObject(pageObjNum)
-	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
-	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
-	}
-
-	// Parse kids array and remove the page reference
-	// Kids array format: "[5 0 R 6 0 R ]" or "[5 0 R 6 0 R]"
-	kidsRefs := parseObjectRefArray(kidsStr)
-	if len(kidsRefs) == 0 {
-		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
-	}
-
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
-	found := false
-	for _, kidRef := range kidsRefs {
-		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
-			found = true
-			// Skip this reference (don't add to newKidsRefs)
-		} else {
-			newKidsRefs = append(newKidsRefs, kidRef)
-		}
-	}
-
-	if !found {
-		return fmt.Errorf("page %d (object %d) not found in Kids array. Kids: %v, KidsStr: %s", pageNumber, pageObjNum, kidsRefs, kidsStr)
+	if pageNumber < 1 || pageNumber > len(pages) {
+		return fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pages))
 	}
-
-	// Rebuild Kids array string with proper formatting (matching writer format: "[5 0 R 6 0 R ]")
-	// Note: No space before opening bracket to match original format
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
-	}
-	newKidsStr += " ]"
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
+	if len(pages) == 1 {
 		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
-
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
-	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
+	page := pages[pageNumber-1]
+
+	// Take the page out of the page tree, with the Pages objects it leaves empty
+	m.addToCounts(page.parents, -1)
+	index := page.index
+	for i := len(page.parents) - 1; i >= 0; i-- {
+		kids := m.kids(page.parents[i])
+		kids = append(kids[:index:index], kids[index+1:]...)
+		m.setKids(page.parents[i], kids)
+		if len(kids) > 0 || i == 0 {
+			break
 		}
+		index = m.kidIndex(page.parents[i-1], page.parents[i])
 	}
 
 	if m.verbose {
-		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, pageObjNum)
+		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, page.objNum)
 	}
 
 	return nil
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based, in any order, and refers to the pages as they are before the call
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
-	// Sort in descending order to avoid index shifts
-	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
-		}
-	}
-	return nil
-}
-
-// findParentPagesObject finds the Pages object that contains the given page object
-func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
-	// Get all Pages objects (intermediate nodes in page tree)
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
-}
-
-// findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	pages, err := m.pages()
 	if err != nil {
-		return 0, err
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) - shouldn't happen, but check anyway
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		return 0, fmt.Errorf("reached /Page object, expected /Pages")
-	}
-
-	// Get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return 0, fmt.Errorf("no /Kids array found")
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
-	// Check if target page is in this Pages object's Kids
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-
-		if kidObjNum == targetPageObjNum {
-			// Found it! This Pages object is the parent
-			return pagesObjNum, nil
-		}
-
-		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
-		if err != nil {
-			continue
+	// Sort in descending order to avoid index shifts
+	// (delete from end to beginning)
+	sorted := append([]int{}, pageNumbers...)
+	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	distinct := sorted[:0]
+	for i, pageNumber := range sorted {
+		if pageNumber < 1 || pageNumber > len(pages) {
+			return fmt.Errorf("failed to delete page %d: page number out of range (1-%d)", pageNumber, len(pages))
 		}
-		kidStr := string(kidObj)
-		kidType := extractDictValue(kidStr, "/Type")
-		if kidType == "/Pages" {
-			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
-			if err == nil {
-				return parent, nil
-			}
+		if i == 0 || pageNumber != distinct[len(distinct)-1] {
+			distinct = append(distinct, pageNumber)
 		}
 	}
-
-	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
-}
-
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
+	if len(distinct) > 0 && len(distinct) == len(pages) {
+		return fmt.Errorf("cannot delete pages: would result in 0 pages")
 	}
 
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
-		if err != nil {
-			currentCount = 0
+	for _, pageNumber := range distinct {
+		if err := m.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
 	}
-
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
-	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
 	return nil
 }
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..692f327 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -2,10 +2,15 @@ package manipulate
 
 import (
 	"fmt"
+	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
+// inheritableAttributes are the page attributes that a page may inherit
+var inheritableAttributes = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
+
 // ExtractPages extracts specific pages from a PDF and returns a new PDF
 // pageNumbers is 1-based (first page is 1)
 func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose bool) ([]byte, error) {
@@ -19,64 +24,89 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	// Get all pages
+	allPages, err := manipulator.pages()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
-	// Validate page numbers
+	var pages []pageNode
 	for _, pageNum := range pageNumbers {
-		if pageNum < 1 || pageNum > len(allPageObjNums) {
-			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPageObjNums))
+		if pageNum < 1 || pageNum > len(allPages) {
+			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPages))
 		}
+		pages = append(pages, allPages[pageNum-1])
 	}
 
 	// Create a new PDF with only the extracted pages
 	writer := write.NewPDFWriter()
-	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
-	pageObjNums := make([]int, 0, len(pageNumbers))
-
-	// Copy page objects and their dependencies
-	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
+	pagesObjNum := writer.AddObject(nil) // Placeholder, will update later
+	writePageTree(writer, pagesObjNum, manipulator.copyPages(pages, writer, pagesObjNum))
 
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
-		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
-		pageObjNums = append(pageObjNums, pageObjNum)
-
-		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
-		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
-		writer.SetObject(pageObjNum, []byte(updatedPageStr))
-
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
-	}
+	return writer.Bytes()
+}
 
-	// Build Kids array
-	kids := "["
-	for i, pageNum := range pageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
+// writePageTree writes the Pages object and the catalog of a new PDF
+func writePageTree(writer *write.PDFWriter, pagesObjNum int, pageObjNums []int) {
+	var kids []string
+	for _, pageObjNum := range pageObjNums {
+		kids = append(kids, fmt.Sprintf("%d 0 R", pageObjNum))
 	}
-	kids += "]"
 
 	// Create Pages object
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
+	pagesDict := fmt.Sprintf("<</Type/Pages/Kids[%s]/Count %d>>", strings.Join(kids, " "), len(pageObjNums))
 	writer.SetObject(pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
 	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
 	writer.SetRoot(catalogObjNum)
+}
 
-	return writer.Bytes()
+// copyPages copies pages, and all objects they refer to, to another PDF, as children of its given
+// Pages object, and returns their object numbers there
+func (m *PDFManipulator) copyPages(pages []pageNode, writer *write.PDFWriter, pagesObjNum int) []int {
+	newObjNums := make(map[int]int) // old object number -> new object number
+	var pageObjNums []int
+	for _, page := range pages {
+		pageObjNum := writer.AddObject(nil)
+		pageObjNums = append(pageObjNums, pageObjNum)
+		if _, ok := newObjNums[page.objNum]; !ok {
+			newObjNums[page.objNum] = pageObjNum
+		}
+	}
+
+	// Copy objects, noting the objects they refer to
+	var pending []int
+	copyReferences := func(content []byte) []byte {
+		return encrypt.ReplaceReferences(content, func(objNum int) string {
+			newObjNum, ok := newObjNums[objNum]
+			if !ok {
+				obj, exists := m.objects[objNum]
+				if objType := extractDictValue(string(obj), "/Type"); !exists || objType == "/Page" || objType == "/Pages" {
+					return "null" // missing, or part of the pages left behind
+				}
+				newObjNum = writer.AddObject(nil)
+				newObjNums[objNum] = newObjNum
+				pending = append(pending, objNum)
+			}
+			return fmt.Sprintf("%d 0 R", newObjNum)
+		})
+	}
+	for i, page := range pages {
+		// Give the page its inherited attributes, as its Pages objects are left behind
+		content := string(m.objects[page.objNum])
+		for _, key := range inheritableAttributes {
+			if value := m.inheritedValue(page, key); value != "" {
+				content = setDictValue(content, key, value)
+			}
+		}
+		copied := string(copyReferences([]byte(setDictValue(content, "/Parent", "null"))))
+		writer.SetObject(pageObjNums[i], []byte(setDictValue(copied, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))))
+	}
+	for len(pending) > 0 {
+		objNum := pending[0]
+		pending = pending[1:]
+		writer.SetObject(newObjNums[objNum], copyReferences(m.objects[objNum]))
+	}
+	return pageObjNums
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..92425f2 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,81 +2,49 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 )
 
 // InsertPage inserts a page at a specific position
 // pageNumber is 1-based (first page is 1, 0 means insert at end)
 // The page to insert must be from another PDF (use ExtractPages first)
 func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent []byte) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	pages, err := m.pages()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page number
-	if pageNumber < 0 || pageNumber > len(pageObjNums)+1 {
-		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
-	}
-
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
-	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
+	if pageNumber < 0 || pageNumber > len(pages)+1 {
+		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pages)+1)
+	}
+
+	// Find the Pages object to insert into: that of the page that is now at the position, or the
+	// root Pages object to insert at the end
+	var parents []int
+	var index int
+	if pageNumber == 0 || pageNumber > len(pages) {
+		root, err := m.findParentPagesObjectForInsertion()
+		if err != nil {
+			return fmt.Errorf("failed to find parent Pages object: %w", err)
+		}
+		parents, index = []int{root}, len(m.kids(root))
+	} else {
+		next := pages[pageNumber-1]
+		parents, index = next.parents, next.index
 	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
+	parent := parents[len(parents)-1]
+	if _, ok := m.objects[parent]; !ok {
+		return fmt.Errorf("parent Pages object %d not found", parent)
 	}
 
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-
 	// Insert the new page reference at the specified position
-	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
-		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
-	}
-
-	// Rebuild Kids array string
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
-	}
-	newKidsStr += " ]"
+	kids := m.kids(parent)
+	kids = append(kids[:index:index], append([]string{fmt.Sprintf("%d 0 R", pageObjNum)}, kids[index:]...)...)
+	m.addToCounts(parents, 1)
+	m.setKids(parent, kids)
 
 	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	m.objects[pageObjNum] = []byte(setDictValue(string(pageContent), "/Parent", fmt.Sprintf("%d 0 R", parent)))
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -87,31 +55,5 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 // findParentPagesObjectForInsertion finds the root Pages object for insertion
 func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return pagesObjNum, nil
+	return m.rootPagesObject()
 }
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..6754117 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -1,11 +1,13 @@
 package manipulate
 
 import (
+	"bytes"
 	"fmt"
 	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
@@ -14,7 +16,6 @@ import (
 type PDFManipulator struct {
 	pdf      *parse.PDF
 	pdfBytes []byte
-	writer   *write.PDFWriter
 	objects  map[int][]byte // object number -> content
 	verbose  bool
 }
@@ -29,9 +30,6 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	// Create a new writer for rebuilding
-	writer := write.NewPDFWriter()
-
 	// Copy all objects from original PDF
 	objects := make(map[int][]byte)
 	for _, objNum := range pdf.Objects() {
@@ -42,18 +40,33 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
+		obj = objectBody(obj)
+		if objType := extractDictValue(string(obj), "/Type"); objType == "/XRef" || objType == "/ObjStm" {
+			continue // part of the file's structure, which is written anew
+		}
 		objects[objNum] = obj
 	}
 
 	return &PDFManipulator{
 		pdf:      pdf,
 		pdfBytes: pdfBytes,
-		writer:   writer,
 		objects:  objects,
 		verbose:  verbose,
 	}, nil
 }
 
+// objectHeader matches the header of an indirect object
+var objectHeader = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj\b\s*`)
+
+// objectBody returns the value of an indirect object, without its header and endobj
+func objectBody(obj []byte) []byte {
+	header := objectHeader.Find(obj)
+	if header == nil {
+		return obj
+	}
+	return bytes.TrimSpace(bytes.TrimSuffix(bytes.TrimSpace(obj[len(header):]), []byte("endobj")))
+}
+
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
 func (m *PDFManipulator) Rebuild() ([]byte, error) {
 	return m.rebuildPDF()
@@ -61,9 +74,13 @@ func (m *PDFManipulator) Rebuild() ([]byte, error) {
 
 // rebuildPDF rebuilds the PDF with modified objects
 func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
-	// Add all objects to writer
+	// Add all objects to a writer, which gives them all generation 0
+	writer := write.NewPDFWriter()
+	writer.SetVersion(m.pdf.Version())
 	for objNum, content := range m.objects {
-		m.writer.SetObject(objNum, content)
+		writer.SetObject(objNum, encrypt.ReplaceReferences(content, func(objNum int) string {
+			return fmt.Sprintf("%d 0 R", objNum)
+		}))
 	}
 
 	// Get trailer info
@@ -76,28 +93,28 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 	if trailer.RootRef != "" {
 		rootObjNum, err := parseObjectRef(trailer.RootRef)
 		if err == nil {
-			m.writer.SetRoot(rootObjNum)
+			writer.SetRoot(rootObjNum)
 		}
 	}
 	if trailer.InfoRef != "" {
 		infoObjNum, err := parseObjectRef(trailer.InfoRef)
 		if err == nil {
-			m.writer.SetInfo(infoObjNum)
+			writer.SetInfo(infoObjNum)
 		}
 	}
 	if trailer.EncryptRef != "" {
 		encryptObjNum, err := parseObjectRef(trailer.EncryptRef)
 		if err == nil {
-			m.writer.SetEncryptRef(encryptObjNum)
+			writer.SetEncryptRef(encryptObjNum)
 		}
 	}
 
-	// Set encryption if present
+	// Set encryption if present; its key depends on the file identifier
 	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
+		writer.SetEncryption(m.pdf.Encryption(), encrypt.ExtractFileID(m.pdfBytes, m.verbose))
 	}
 
-	return m.writer.Bytes()
+	return writer.Bytes()
 }
 
 // parseObjectRef parses an object reference like "5 0 R"
@@ -113,125 +130,16 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
-// extractDictValue extracts a value from a PDF dictionary string
+// extractDictValue returns the value of an entry of a PDF dictionary: the object number of a
+// reference, or the text of any other value. It is "" if the entry is missing.
 func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
-		}
+	if value := string(encrypt.DictionaryEntries([]byte(dictStr))[key]); value != "null" {
+		return value
 	}
-
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
 	return ""
 }
 
-// setDictValue sets or updates a value in a PDF dictionary string
+// setDictValue sets or updates an entry of a PDF dictionary
 func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
-		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
-		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
-		}
-	}
-
-	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
-		return dictStr
-	}
-	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	return string(encrypt.SetEntry([]byte(dictStr), key, value))
 }
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..f27d682 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,9 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -16,8 +14,8 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	}
 
 	writer := write.NewPDFWriter()
+	pagesObjNum := writer.AddObject(nil) // Placeholder, will update later
 	var allPageObjNums []int
-	nextObjNum := 1
 
 	// Process each PDF
 	for pdfIdx, pdfBytes := range pdfBytesList {
@@ -26,168 +24,22 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		manipulator, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		// Get all pages from this PDF
+		pages, err := manipulator.pages()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Copy all objects from this PDF to the merged PDF
-		// Need to remap object numbers to avoid conflicts
-		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
-			nextObjNum++
-			objNumMap[objNum] = newObjNum
-
-			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
-
-			writer.SetObject(newObjNum, updatedObj)
-
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
-			}
-		}
+		// Copy them, with all objects they need, under new object numbers
+		allPageObjNums = append(allPageObjNums, manipulator.copyPages(pages, writer, pagesObjNum)...)
 	}
 
-	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
-	kids := "["
-	for i, pageNum := range allPageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
-	}
-	kids += "]"
-
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(allPageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := nextObjNum
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
-	writer.SetObject(catalogObjNum, []byte(catalogDict))
-	writer.SetRoot(catalogObjNum)
+	writePageTree(writer, pagesObjNum, allPageObjNums)
 
 	return writer.Bytes()
 }
-
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
-// objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
-		if newObjNum, ok := objNumMap[objNum]; ok {
-			return fmt.Sprintf("%d 0 R", newObjNum)
-		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
-	})
-
-	return []byte(updatedStr)
-}
diff --git a/core/manipulate/page_tree.go b/core/manipulate/page_tree.go
new file mode 100644
index 0000000..b6e091b
--- /dev/null
+++ b/core/manipulate/page_tree.go
@@ -0,0 +1,132 @@
+package manipulate
+
+import (
+	"fmt"
+	"strconv"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+)
+
+// pageNode is a page together with its place in the page tree
+type pageNode struct {
+	objNum  int   // The page object
+	parents []int // The Pages objects above it, from the root down
+	index   int   // The page's index in the Kids array of its parent
+}
+
+// rootPagesObject returns the object number of the root of the page tree
+func (m *PDFManipulator) rootPagesObject() (int, error) {
+	trailer := m.pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return 0, fmt.Errorf("no root reference found")
+	}
+	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	if err != nil {
+		return 0, fmt.Errorf("failed to parse root reference: %w", err)
+	}
+	catalogObj, ok := m.objects[rootObjNum]
+	if !ok {
+		return 0, fmt.Errorf("catalog object %d not found", rootObjNum)
+	}
+	pagesRef := extractDictValue(string(catalogObj), "/Pages")
+	if pagesRef == "" {
+		return 0, fmt.Errorf("no /Pages reference in catalog")
+	}
+	pagesObjNum, err := parseObjectRef(pagesRef)
+	if err != nil {
+		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
+	}
+	return pagesObjNum, nil
+}
+
+// pages returns the pages of the document in order
+func (m *PDFManipulator) pages() ([]pageNode, error) {
+	root, err := m.rootPagesObject()
+	if err != nil {
+		return nil, err
+	}
+	return m.pagesBelow(root, nil, make(map[int]bool)), nil
+}
+
+// pagesBelow returns the pages at and below a Pages object, reading each Pages object only once
+func (m *PDFManipulator) pagesBelow(pagesObjNum int, parents []int, visited map[int]bool) []pageNode {
+	if visited[pagesObjNum] {
+		return nil
+	}
+	visited[pagesObjNum] = true
+
+	var nodes []pageNode
+	path := append(append([]int{}, parents...), pagesObjNum)
+	for i, kidRef := range m.kids(pagesObjNum) {
+		kidObjNum, err := parseObjectRef(kidRef)
+		if err != nil {
+			continue
+		}
+		if extractDictValue(string(m.objects[kidObjNum]), "/Type") == "/Page" {
+			nodes = append(nodes, pageNode{objNum: kidObjNum, parents: path, index: i})
+		} else {
+			nodes = append(nodes, m.pagesBelow(kidObjNum, path, visited)...)
+		}
+	}
+	return nodes
+}
+
+// kids returns the references in the Kids array of a Pages object
+func (m *PDFManipulator) kids(pagesObjNum int) []string {
+	return parseObjectRefArray(extractDictValue(string(m.objects[pagesObjNum]), "/Kids"))
+}
+
+// kidIndex returns the index of an object in the Kids array of a Pages object
+func (m *PDFManipulator) kidIndex(pagesObjNum, kidObjNum int) int {
+	for i, kidRef := range m.kids(pagesObjNum) {
+		if objNum, err := parseObjectRef(kidRef); err == nil && objNum == kidObjNum {
+			return i
+		}
+	}
+	return -1
+}
+
+// setKids sets the Kids array of a Pages object
+func (m *PDFManipulator) setKids(pagesObjNum int, kids []string) {
+	updated := setDictValue(string(m.objects[pagesObjNum]), "/Kids", "["+strings.Join(kids, " ")+"]")
+	m.objects[pagesObjNum] = []byte(updated)
+}
+
+// addToCounts adds delta to the Count of the given Pages objects
+func (m *PDFManipulator) addToCounts(pagesObjNums []int, delta int) {
+	for _, objNum := range pagesObjNums {
+		pagesStr := string(m.objects[objNum])
+		count, err := strconv.Atoi(extractDictValue(pagesStr, "/Count"))
+		if err != nil {
+			count = len(m.pagesBelow(objNum, nil, make(map[int]bool))) - delta
+		}
+		m.objects[objNum] = []byte(setDictValue(pagesStr, "/Count", strconv.Itoa(count+delta)))
+	}
+}
+
+// inheritedValue returns the value of an inheritable page attribute, in the page itself or in the
+// nearest Pages object above it that has it
+func (m *PDFManipulator) inheritedValue(page pageNode, key string) string {
+	if value := encrypt.Entry(m.objects[page.objNum], key); value != "" {
+		return value
+	}
+	for i := len(page.parents) - 1; i >= 0; i-- {
+		if value := encrypt.Entry(m.objects[page.parents[i]], key); value != "" {
+			return value
+		}
+	}
+	return ""
+}
+
+// getPage returns the page with the given number (1-based)
+func (m *PDFManipulator) getPage(pageNumber int) (pageNode, error) {
+	pages, err := m.pages()
+	if err != nil {
+		return pageNode{}, err
+	}
+	if pageNumber < 1 || pageNumber > len(pages) {
+		return pageNode{}, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pages))
+	}
+	return pages[pageNumber-1], nil
+}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..165d24f 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -14,22 +14,14 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
 	}
 
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	page, err := m.getPage(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
+	pageObjNum := page.objNum
 
-	// Get page object
-	pageObj, ok := m.objects[pageObjNum]
-	if !ok {
-		return fmt.Errorf("page object %d not found", pageObjNum)
-	}
-
-	pageStr := string(pageObj)
-
-	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
+	// Get current rotation, which the page may inherit
+	currentRotStr := m.inheritedValue(page, "/Rotate")
 	currentRot := 0
 	if currentRotStr != "" {
 		var parseErr error
@@ -46,7 +38,7 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	}
 
 	// Update the /Rotate field
-	updatedPageStr := setDictValue(pageStr, "/Rotate", fmt.Sprintf("%d", newRot))
+	updatedPageStr := setDictValue(string(m.objects[pageObjNum]), "/Rotate", fmt.Sprintf("%d", newRot))
 	m.objects[pageObjNum] = []byte(updatedPageStr)
 
 	if m.verbose {
@@ -74,91 +66,16 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 	return nil
 }
 
-// getPageObjectNumber gets the object number for a given page (1-based)
-func (m *PDFManipulator) getPageObjectNumber(pageNumber int) (int, error) {
-	pageObjNums, err := m.getAllPageObjectNumbers()
-	if err != nil {
-		return 0, err
-	}
-
-	if pageNumber < 1 || pageNumber > len(pageObjNums) {
-		return 0, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
-	}
-
-	return pageObjNums[pageNumber-1], nil
-}
-
-// getAllPageObjectNumbers recursively gets all page object numbers from the pages tree
+// getAllPageObjectNumbers gets all page object numbers from the pages tree
 func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return m.extractPageObjectNumbers(pagesObjNum)
-}
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	pages, err := m.pages()
 	if err != nil {
 		return nil, err
 	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
+	pageObjNums := make([]int, 0, len(pages))
+	for _, page := range pages {
+		pageObjNums = append(pageObjNums, page.objNum)
 	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
 	return pageObjNums, nil
 }
 
diff --git a/core/manipulate/splitting.go b/core/manipulate/splitting.go
index dea34ef..703d68a 100644
--- a/core/manipulate/splitting.go
+++ b/core/manipulate/splitting.go
@@ -89,11 +89,9 @@ func SplitPDFByPageCount(pdfBytes []byte, pagesPerPDF int, password []byte, verb
 
 	// Create ranges
 	var ranges []PageRange
+	pagesPerPDF = min(pagesPerPDF, totalPages)
 	for start := 1; start <= totalPages; start += pagesPerPDF {
-		end := start + pagesPerPDF - 1
-		if end > totalPages {
-			end = totalPages
-		}
+		end := min(start+pagesPerPDF-1, totalPages)
 		ranges = append(ranges, PageRange{Start: start, End: end})
 	}
 
-- 
2.43.0


From d048033050dfa1594b72d5efe44f4df84d111665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:54 +0000
Subject: [PATCH 36/58] fix: images and annotations are read per page with
 their own data, in the same order in every run

---
 content/extract/annotations.go                |  27 +-
 content/extract/dict_helpers.go               |  17 ++
 content/extract/extract.go                    |  48 +--
 content/extract/images.go                     | 286 ++++++++----------
 content/extract/pages.go                      |   3 +
 content/extract/resources.go                  |  98 ++----
 .../tests/resources/test_complex_text.pdf     | Bin 689 -> 713 bytes
 .../tests/resources/test_extraction.pdf       | Bin 718 -> 742 bytes
 .../extract/tests/resources/test_graphics.pdf | Bin 568 -> 567 bytes
 .../tests/resources/test_multiple_content.pdf | Bin 645 -> 667 bytes
 10 files changed, 224 insertions(+), 255 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index 63252e7..b98c277 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -2,26 +2,35 @@ package extract
 
 import (
 	"fmt"
+	"regexp"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// arrayObjectPattern matches an object that is an array of references
+var arrayObjectPattern = regexp.MustCompile(`^\s*(?:\d+\s+\d+\s+obj)?\s*(\[[^\[\]<>()]*\])`)
+
 // extractAnnotations extracts annotations from a page's /Annots array
 func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
 	var annotations []types.Annotation
 
-	// Parse annotations array (e.g., "[5 0 R 6 0 R]")
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 {
-		// Try as single reference
-		if annotRefs = []string{annotsStr}; len(annotsStr) > 0 {
-			// Already set
-		} else {
-			return annotations
+	// The entry is an array of references (e.g., "[5 0 R 6 0 R]"), or a reference to such an array or
+	// to a single annotation
+	if !strings.HasPrefix(annotsStr, "[") {
+		if objNum, err := parseObjectRef(annotsStr); err == nil {
+			if obj, err := pdf.GetObject(objNum); err == nil {
+				if array := arrayObjectPattern.FindSubmatch(obj); array != nil {
+					annotsStr = string(array[1])
+				}
+			}
 		}
 	}
+	annotRefs := parseObjectRefArray(annotsStr)
+	if len(annotRefs) == 0 && !strings.HasPrefix(annotsStr, "[") {
+		annotRefs = []string{annotsStr}
+	}
 
 	for _, annotRef := range annotRefs {
 		annotObjNum, err := parseObjectRef(annotRef)
@@ -87,7 +96,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type = types.AnnotationTypeLine
 	case "/Polygon":
 		annotation.Type = types.AnnotationTypePolygon
-	case "/Polyline":
+	case "/Polyline", "/PolyLine":
 		annotation.Type = types.AnnotationTypePolyline
 	case "/Ink":
 		annotation.Type = types.AnnotationTypeInk
diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index f893527..bacd141 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -5,6 +5,7 @@ import (
 	"unicode/utf16"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // dictEntries returns the top-level entries of the dictionary in an object's text. The text
@@ -47,6 +48,22 @@ func extractInlineDict(dictStr, key string) string {
 	return strings.TrimSuffix(value[2:], ">>")
 }
 
+// dictionaryOf returns the text of a dictionary entry that is a dictionary or a reference to one
+func dictionaryOf(dictStr, key string, pdf *parse.PDF) string {
+	if value := extractInlineDict(dictStr, key); value != "" {
+		return value
+	}
+	objNum, err := parseObjectRef(extractDictValue(dictStr, key))
+	if err != nil {
+		return ""
+	}
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return ""
+	}
+	return string(obj)
+}
+
 // decodeTextString decodes a text string: UTF-16BE if it starts with a byte order mark, else as it is
 func decodeTextString(text []byte) string {
 	if len(text) < 2 || text[0] != 0xFE || text[1] != 0xFF {
diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..d4f72ec 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -6,6 +6,7 @@ package extract
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -71,39 +72,40 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	}
 	doc.Annotations = allAnnotations
 
-	// Extract images (collect unique images from all pages)
-	imageMap := make(map[string]types.Image)
+	// Extract images and fonts (collect unique names from all pages)
+	seenImages := make(map[string]bool)
+	seenFonts := make(map[string]bool)
 	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Images != nil {
-			for id, img := range page.Resources.Images {
-				if _, exists := imageMap[id]; !exists {
-					imageMap[id] = img
-				}
+		if page.Resources == nil {
+			continue
+		}
+		for _, id := range sortedKeys(page.Resources.Images) {
+			if !seenImages[id] {
+				seenImages[id] = true
+				doc.Images = append(doc.Images, page.Resources.Images[id])
 			}
 		}
-	}
-	for _, img := range imageMap {
-		doc.Images = append(doc.Images, img)
-	}
-
-	// Extract fonts (collect unique fonts from all pages)
-	fontMap := make(map[string]types.FontInfo)
-	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Fonts != nil {
-			for id, font := range page.Resources.Fonts {
-				if _, exists := fontMap[id]; !exists {
-					fontMap[id] = font
-				}
+		for _, id := range sortedKeys(page.Resources.Fonts) {
+			if !seenFonts[id] {
+				seenFonts[id] = true
+				doc.Fonts = append(doc.Fonts, page.Resources.Fonts[id])
 			}
 		}
 	}
-	for _, font := range fontMap {
-		doc.Fonts = append(doc.Fonts, font)
-	}
 
 	return doc, nil
 }
 
+// sortedKeys returns the keys of a map in order
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // ExtractContentToJSON extracts content and returns as JSON string
 func ExtractContentToJSON(pdfBytes []byte, password []byte, verbose bool) (string, error) {
 	doc, err := ExtractContent(pdfBytes, password, verbose)
diff --git a/content/extract/images.go b/content/extract/images.go
index 555c913..a0ab38b 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -1,10 +1,9 @@
 package extract
 
 import (
-	"bytes"
 	"encoding/base64"
 	"fmt"
-	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -72,204 +71,177 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		}
 	}
 
-	// Extract stream data - handle binary data properly
-	streamIdx := bytes.Index(imageObjBytes, []byte("stream"))
-	if streamIdx != -1 {
-		// Get /Length from dictionary for exact stream size
-		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-		lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-		var streamLength int
-		if lengthMatch != nil {
-			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-		}
-
-		// Find actual stream data (after "stream\r\n" or "stream\n")
-		streamDataStart := streamIdx + 6 // len("stream")
-		// Skip exactly one EOL per PDF spec
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\n' {
-			streamDataStart++
+	// Apply the stream's filters, up to one that is an image format of its own
+	_, data, err := readStream(imageObjNum, pdf)
+	if err != nil {
+		return image, nil
+	}
+	decoded := data
+	for _, name := range filterNames(filter) {
+		if name == "/DCTDecode" || name == "/DCT" || name == "/JPXDecode" || name == "/CCITTFaxDecode" || name == "/CCF" || name == "/JBIG2Decode" {
+			break
 		}
-
-		// Use /Length if available, otherwise find endstream
-		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
-			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
-		} else {
-			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-			if endstreamIdx != -1 {
-				streamData = imageObjBytes[streamDataStart : streamDataStart+endstreamIdx]
+		if decoded, err = parse.DecodeFilter(decoded, name); err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to decompress image %d: %v\n", imageObjNum, err)
 			}
+			decoded = data
+			break
 		}
+	}
 
-		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
-					}
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
-				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
-			}
-
-			// Set base64 encoded version for JSON serialization
-			if len(image.Data) > 0 {
-				image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
-			}
-		}
+	// Set base64 encoded version for JSON serialization
+	if len(decoded) > 0 {
+		image.Data = decoded
+		image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
 	}
 
 	return image, nil
 }
 
-// ExtractAllImages extracts all images from a PDF document with binary data
+// ExtractAllImages extracts all images from a PDF document with binary data. An image that several
+// pages use is extracted once, under the name of its first use.
 func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.Image, error) {
-	// Parse PDF
+	allImages := make([]types.Image, 0)
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
 		Password: password,
 		Verbose:  verbose,
 	})
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse PDF: %w", err)
+		return allImages, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	// First get metadata to find all images
-	doc, err := ExtractContent(pdfBytes, password, verbose)
+	pageImages, err := pageImageObjects(pdf, verbose)
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to extract content: %w", err)
+		return allImages, err
 	}
+	extracted := make(map[int]bool)
+	for _, objNums := range pageImages {
+		names := make([]string, 0, len(objNums))
+		for name := range objNums {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			if extracted[objNums[name]] {
+				continue
+			}
+			extracted[objNums[name]] = true
+			if image := namedImage(name, objNums[name], pdf, verbose); image != nil {
+				allImages = append(allImages, *image)
+			}
+		}
+	}
+	return allImages, nil
+}
 
-	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool)      // Track unique images by ID
-	imageObjNumMap := make(map[string]int) // Map image name to object number
+// ExtractPageImages extracts the images of each page with binary data, by their names in the page's resources
+func ExtractPageImages(pdfBytes []byte, password []byte, verbose bool) ([]map[string]types.Image, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+	pageImages, err := pageImageObjects(pdf, verbose)
+	if err != nil {
+		return nil, err
+	}
+	extracted := make(map[int]*types.Image)
+	var pages []map[string]types.Image
+	for _, objNums := range pageImages {
+		images := make(map[string]types.Image)
+		for name, objNum := range objNums {
+			if _, ok := extracted[objNum]; !ok {
+				extracted[objNum] = namedImage(name, objNum, pdf, verbose)
+			}
+			if extracted[objNum] != nil {
+				image := *extracted[objNum]
+				image.ID = "/" + name
+				images[name] = image
+			}
+		}
+		pages = append(pages, images)
+	}
+	return pages, nil
+}
 
-	// Collect image object numbers by re-parsing Resources from pages
-	// We need to get the actual page object numbers to extract Resources
+// namedImage extracts an image and gives it its resource name, or returns nil if it cannot be read
+func namedImage(name string, objNum int, pdf *parse.PDF, verbose bool) *types.Image {
+	image, err := extractImageData(objNum, pdf, verbose)
+	if err != nil {
+		if verbose {
+			fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
+		}
+		return nil
+	}
+	image.ID = "/" + name
+	return image
+}
+
+// pageImageObjects returns, for each page, the object numbers of its images by resource name
+func pageImageObjects(pdf *parse.PDF, verbose bool) ([]map[string]int, error) {
 	trailer := pdf.Trailer()
 	if trailer == nil || trailer.RootRef == "" {
-		return []types.Image{}, fmt.Errorf("no root reference found")
+		return nil, fmt.Errorf("no root reference found")
 	}
-
 	rootObjNum, err := parseObjectRef(trailer.RootRef)
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse root reference: %w", err)
+		return nil, fmt.Errorf("failed to parse root reference: %w", err)
 	}
-
 	catalogObj, err := pdf.GetObject(rootObjNum)
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get catalog: %w", err)
+		return nil, fmt.Errorf("failed to get catalog: %w", err)
 	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
+	pagesRef := extractDictValue(string(catalogObj), "/Pages")
 	if pagesRef == "" {
-		return []types.Image{}, fmt.Errorf("no /Pages reference in catalog")
+		return nil, fmt.Errorf("no /Pages reference in catalog")
 	}
-
 	pagesObjNum, err := parseObjectRef(pagesRef)
 	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
+		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, make(map[int]bool), verbose)
-
-	// For each page, extract Resources and get image object numbers
-	for i, pageObjNum := range pageObjNums {
-		if i >= len(doc.Pages) {
-			break
-		}
-
-		pageObj, err := pdf.GetObject(pageObjNum)
-		if err != nil {
-			continue
-		}
-
-		pageStr := string(pageObj)
-		// Extract Resources
-		resourcesRef := extractDictValue(pageStr, "/Resources")
-		var resourcesStr string
-		if resourcesRef != "" {
-			resourcesObjNum, err := parseObjectRef(resourcesRef)
-			if err == nil {
-				resourcesObj, err := pdf.GetObject(resourcesObjNum)
-				if err == nil {
-					resourcesStr = string(resourcesObj)
-				}
-			}
-		} else {
-			// Inline Resources
-			resourcesStr = extractInlineDict(pageStr, "/Resources")
-		}
-
-		if resourcesStr != "" {
-			// Extract XObject object numbers
-			_, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for name, objNum := range objNums {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					imageObjNumMap[name] = objNum
-					imageMap[imageID] = true
-				}
+	var result []map[string]int
+	for _, resources := range pageResources(pdf, pagesObjNum, "", make(map[int]bool)) {
+		images := make(map[string]int)
+		xobjects, objNums := extractXObjectsDictWithObjNums(resources, pdf, verbose)
+		for name, xobject := range xobjects {
+			if xobject.Subtype == "/Image" {
+				images[name] = objNums[name]
 			}
 		}
+		result = append(result, images)
 	}
+	return result, nil
+}
 
-	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
-		image, err := extractImageData(objNum, pdf, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
-			}
-			// Fall back to metadata-only image from Resources
-			for _, page := range doc.Pages {
-				if page.Resources != nil {
-					if img, ok := page.Resources.Images[name]; ok {
-						allImages = append(allImages, img)
-						break
-					}
-				}
-			}
-		} else {
-			allImages = append(allImages, *image)
-		}
+// pageResources returns the resources of the pages below a page tree node, in order, where inherited
+// has those of the node's ancestors. Inner nodes are read only once.
+func pageResources(pdf *parse.PDF, objNum int, inherited string, visited map[int]bool) []string {
+	node, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil
 	}
-
-	// Also add any images we found but couldn't get object numbers for (metadata only)
-	for _, page := range doc.Pages {
-		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					allImages = append(allImages, image)
-					imageMap[imageID] = true
-				}
-			}
+	nodeStr := string(node)
+	if resources := dictionaryOf(nodeStr, "/Resources", pdf); resources != "" {
+		inherited = resources
+	}
+	if extractDictValue(nodeStr, "/Type") == "/Page" {
+		return []string{inherited}
+	}
+	if visited[objNum] {
+		return nil
+	}
+	visited[objNum] = true
+	var result []string
+	for _, kidRef := range parseObjectRefArray(extractDictValue(nodeStr, "/Kids")) {
+		if kidObjNum, err := parseObjectRef(kidRef); err == nil {
+			result = append(result, pageResources(pdf, kidObjNum, inherited, visited)...)
 		}
 	}
-
-	return allImages, nil
+	return result
 }
 
 // documentPageObjectNumbers returns the page object numbers of the document in order
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 2618657..5eedf0f 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -61,6 +61,9 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	// Update page numbers
 	for i := range pages {
 		pages[i].PageNumber = i + 1
+		for j := range pages[i].Annotations {
+			pages[i].Annotations[j].PageNumber = i + 1
+		}
 	}
 
 	return pages, nil
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 116a021..966c58b 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -213,38 +213,7 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 
 // extractXObjectsDict extracts XObject information from /Resources/XObject dictionary
 func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
-	xobjects := make(map[string]types.XObject)
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 == nil {
-			return xobjects
-		}
-		xobjMatch = xobjMatch2
-	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
-	}
-
+	xobjects, _ := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
 	return xobjects
 }
 
@@ -253,29 +222,12 @@ func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose
 	xobjects := make(map[string]types.XObject)
 	objNums := make(map[string]int) // image name -> object number
 
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 != nil {
-			xobjMatch = xobjMatch2
-		} else {
-			return xobjects, objNums
+	for key, value := range dictEntries(dictionaryOf(resourcesStr, "/XObject", pdf)) {
+		xobjObjNum, err := parseObjectRef(string(value))
+		if err != nil {
+			continue
 		}
-	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		xobjName := strings.TrimPrefix(key, "/")
 		objNums[xobjName] = xobjObjNum
 
 		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
@@ -542,7 +494,7 @@ func extractDifferencesArray(str string) string {
 
 // extractStreamData extracts and decompresses stream data from a stream object
 func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
-	obj, err := pdf.GetObject(objNum)
+	dict, data, err := readStream(objNum, pdf)
 	if err != nil {
 		if verbose {
 			fmt.Printf("Warning: failed to get stream object %d: %v\n", objNum, err)
@@ -550,28 +502,42 @@ func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 		return ""
 	}
 
-	// Find the stream's dictionary and data
-	object := []byte(fmt.Sprintf("%d 0 obj\n%s\nendobj", objNum, obj))
-	raw, err := parse.ParseRawObject(object, objNum, 0, 0)
-	if err != nil || !raw.IsStream {
-		return ""
-	}
-
 	// Apply the stream's filters
-	filter := extractDictValue(string(raw.DictRaw), "/Filter")
-	decoded := raw.StreamRaw
-	for _, name := range strings.Fields(strings.ReplaceAll(strings.Trim(filter, "[]"), "/", " /")) {
+	decoded := data
+	for _, name := range filterNames(extractDictValue(dict, "/Filter")) {
 		if decoded, err = parse.DecodeFilter(decoded, name); err != nil {
 			if verbose {
 				fmt.Printf("Warning: failed to decode stream %d: %v\n", objNum, err)
 			}
-			return string(raw.StreamRaw)
+			return string(data)
 		}
 	}
 
 	return string(decoded)
 }
 
+// readStream returns the dictionary and the undecoded data of a stream object
+func readStream(objNum int, pdf *parse.PDF) (string, []byte, error) {
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return "", nil, err
+	}
+	object := []byte(fmt.Sprintf("%d 0 obj\n%s\nendobj", objNum, obj))
+	raw, err := parse.ParseRawObject(object, objNum, 0, 0)
+	if err != nil {
+		return "", nil, err
+	}
+	if !raw.IsStream {
+		return "", nil, fmt.Errorf("object %d is not a stream", objNum)
+	}
+	return string(raw.DictRaw), raw.StreamRaw, nil
+}
+
+// filterNames returns the names of a /Filter entry, which is a name or an array of names
+func filterNames(filter string) []string {
+	return strings.Fields(strings.ReplaceAll(strings.Trim(filter, "[]"), "/", " /"))
+}
+
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
 func isStandard14Font(baseFont string) bool {
 	baseFont = strings.TrimPrefix(baseFont, "/")
diff --git a/content/extract/tests/resources/test_complex_text.pdf b/content/extract/tests/resources/test_complex_text.pdf
index 82c858b38159a1a72524e324618124e63bd9b764..11248aec0d751c3fa65e34836c267602afea63ad 100644
GIT binary patch
delta 204
zcmdnUdXja5i=@75UUGg)W?s5}cxIksUU4RjKhY(f(R|_>&%nf>lQGKz!YpGJ&t#o+
z?8Bc$BCIjHPVeMV)Zz`$SfOyo#&|`Ahu-wI{3Or7G}c2JJCuZHED~9l!Fznsq9b0u
ztg*_>th^g8MYIa&>s=SnJHRm6o$<B3p@Ff20SGAMDR6-q1_p+vrWj(z=9ubCEKDaC
RGMRH48*r(ry863u0RUdkKd}G+

delta 179
zcmX@fx{-B)%f#4pMvI9@J%e~3obp|`rf7$oF}F(Z!=J92Tsump7fU)tuxU(DJhM08
z^O=NK#XC)EguT0rv<2J_iq2Hf>AhB<qvf^cO2`FMqkszx+P$G1A0HL*K4fBHVEF%k
zay;W}djoR|1p^RJ$W!0~GYkw2jSVowj7=;t#7xW#CwDTLa~ha&sj9mAyKw;kv{yNE

diff --git a/content/extract/tests/resources/test_extraction.pdf b/content/extract/tests/resources/test_extraction.pdf
index d7241eca3eba6bd6abafffd87fb6695f9c5e5dc3..56048c7422cd8c8790ad8445f410f475d25c3740 100644
GIT binary patch
delta 303
zcmX@d`iymgi=@75UUGg)W?s5}cxIksUU4RjKhY(<-b}&Hj;pw&C^a#ct71+{-@&|Q
z0|A%!zeR6LPu1GB?be~4S)P4?Nt)>_Z5Bomo6Nc9%d1LooXVW%w%Pjg>Ia(zH1-84
zDTVN+6dmyi`jX|b?N-$H#@+jw`p@0|^;Y(3W#^^fkhwk%!W&$!HEt}sy7aQ`^3~n*
zYj#$AagR5hpkXO{<BRSlIf<_a_N}?Gqps$|`i4t??6P(Du^O(O;dt&`Im`NmjW<eJ
z4Vl)a>~GYx&1C=dbZIN|9X5u^DU7e}4GoMH3_w63Pk{@}FfcGQHN_A!F)+dqGc`1s
S+{a|jX==%(s_N?R#svTwiFS1W

delta 278
zcmaFHdX9C1%f#69dUFLkJFeoAqSVA(u8KJ+eZJj?3<TQVf7VXRkB!(hc|&%!*jhPP
z=6T+;uX)^ZFiNW5m$6@G-o5sRGb_{AJ}?*7_?M)l6e6m!>A1@!18v1y+1Ypb<;*1K
z&E5X=y7{WtYc9=RrKh%lbB6Nk0};C(U3)R@@zG;ibIs%a7QO19!k1%pODeLwXIJuk
z@tm03@;9^=Sk$gM{lT>3V>jm$lb`YjvR5R$*wy@^QLOOJ!HoW!4Sy^$AF}i_Ffjc8
yKe>kSwY`D4g@OSHDC8+{ff)t{hQ<aMV#Zk1nOGW3UdCk3X>7`+s_N?R#svUhuW+mY

diff --git a/content/extract/tests/resources/test_graphics.pdf b/content/extract/tests/resources/test_graphics.pdf
index 823856aca677ab3b62e2472af81aeabc027f5480..9d952d68e040b92c72b7b9f3d4be830b17abcf46 100644
GIT binary patch
delta 181
zcmdnNvYll@PQAH;ogG(kNl|KIE?32zls;>|W(OXZ-<Ga^4Q%;3Puac{w1nEZW@PNB
z6G@a#4FCMa#5$Xgf715socx|A2khBBBusD2t8nDIXDD~T`;73Ow>zCqJrVETe?Rfu
zp)WQIE3Fe;FTZ)m=ewEng~i-wyNvwXUQW0)X;X<*JD+BF=QECct&*Az56l@Ret9oy
gs$c*D3V8}#V1|K#v8m<cAB+|pCS0njuKsRZ0M`FV@&Et;

delta 182
zcmdnavV&zpPQ8VKogG(kNl|KIE?32zoIY#5Lk>JHzb#qSJJQr69<hCS!XY@n$t1I=
zwneOZYqpks@4VyBN)#(!9slQ|s9tC3F!2WeH*2|or_4*4b{FnGlsjK~iq`#zn*R>>
z0~TeJStlIMNiO3%eM}|6^>oe^-MJgLEl<%jeR<w?>G~;l=QnUZYGs|zz`*eT|HRMl
iMa>ipKtLf+feXwqFfcYVnEaj5g2R+cRn^tsjSB#H{z>rw

diff --git a/content/extract/tests/resources/test_multiple_content.pdf b/content/extract/tests/resources/test_multiple_content.pdf
index 4d3a056dcfa5ac46036df7b3af50af01b751db4b..3f794e9ebe3f1f969ddbaa5689128120d28df001 100644
GIT binary patch
delta 164
zcmZo=oy|JIMN;22FF8LYGcR2~JTuQRuQ(INpXid#XgG0=v!=3E=#+D*9G98WXDqtt
zx-up+rcGdDk)HAlBMar}r#Y61oICN5>lqUd!(?g3*Y<`6#tH@?ppd7)1!fo+7@C@5
ch#4E1V~Cj;TTXUmGUv1~;Zjv~^>^a}0H1>|Z2$lO

delta 141
zcmbQu+R8e?WnyePqshdh&N@s}wY;7iwPZFL`&@jnC}f?9o-@bpIj1?6@tiyH)Tl|b
z)wpO!(@q9P28RFtCmS-pwl^@hP%r=ig**i=FvGyW(AWS&%-FybL(Ig`d~!6CIj5Ns
Lm#V6(zZ(|-c<L!9

-- 
2.43.0


From 286813e2e31dacc0953756777887dd33a5f3662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:54 +0000
Subject: [PATCH 37/58] fix: comparison matches equal items one to one,
 compares what they show and honours its options everywhere

---
 core/compare/compare.go    | 266 ++++++++++++++++++++-----------------
 core/compare/myers_diff.go |  15 +--
 core/compare/text_diff.go  |  17 ++-
 3 files changed, 159 insertions(+), 139 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..5db47a6 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"regexp"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
@@ -204,7 +206,9 @@ func DefaultCompareOptions() CompareOptions {
 
 // ComparePDFs compares two PDFs and returns a detailed comparison result
 func ComparePDFs(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) (*ComparisonResult, error) {
-	return ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes, password1, password2, DefaultCompareOptions())
+	opts := DefaultCompareOptions()
+	opts.Verbose = verbose
+	return ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes, password1, password2, opts)
 }
 
 // ComparePDFsWithOptions compares two PDFs with custom options
@@ -242,7 +246,9 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 	}
 
 	// Compare pages
-	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, pdf1Bytes, pdf2Bytes)
+	images1 := pageImages(pdf1Bytes, password1, doc1.Pages, opts)
+	images2 := pageImages(pdf2Bytes, password2, doc2.Pages, opts)
+	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, images1, images2)
 	if len(pageDiffs) > 0 {
 		result.PageDiffs = pageDiffs
 		result.Summary.PagesChanged = true
@@ -371,8 +377,22 @@ func compareStructure(doc1, doc2 *types.ContentDocument) *StructureDifference {
 	return diff
 }
 
+// pageImages returns the images of each page with their binary data, by resource name, or nothing if
+// no page has images
+func pageImages(pdfBytes, password []byte, pages []types.Page, opts CompareOptions) []map[string]types.Image {
+	for _, page := range pages {
+		if len(page.Images) > 0 {
+			if images, err := extract.ExtractPageImages(pdfBytes, password, opts.Verbose); err == nil && len(images) == len(pages) {
+				return images
+			}
+			break
+		}
+	}
+	return make([]map[string]types.Image, len(pages))
+}
+
 // comparePages compares pages between two documents
-func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) []PageDifference {
+func comparePages(pages1, pages2 []types.Page, opts CompareOptions, images1, images2 []map[string]types.Image) []PageDifference {
 	var diffs []PageDifference
 
 	// Compare up to the minimum page count
@@ -382,7 +402,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	}
 
 	for i := 0; i < minPages; i++ {
-		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pdf1Bytes, pdf2Bytes)
+		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, images1[i], images2[i])
 		if pageDiff != nil && (len(pageDiff.Differences) > 0 || pageDiff.TextDiff != nil || pageDiff.GraphicDiff != nil || pageDiff.ImageDiff != nil || pageDiff.AnnotationDiff != nil) {
 			diffs = append(diffs, *pageDiff)
 		}
@@ -419,7 +439,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 }
 
 // compareSinglePage compares a single page between two documents
-func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) *PageDifference {
+func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, images1, images2 map[string]types.Image) *PageDifference {
 	diff := &PageDifference{
 		PageNumber:  pageNum,
 		Differences: []Difference{},
@@ -462,7 +482,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare graphics
-	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics)
+	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics, opts.GraphicTolerance)
 	if graphicDiff != nil && (len(graphicDiff.Added) > 0 || len(graphicDiff.Removed) > 0) {
 		diff.GraphicDiff = graphicDiff
 		diff.Differences = append(diff.Differences, Difference{
@@ -474,7 +494,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare images (with binary data comparison)
-	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, pdf1Bytes, pdf2Bytes)
+	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, images1, images2)
 	if imageDiff != nil && (len(imageDiff.Added) > 0 || len(imageDiff.Removed) > 0 || len(imageDiff.Modified) > 0 || len(imageDiff.Moved) > 0) {
 		diff.ImageDiff = imageDiff
 		desc := fmt.Sprintf("Images changed: %d added, %d removed, %d modified", len(imageDiff.Added), len(imageDiff.Removed), len(imageDiff.Modified))
@@ -532,7 +552,7 @@ func textElementsEqual(t1, t2 types.TextElement) bool {
 
 // positionsMatch checks if two positions match within tolerance
 func positionsMatch(x1, y1, x2, y2, tolerance float64) bool {
-	return abs(x1-x2) < tolerance && abs(y1-y2) < tolerance
+	return abs(x1-x2) <= tolerance && abs(y1-y2) <= tolerance
 }
 
 // abs returns absolute value
@@ -544,32 +564,31 @@ func abs(x float64) float64 {
 }
 
 // compareGraphics compares graphics between two pages
-func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
+func compareGraphics(g1, g2 []types.Graphic, tolerance float64) *GraphicDiff {
 	diff := &GraphicDiff{
 		Added:   []types.Graphic{},
 		Removed: []types.Graphic{},
 	}
 
-	// Simple comparison: compare by type and approximate position
-	// More sophisticated matching could use shape matching
-	g1Map := make(map[string]types.Graphic)
-	for _, g := range g1 {
-		key := graphicKey(g)
-		g1Map[key] = g
-	}
-
+	// Each graphic matches at most one of the other page
+	g1Matched := make(map[int]bool)
 	for _, g := range g2 {
-		key := graphicKey(g)
-		if _, exists := g1Map[key]; !exists {
+		matched := false
+		for i, old := range g1 {
+			if !g1Matched[i] && graphicsMatch(old, g, tolerance) {
+				g1Matched[i] = true
+				matched = true
+				break
+			}
+		}
+		if !matched {
 			diff.Added = append(diff.Added, g)
-		} else {
-			delete(g1Map, key)
 		}
 	}
-
-	// Remaining in g1Map are removed
-	for _, g := range g1Map {
-		diff.Removed = append(diff.Removed, g)
+	for i, g := range g1 {
+		if !g1Matched[i] {
+			diff.Removed = append(diff.Removed, g)
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -579,17 +598,26 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 	return diff
 }
 
-// graphicKey generates a key for a graphic element for comparison
-func graphicKey(g types.Graphic) string {
-	// Use type and bounding box for key
-	if g.BoundingBox != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", g.Type, g.BoundingBox.LowerX, g.BoundingBox.LowerY, g.BoundingBox.UpperX, g.BoundingBox.UpperY)
+// graphicsMatch reports whether two graphics are the same, with their edges within tolerance
+func graphicsMatch(g1, g2 types.Graphic, tolerance float64) bool {
+	if !rectanglesMatch(g1.BoundingBox, g2.BoundingBox, tolerance) {
+		return false
+	}
+	g1.BoundingBox, g2.BoundingBox = nil, nil
+	return reflect.DeepEqual(g1, g2)
+}
+
+// rectanglesMatch reports whether the edges of two rectangles are within tolerance
+func rectanglesMatch(r1, r2 *types.Rectangle, tolerance float64) bool {
+	if r1 == nil || r2 == nil {
+		return r1 == r2
 	}
-	return fmt.Sprintf("%s", g.Type)
+	return positionsMatch(r1.LowerX, r1.LowerY, r2.LowerX, r2.LowerY, tolerance) &&
+		positionsMatch(r1.UpperX, r1.UpperY, r2.UpperX, r2.UpperY, tolerance)
 }
 
 // compareImagesWithBinary compares images between two pages, including binary data
-func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, pdf1Bytes, pdf2Bytes []byte) *ImageDiff {
+func compareImagesWithBinary(img1, img2 []types.ImageRef, images1, images2 map[string]types.Image) *ImageDiff {
 	diff := &ImageDiff{
 		Added:    []types.ImageRef{},
 		Removed:  []types.ImageRef{},
@@ -597,38 +625,16 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 		Moved:    []ImageModification{},
 	}
 
-	// Extract full image data for all images
-	images1Map := make(map[string]*types.Image) // Map ImageID -> full Image data
+	// Full image data by image ID
+	images1Map := make(map[string]*types.Image)
 	images2Map := make(map[string]*types.Image)
-
-	// Extract images from PDF1
-	if resources1 != nil {
-		for name, img := range resources1.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
-			if err == nil {
-				images1Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images1Map[imageID] = &img
-			}
-		}
+	for name := range images1 {
+		img := images1[name]
+		images1Map["/"+name] = &img
 	}
-
-	// Extract images from PDF2
-	if resources2 != nil {
-		for name, img := range resources2.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
-			if err == nil {
-				images2Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images2Map[imageID] = &img
-			}
-		}
+	for name := range images2 {
+		img := images2[name]
+		images2Map["/"+name] = &img
 	}
 
 	// Compare by image ID and position (with tolerance for position)
@@ -649,13 +655,13 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 				img1Data := images1Map[imgRef1.ImageID]
 				img2Data := images2Map[imgRef2.ImageID]
 				if img1Data != nil && img2Data != nil {
-					if imagesEqual(img1Data, img2Data) {
+					if imagesEqual(img1Data, img2Data) && positionsMatch(imgRef1.Width, imgRef1.Height, imgRef2.Width, imgRef2.Height, 1.0) {
 						// Exact match including binary
 						img1Matched[i1] = true
 						img2Matched[i2] = true
 						break
 					} else {
-						// Same ID/position but different binary - mark as modified
+						// Same ID/position but different binary or size - mark as modified
 						diff.Modified = append(diff.Modified, ImageModification{
 							Old:      imgRef1,
 							New:      imgRef2,
@@ -733,33 +739,6 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	return diff
 }
 
-// getImageWithBinary extracts full image data with binary from PDF
-func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Image) (*types.Image, error) {
-	// If metadata image already has data, use it
-	if metadataImg != nil && len(metadataImg.Data) > 0 {
-		return metadataImg, nil
-	}
-
-	// Otherwise, extract all images and find the one we need
-	allImages, err := extract.ExtractAllImages(pdfBytes, nil, false)
-	if err != nil {
-		return nil, err
-	}
-
-	// Find image by ID
-	for _, img := range allImages {
-		if img.ID == imageID {
-			return &img, nil
-		}
-	}
-
-	// Not found - return metadata-only image
-	if metadataImg != nil {
-		return metadataImg, nil
-	}
-	return nil, fmt.Errorf("image %s not found", imageID)
-}
-
 // imagesEqual compares two images for binary equality
 func imagesEqual(img1, img2 *types.Image) bool {
 	if img1 == nil || img2 == nil {
@@ -773,7 +752,7 @@ func imagesEqual(img1, img2 *types.Image) bool {
 	if img1.Format != img2.Format {
 		return false
 	}
-	if img1.ColorSpace != img2.ColorSpace {
+	if img1.ColorSpace != img2.ColorSpace || img1.BitsPerComponent != img2.BitsPerComponent {
 		return false
 	}
 
@@ -797,25 +776,25 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 		Removed: []types.Annotation{},
 	}
 
-	// Compare by type and position
-	a1Map := make(map[string]types.Annotation)
-	for _, a := range a1 {
-		key := annotationKey(a)
-		a1Map[key] = a
-	}
-
+	// Each annotation matches at most one of the other page
+	a1Matched := make(map[int]bool)
 	for _, a := range a2 {
-		key := annotationKey(a)
-		if _, exists := a1Map[key]; !exists {
+		matched := false
+		for i, old := range a1 {
+			if !a1Matched[i] && annotationsMatch(old, a) {
+				a1Matched[i] = true
+				matched = true
+				break
+			}
+		}
+		if !matched {
 			diff.Added = append(diff.Added, a)
-		} else {
-			delete(a1Map, key)
 		}
 	}
-
-	// Remaining in a1Map are removed
-	for _, a := range a1Map {
-		diff.Removed = append(diff.Removed, a)
+	for i, a := range a1 {
+		if !a1Matched[i] {
+			diff.Removed = append(diff.Removed, a)
+		}
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -825,12 +804,15 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	return diff
 }
 
-// annotationKey generates a key for an annotation for comparison
-func annotationKey(a types.Annotation) string {
-	if a.Rect != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", a.Type, a.Rect.LowerX, a.Rect.LowerY, a.Rect.UpperX, a.Rect.UpperY)
+// annotationsMatch reports whether two annotations are the same, whatever their object numbers
+func annotationsMatch(a1, a2 types.Annotation) bool {
+	if !rectanglesMatch(a1.Rect, a2.Rect, 0.1) {
+		return false
 	}
-	return fmt.Sprintf("%s", a.Type)
+	a1.ID, a2.ID = "", ""
+	a1.Rect, a2.Rect = nil, nil
+	a1.Destination, a2.Destination = destinationView(a1.Destination), destinationView(a2.Destination)
+	return reflect.DeepEqual(a1, a2)
 }
 
 // compareBookmarks compares bookmarks between two documents
@@ -846,7 +828,7 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	}
 
 	// Simple comparison - could be more sophisticated
-	if !reflect.DeepEqual(b1, b2) {
+	if !bookmarksEqual(b1, b2) {
 		return &Difference{
 			Type:        DifferenceTypeBookmark,
 			Category:    "modified",
@@ -857,6 +839,33 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	return nil
 }
 
+// bookmarksEqual reports whether two bookmark lists are the same, whatever the object numbers of the pages
+func bookmarksEqual(b1, b2 []types.Bookmark) bool {
+	if len(b1) != len(b2) {
+		return false
+	}
+	for i := range b1 {
+		old, new := b1[i], b2[i]
+		if !bookmarksEqual(old.Children, new.Children) {
+			return false
+		}
+		old.Children, new.Children = nil, nil
+		old.Destination, new.Destination = destinationView(old.Destination), destinationView(new.Destination)
+		if !reflect.DeepEqual(old, new) {
+			return false
+		}
+	}
+	return true
+}
+
+// pageReference matches the reference to the page that starts an explicit destination
+var pageReference = regexp.MustCompile(`^\[\s*\d+\s+\d+\s+R\b`)
+
+// destinationView returns a destination without the object number of its page
+func destinationView(destination string) string {
+	return pageReference.ReplaceAllString(destination, "[")
+}
+
 // compareForms compares form fields between two PDFs
 func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) *FormDiff {
 	diff := &FormDiff{
@@ -878,7 +887,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 != nil && err2 == nil {
 		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
 		values2 := form2.GetValues()
-		for name, value := range values2 {
+		for _, name := range fieldNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -890,7 +900,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 == nil && err2 != nil {
 		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
 		values1 := form1.GetValues()
-		for name, value := range values1 {
+		for _, name := range fieldNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
@@ -908,13 +919,15 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		// If form types differ, treat all fields as changed
 		values1 := form1.GetValues()
 		values2 := form2.GetValues()
-		for name, value := range values1 {
+		for _, name := range fieldNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
 			})
 		}
-		for name, value := range values2 {
+		for _, name := range fieldNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -929,7 +942,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 
 	// Find added, removed, and modified fields
 	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
+	for _, name := range fieldNames(values2) {
+		value := values2[name]
 		if _, exists := values1[name]; !exists {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
@@ -939,7 +953,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
+	for _, name := range fieldNames(values1) {
+		value := values1[name]
 		if _, exists := values2[name]; !exists {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
@@ -949,7 +964,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in both - check if values changed
-	for name, value1 := range values1 {
+	for _, name := range fieldNames(values1) {
+		value1 := values1[name]
 		if value2, exists := values2[name]; exists {
 			if !valuesEqual(value1, value2) {
 				diff.Modified = append(diff.Modified, FormFieldChange{
@@ -969,6 +985,16 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	return diff
 }
 
+// fieldNames returns the names of form values in order
+func fieldNames(values types.FormData) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // valuesEqual compares two form field values for equality
 func valuesEqual(v1, v2 interface{}) bool {
 	if v1 == nil && v2 == nil {
diff --git a/core/compare/myers_diff.go b/core/compare/myers_diff.go
index 47aae87..ff9eb1f 100644
--- a/core/compare/myers_diff.go
+++ b/core/compare/myers_diff.go
@@ -172,17 +172,12 @@ func elementsEqual(t1, t2 types.TextElement, opts CompareOptions) bool {
 		return false
 	}
 
-	// Check font
-	if t1.FontName != t2.FontName {
-		return false
-	}
-
-	// Check size
-	if abs(t1.FontSize-t2.FontSize) >= 0.1 {
-		return false
-	}
+	return fontsEqual(t1, t2)
+}
 
-	return true
+// fontsEqual checks if two text elements have the same font and size
+func fontsEqual(t1, t2 types.TextElement) bool {
+	return t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1
 }
 
 type matchPair struct {
diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index 6444153..c416243 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -35,12 +35,10 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if t1.Text == t2.Text && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
-				if t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1 {
-					text1Matched[i1] = true
-					text2Matched[i2] = true
-					break
-				}
+			if elementsEqual(t1, t2, opts) {
+				text1Matched[i1] = true
+				text2Matched[i2] = true
+				break
 			}
 		}
 	}
@@ -54,7 +52,8 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && t1.Text != t2.Text {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) &&
+				normalizeTextForComparison(t1.Text, opts) != normalizeTextForComparison(t2.Text, opts) {
 				diff.Modified = append(diff.Modified, TextModification{Old: t1, New: t2})
 				text1Matched[i1] = true
 				text2Matched[i2] = true
@@ -302,7 +301,7 @@ func wordLevelDiff(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 				words1 := splitWords(normalizeTextForComparison(t1.Text, opts))
 				words2 := splitWords(normalizeTextForComparison(t2.Text, opts))
 
-				if len(words1) == len(words2) && wordsEqual(words1, words2) {
+				if wordsEqual(words1, words2) && fontsEqual(t1, t2) {
 					// All words match
 					text1Matched[i1] = true
 					text2Matched[i2] = true
@@ -357,7 +356,7 @@ func charLevelDiff(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 				text1Norm := normalizeTextForComparison(t1.Text, opts)
 				text2Norm := normalizeTextForComparison(t2.Text, opts)
 
-				if text1Norm == text2Norm {
+				if text1Norm == text2Norm && fontsEqual(t1, t2) {
 					text1Matched[i1] = true
 					text2Matched[i2] = true
 				} else {
-- 
2.43.0


From 9b9687cc7463a5c4de1e7e2b8b0b67ea876759d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 38/58] fix: the page builder keeps the catalog set by the
 caller and writes documents without pages

---
 core/write/page.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index ec3fa03..84a9fc2 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -2,8 +2,10 @@
 package write
 
 import (
+	"bytes"
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -217,13 +219,24 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	}
 	kids += "]"
 
+	if b.pagesObjNum == 0 {
+		b.pagesObjNum = b.writer.nextObjNum // no page was added
+		b.writer.nextObjNum++
+	}
+
 	// Create/update Pages object
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
-	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
-	b.writer.SetRoot(b.catalogObjNum)
+	// Complete the catalog the caller has set, or create one
+	pagesRef := fmt.Sprintf("%d 0 R", b.pagesObjNum)
+	fmt.Sscanf(b.writer.rootRef, "%d 0 R", &b.catalogObjNum)
+	if catalog := b.writer.objects[b.catalogObjNum]; catalog != nil && bytes.HasPrefix(bytes.TrimSpace(catalog.Content), []byte("<<")) {
+		b.writer.SetObject(b.catalogObjNum, encrypt.SetEntry(catalog.Content, "/Pages", pagesRef))
+	} else {
+		b.catalogObjNum = b.writer.AddObject([]byte("<</Type/Catalog/Pages " + pagesRef + ">>"))
+		b.writer.SetRoot(b.catalogObjNum)
+	}
 
 	return b.writer.Bytes()
 }
-- 
2.43.0


From 87d95f2ae169f4031c89a5bb74039cd34b727e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:38 +0000
Subject: [PATCH 39/58] fix: forms are read from the catalog with whole PDF
 values, and filled in a rebuilt document

---
 core/encrypt/dictionary.go       |  28 +++
 core/manipulate/manipulate.go    |  18 +-
 core/parse/api.go                |   6 +
 core/write/writer.go             |  15 ++
 forms/acroform/actions.go        |  98 ++------
 forms/acroform/appearance.go     |  26 +-
 forms/acroform/extract.go        |  87 ++++---
 forms/acroform/fill_streams.go   | 256 +++++++++----------
 forms/acroform/flatten.go        |  86 +++----
 forms/acroform/integration.go    |  12 +-
 forms/acroform/parser.go         | 405 ++++++++++++++++---------------
 forms/acroform/replace.go        | 108 ++-------
 forms/acroform/stream_finder.go  |  51 ----
 forms/acroform/stream_rebuild.go | 268 +-------------------
 forms/acroform/validation.go     |  12 +-
 forms/acroform/writer.go         | 108 +++------
 16 files changed, 568 insertions(+), 1016 deletions(-)
 delete mode 100644 forms/acroform/stream_finder.go

diff --git a/core/encrypt/dictionary.go b/core/encrypt/dictionary.go
index d42c7c3..58bf04e 100644
--- a/core/encrypt/dictionary.go
+++ b/core/encrypt/dictionary.go
@@ -174,6 +174,34 @@ func Entry(dict []byte, key string) string {
 	return string(dict[start:end])
 }
 
+// RemoveEntry returns the dictionary at the start of dict without one of its top-level entries
+func RemoveEntry(dict []byte, key string) []byte {
+	start, end, ok := findEntry(dict, key)
+	if !ok {
+		return dict
+	}
+	start = bytes.LastIndex(dict[:start], []byte(key))
+	return append(append([]byte{}, dict[:start]...), dict[end:]...)
+}
+
+// ArrayElements returns the elements of the array at the start of array, each a whole value
+func ArrayElements(array []byte) [][]byte {
+	i := skipSpace(array, 0)
+	if i >= len(array) || array[i] != '[' {
+		return nil
+	}
+	var elements [][]byte
+	for i = skipSpace(array, i+1); i < len(array) && array[i] != ']'; i = skipSpace(array, i) {
+		end := min(valueEnd(array, i), len(array))
+		if end <= i {
+			break // malformed
+		}
+		elements = append(elements, array[i:end])
+		i = end
+	}
+	return elements
+}
+
 // findEntry returns where the value of a top-level entry of the dictionary at the start of dict
 // starts and ends
 func findEntry(dict []byte, key string) (start, end int, ok bool) {
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 6754117..c5f7a34 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -29,7 +29,11 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
+	return NewManipulatorOf(pdf, verbose), nil
+}
 
+// NewManipulatorOf creates a new PDF manipulator from a parsed document
+func NewManipulatorOf(pdf *parse.PDF, verbose bool) *PDFManipulator {
 	// Copy all objects from original PDF
 	objects := make(map[int][]byte)
 	for _, objNum := range pdf.Objects() {
@@ -49,10 +53,20 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 
 	return &PDFManipulator{
 		pdf:      pdf,
-		pdfBytes: pdfBytes,
+		pdfBytes: pdf.Raw(),
 		objects:  objects,
 		verbose:  verbose,
-	}, nil
+	}
+}
+
+// GetObject returns the current value of an object, or nil if there is none
+func (m *PDFManipulator) GetObject(objNum int) []byte {
+	return m.objects[objNum]
+}
+
+// SetObject sets the value of an object
+func (m *PDFManipulator) SetObject(objNum int, content []byte) {
+	m.objects[objNum] = objectBody(content)
 }
 
 // objectHeader matches the header of an indirect object
diff --git a/core/parse/api.go b/core/parse/api.go
index 1d2c809..9a4962d 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -38,6 +38,7 @@ type ParseOptions struct {
 	Verbose     bool                    // Enable verbose logging
 	BytePerfect bool                    // Preserve exact bytes for reconstruction
 	Warnings    *types.WarningCollector // Optional warning collector for non-fatal issues
+	Encryption  *types.PDFEncryption    // Encryption that is already unlocked, used instead of the password
 }
 
 // PDF represents a parsed PDF document.
@@ -116,6 +117,11 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
+	if p.opts.Encryption != nil {
+		p.encryption = p.opts.Encryption
+		return nil
+	}
+
 	// Try to parse encryption dictionary
 	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
 	if err != nil {
diff --git a/core/write/writer.go b/core/write/writer.go
index 50d16a8..be815ff 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -423,6 +423,21 @@ func textString(s string) rawValue {
 	return rawValue("(" + escapePDFString(s) + ")")
 }
 
+// TextString returns the PDF text string for s
+func TextString(s string) string {
+	return string(textString(s))
+}
+
+// LiteralString returns the PDF literal string with the bytes of s
+func LiteralString(s string) string {
+	return "(" + escapePDFString(s) + ")"
+}
+
+// Name returns the PDF name with the given text, with or without its slash
+func Name(text string) string {
+	return nameOf(text)
+}
+
 // nameOf returns the name with the given text, with or without its slash
 func nameOf(text string) string {
 	var buf bytes.Buffer
diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..12e5632 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -2,10 +2,10 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -37,15 +37,13 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", write.LiteralString(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", write.TextString(action.JavaScript))
 	case ActionTypeGoTo:
 		if action.Destination != "" {
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
@@ -63,30 +61,12 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("unsupported action type: %s", action.Type)
 	}
 
-	// Add /AA (additional actions) or /A (action) to field
 	// /A is for the main action, /AA is for event-specific actions
-	actionEntry := fmt.Sprintf("/A %s", actionDict)
-
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	}
-
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	if !bytes.HasPrefix(bytes.TrimSpace(fieldData), []byte("<<")) {
+		return fmt.Errorf("field dictionary not found")
+	}
+	w.SetObject(fieldObjNum, encrypt.SetEntry(fieldData, "/A", actionDict))
 	return nil
 }
 
@@ -98,15 +78,13 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", write.LiteralString(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", write.TextString(action.JavaScript))
 	default:
 		return fmt.Errorf("unsupported action type for mouse event: %s", action.Type)
 	}
@@ -126,51 +104,23 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	}
 
 	// Add to /AA dictionary
-	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
-
-	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
-		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
-	} else {
-		// Add /AA before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
+	if !bytes.HasPrefix(bytes.TrimSpace(fieldData), []byte("<<")) {
+		return fmt.Errorf("field dictionary not found")
+	}
+	events := []byte(encrypt.Entry(fieldData, "/AA"))
+	if objNum, _, ok := referenceOf(events); ok {
+		if events, err = w.GetObject(objNum); err != nil {
+			return fmt.Errorf("failed to get additional actions: %w", err)
 		}
-		fieldStr = fieldStr[:dictEnd] + aaEntry + " " + fieldStr[dictEnd:]
+		w.SetObject(objNum, encrypt.SetEntry(events, "/"+actionKey, actionDict))
+		return nil
 	}
+	if len(events) == 0 {
+		events = []byte("<< >>")
+	}
+	events = encrypt.SetEntry(events, "/"+actionKey, actionDict)
 
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, encrypt.SetEntry(fieldData, "/AA", string(events)))
 	return nil
 }
-
-// escapeActionString escapes strings for action dictionaries
-func escapeActionString(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..0201b5b 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -2,10 +2,11 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -189,26 +190,11 @@ func AddAppearanceToField(fieldObjNum, appearanceNum int, w *write.PDFWriter) er
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
-	// Add or update /AP dictionary
-	apEntry := fmt.Sprintf("/AP << /N %d 0 R >>", appearanceNum)
-
-	// Check if /AP already exists
-	if strings.Contains(fieldStr, "/AP") {
-		// Replace existing /AP
-		apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-		fieldStr = apPattern.ReplaceAllString(fieldStr, apEntry)
-	} else {
-		// Add /AP before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + apEntry + " " + fieldStr[dictEnd:]
+	if !bytes.HasPrefix(bytes.TrimSpace(fieldData), []byte("<<")) {
+		return fmt.Errorf("field dictionary not found")
 	}
 
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	// Set the /AP dictionary
+	w.SetObject(fieldObjNum, encrypt.SetEntry(fieldData, "/AP", fmt.Sprintf("<< /N %d 0 R >>", appearanceNum)))
 	return nil
 }
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..a1736c8 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,28 +2,22 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractAcroForm extracts AcroForm structure from a PDF
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
-	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password, Verbose: verbose})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
 	// Parse AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
@@ -41,25 +35,41 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 	return acroForm.ToFormSchema(), nil
 }
 
-// GetFieldValues extracts current values from all AcroForm fields
-func (af *AcroForm) GetFieldValues() map[string]interface{} {
-	values := make(map[string]interface{})
-
-	for _, field := range af.Fields {
-		fieldName := field.GetFullName()
-		if fieldName != "" && field.V != nil {
-			values[fieldName] = field.V
+// eachField calls f for every field and widget of the form, parents first
+func (af *AcroForm) eachField(f func(*Field)) {
+	var walk func(fields []*Field)
+	walk = func(fields []*Field) {
+		for _, field := range fields {
+			f(field)
+			walk(field.Kids)
 		}
+	}
+	walk(af.Fields)
+}
 
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
+// isWidget reports whether f is only a widget of its parent, not a field of its own
+func (f *Field) isWidget() bool {
+	return f.Parent != nil && f.T == ""
+}
+
+// isTerminal reports whether f is a field without fields below it
+func (f *Field) isTerminal() bool {
+	for _, kid := range f.Kids {
+		if !kid.isWidget() {
+			return false
 		}
 	}
+	return !f.isWidget()
+}
 
+// GetFieldValues extracts current values from all AcroForm fields
+func (af *AcroForm) GetFieldValues() map[string]interface{} {
+	values := make(map[string]interface{})
+	af.eachField(func(field *Field) {
+		if name := field.GetFullName(); name != "" && field.V != nil && !field.isWidget() {
+			values[name] = field.V
+		}
+	})
 	return values
 }
 
@@ -67,26 +77,29 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 func (f *Field) GetFullName() string {
 	if f.Parent != nil {
 		parentName := f.Parent.GetFullName()
-		if parentName != "" {
+		if parentName != "" && f.T != "" {
 			return parentName + "." + f.T
 		}
+		if f.T == "" {
+			return parentName
+		}
 	}
 	return f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name, or else by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
-			return field
+	var full, partial *Field
+	af.eachField(func(field *Field) {
+		if full == nil && field.GetFullName() == name {
+			full = field
 		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+		if partial == nil && field.T == name {
+			partial = field
 		}
+	})
+	if full != nil {
+		return full
 	}
-	return nil
+	return partial
 }
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..5652867 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -1,13 +1,16 @@
-// Package acroform provides form filling with object stream support
+// Package acroform provides form filling
 package acroform
 
 import (
 	"bytes"
 	"fmt"
-	"regexp"
+	"sort"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -17,7 +20,6 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("PDF bytes are empty")
 	}
 
-	// Parse PDF to get encryption info and object locations
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
 		Password: password,
 		Verbose:  verbose,
@@ -25,173 +27,145 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
-	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	if acroForm == nil {
-		return nil, fmt.Errorf("AcroForm is nil")
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
 	}
+	sort.Strings(names)
 
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
-
-	for fieldName, value := range formData {
-		field := acroForm.FindFieldByName(fieldName)
+	document := manipulate.NewManipulatorOf(pdf, verbose)
+	filled := 0
+	for _, name := range names {
+		field := acroForm.FindFieldByName(name)
 		if field == nil {
 			if verbose {
-				fmt.Printf("Warning: Field '%s' not found, skipping\n", fieldName)
+				fmt.Printf("Warning: Field '%s' not found, skipping\n", name)
 			}
 			continue
 		}
-
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-			}
-			continue
+		if err := fillField(pdf, document, field, formData[name]); err != nil {
+			return nil, fmt.Errorf("failed to fill field '%s': %w", name, err)
 		}
-
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
+		filled++
+		if verbose {
+			fmt.Printf("Filled field '%s' with value '%v'\n", name, formData[name])
 		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
+	}
+	if filled == 0 {
+		return append([]byte{}, pdfBytes...), nil
+	}
+	return rebuildFilled(pdf, document)
+}
 
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
+// rebuildFilled returns the document with its new values, the appearances of which are to be made anew
+func rebuildFilled(pdf *parse.PDF, document *manipulate.PDFManipulator) ([]byte, error) {
+	catalogNum := rootNumber(pdf)
+	catalog := document.GetObject(catalogNum)
+	form := []byte(encrypt.Entry(catalog, "/AcroForm"))
+	if formNum, _, ok := referenceOf(form); ok {
+		document.SetObject(formNum, encrypt.SetEntry(document.GetObject(formNum), "/NeedAppearances", "true"))
+	} else {
+		form = encrypt.SetEntry(form, "/NeedAppearances", "true")
+		document.SetObject(catalogNum, encrypt.SetEntry(catalog, "/AcroForm", string(form)))
+	}
 
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
+	result, err := document.Rebuild()
+	if err != nil {
+		return nil, fmt.Errorf("failed to rebuild PDF: %w", err)
+	}
+	return result, nil
+}
 
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
+// fillField sets the value of a field
+func fillField(pdf *parse.PDF, document *manipulate.PDFManipulator, field *Field, value interface{}) error {
+	for field.isWidget() {
+		field = field.Parent
+	}
+	dict := document.GetObject(field.ObjectNum)
+	if !bytes.HasPrefix(dict, []byte("<<")) {
+		return fmt.Errorf("field dictionary not found in object %d", field.ObjectNum)
+	}
 
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
-				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
+	// The value of a button is the appearance state its widgets show
+	if field.FT == "Btn" && field.Ff&pushButtonFlag == 0 {
+		states := make(map[int][]string)
+		widgets := []int{field.ObjectNum}
+		for _, kid := range field.Kids {
+			if kid.isWidget() {
+				widgets = append(widgets, kid.ObjectNum)
 			}
 		}
-
-		if verbose {
-			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
+		on := "Yes"
+		for i := len(widgets) - 1; i >= 0; i-- {
+			states[widgets[i]] = onStates(pdf, document.GetObject(widgets[i]))
+			if len(states[widgets[i]]) > 0 {
+				on = states[widgets[i]][0]
+			}
 		}
-	}
-
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
+		if value == true {
+			value = on
 		}
-
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
+		state := formatFieldValue(value, field.FT)
+		for _, widget := range widgets {
+			shown := "Off"
+			for _, name := range states[widget] {
+				if name == state {
+					shown = name
+				}
+			}
+			if widgetDict := document.GetObject(widget); len(states[widget]) > 0 || encrypt.Entry(widgetDict, "/AS") != "" {
+				document.SetObject(widget, encrypt.SetEntry(widgetDict, "/AS", write.Name(shown)))
 			}
-			// Continue with other streams
-			continue
-		}
-
-		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
 		}
+		dict = document.GetObject(field.ObjectNum)
 	}
 
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
+	dict = encrypt.SetEntry(dict, "/V", fieldValueToken(value, field.FT))
+	if field.FT == "Ch" {
+		dict = encrypt.RemoveEntry(dict, "/I") // the indices of the old value
 	}
-
-	return result, nil
+	document.SetObject(field.ObjectNum, dict)
+	return nil
 }
 
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
+// onStates returns the appearance states of a button's widget other than /Off
+func onStates(pdf *parse.PDF, widget []byte) []string {
+	normal := entryOf(pdf, entryOf(pdf, widget, "/AP"), "/N")
+	var states []string
+	for name := range encrypt.DictionaryEntries(normal) {
+		if name != "/Off" && !bytes.Contains(normal, []byte("stream")) {
+			states = append(states, nameText(strings.TrimPrefix(name, "/")))
 		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
 	}
+	sort.Strings(states)
+	return states
+}
 
-	return []byte(newFieldStr), nil
+// fieldValueToken returns the PDF value for the value of a field of the given type
+func fieldValueToken(value interface{}, fieldType string) string {
+	var items []string
+	switch v := value.(type) {
+	case nil:
+		return "null"
+	case []string:
+		for _, item := range v {
+			items = append(items, write.TextString(item))
+		}
+		return "[" + strings.Join(items, " ") + "]"
+	case []interface{}:
+		for _, item := range v {
+			items = append(items, fieldValueToken(item, fieldType))
+		}
+		return "[" + strings.Join(items, " ") + "]"
+	}
+	text := formatFieldValue(value, fieldType)
+	if fieldType == "Btn" {
+		return write.Name("/" + text)
+	}
+	return write.TextString(text)
 }
diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..2c9798d 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -2,13 +2,14 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
 	"regexp"
-	"strconv"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
-	"github.com/benedoc-inc/pdfer/core/write"
 )
 
 // FlattenForm converts form fields to static content (removes interactivity)
@@ -23,21 +24,12 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	// Create new PDF writer
-	w := write.NewPDFWriter()
-	w.SetVersion(pdf.Version())
-
 	// For each field, we need to:
 	// 1. Get the field's appearance stream (if it exists)
 	// 2. Add it to the page content
@@ -55,12 +47,13 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 
 	// For now, return a copy with AcroForm reference removed from catalog
 	// Full implementation would require page-level annotation removal
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Remove AcroForm reference from catalog (simplified)
-	catalogPattern := regexp.MustCompile(`/AcroForm\s+\d+\s+\d+\s+R`)
-	result = catalogPattern.ReplaceAll(result, []byte(""))
+	document := manipulate.NewManipulatorOf(pdf, verbose)
+	catalogNum := rootNumber(pdf)
+	document.SetObject(catalogNum, encrypt.RemoveEntry(document.GetObject(catalogNum), "/AcroForm"))
+	result, err := document.Rebuild()
+	if err != nil {
+		return nil, fmt.Errorf("failed to rebuild PDF: %w", err)
+	}
 
 	if verbose {
 		fmt.Println("Form flattened (AcroForm reference removed)")
@@ -100,43 +93,42 @@ func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryptio
 
 // GetFieldAppearance gets the appearance stream for a field
 func GetFieldAppearance(field *Field, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose, Encryption: encryptInfo})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	fieldStr := string(fieldData)
-
-	// Find /AP dictionary
-	apPattern := regexp.MustCompile(`/AP\s*<<([^>]*)>>`)
-	apMatch := apPattern.FindStringSubmatch(fieldStr)
-	if apMatch == nil {
+	fieldDict := objectOf(pdf, field.ObjectNum)
+	appearances := entryOf(pdf, fieldDict, "/AP")
+	if appearances == nil {
 		return nil, fmt.Errorf("no appearance stream found for field")
 	}
 
-	// Find /N (normal appearance) stream reference
-	nPattern := regexp.MustCompile(`/N\s+(\d+)\s+(\d+)\s+R`)
-	nMatch := nPattern.FindStringSubmatch(apMatch[1])
-	if nMatch == nil {
+	// The normal appearance is a stream, or a dictionary with a stream for each state
+	reference := []byte(encrypt.Entry(appearances, "/N"))
+	if states := resolve(pdf, reference); bytes.HasPrefix(states, []byte("<<")) && !bytes.HasSuffix(states, []byte("endstream")) {
+		reference = []byte(encrypt.Entry(states, string(entryOf(pdf, fieldDict, "/AS"))))
+	}
+	objNum, _, ok := referenceOf(reference)
+	if !ok {
 		return nil, fmt.Errorf("no normal appearance stream found")
 	}
 
-	appearanceObjNum, _ := strconv.Atoi(nMatch[1])
-	_ = nMatch[2] // Generation number (usually 0)
-
-	// Get appearance stream
-	appearanceData, err := parse.GetObject(pdfBytes, appearanceObjNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get appearance stream: %w", err)
+	// Get the stream's data
+	object := []byte(fmt.Sprintf("%d 0 obj\n%s\nendobj", objNum, objectOf(pdf, objNum)))
+	stream, err := parse.ParseRawObject(object, objNum, 0, 0)
+	if err != nil || !stream.IsStream {
+		return nil, fmt.Errorf("failed to get appearance stream %d", objNum)
 	}
-
-	// Extract stream data (if it's a stream object)
-	streamPattern := regexp.MustCompile(`stream\s*\n(.*?)\nendstream`)
-	streamMatch := streamPattern.FindStringSubmatch(string(appearanceData))
-	if streamMatch != nil {
-		return []byte(streamMatch[1]), nil
+	data := stream.StreamRaw
+	filters := entryOf(pdf, stream.DictRaw, "/Filter")
+	names := encrypt.ArrayElements(filters)
+	if names == nil && filters != nil {
+		names = [][]byte{filters}
 	}
-
-	return appearanceData, nil
+	for _, name := range names {
+		if data, err = parse.DecodeFilter(data, string(name)); err != nil {
+			return nil, fmt.Errorf("failed to decode appearance stream: %w", err)
+		}
+	}
+	return data, nil
 }
diff --git a/forms/acroform/integration.go b/forms/acroform/integration.go
index d7d1608..bc1d81c 100644
--- a/forms/acroform/integration.go
+++ b/forms/acroform/integration.go
@@ -4,8 +4,8 @@ package acroform
 import (
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // FormBuilder integrates AcroForm creation with SimplePDFBuilder
@@ -57,14 +57,10 @@ func (fb *FormBuilder) BuildForm() (int, error) {
 		return 0, fmt.Errorf("failed to build AcroForm: %w", err)
 	}
 
-	// Get pages object number
-	pagesObjNum := fb.builder.PagesObjNum()
-
-	// Update catalog to include AcroForm
+	// Update catalog to include AcroForm; the builder completes it with the pages
 	w := fb.builder.Writer()
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>",
-		pagesObjNum, acroFormNum)
-	catalogNum := w.AddObject([]byte(catalogDict))
+	catalogNum := w.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>",
+		fb.builder.PagesObjNum(), acroFormNum)))
 	w.SetRoot(catalogNum)
 
 	return acroFormNum, nil
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..3c727c6 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -2,11 +2,13 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
 	"regexp"
 	"strconv"
-	"strings"
+	"unicode/utf16"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -45,243 +47,243 @@ type Field struct {
 
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
-	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: []byte(""),
-		Verbose:  verbose,
-	})
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose, Encryption: encryptInfo})
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
-
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
+	return parseAcroForm(pdf, verbose)
 }
 
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
-		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
+// parseAcroForm reads the form the document's catalog refers to
+func parseAcroForm(pdf *parse.PDF, verbose bool) (*AcroForm, error) {
+	catalog := objectOf(pdf, rootNumber(pdf))
+	formDict := entryOf(pdf, catalog, "/AcroForm")
+	if formDict == nil {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
-	}
-
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
+	if !bytes.HasPrefix(formDict, []byte("<<")) {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "AcroForm is not a dictionary")
 	}
 
 	acroForm := &AcroForm{
-		Fields: make([]*Field, 0),
+		Fields:          make([]*Field, 0),
+		NeedAppearances: string(entryOf(pdf, formDict, "/NeedAppearances")) == "true",
+		XFA:             entryOf(pdf, formDict, "/XFA") != nil,
+	}
+	if acroForm.XFA && verbose {
+		fmt.Println("Found XFA in AcroForm (hybrid form)")
 	}
 
-	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
+	fields := entryOf(pdf, formDict, "/Fields")
+	if !bytes.HasPrefix(fields, []byte("[")) {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
 	}
 
+	// The form's default appearance and quadding are those of fields without their own
+	defaults := &Field{DA: textOf(entryOf(pdf, formDict, "/DA")), Q: intOf(entryOf(pdf, formDict, "/Q"))}
+	acroForm.Fields = parseFields(pdf, fields, nil, defaults, make(map[int]bool), acroForm, verbose)
 	return acroForm, nil
 }
 
-// parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
-
-	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
-		acroForm.XFA = true
-		if verbose {
-			fmt.Println("Found XFA in AcroForm (hybrid form)")
+// parseFields parses the fields an array refers to. The values they do not have themselves are
+// those of inherited. Fields in seen are left out.
+func parseFields(pdf *parse.PDF, array []byte, parent, inherited *Field, seen map[int]bool, acroForm *AcroForm, verbose bool) []*Field {
+	fields := make([]*Field, 0)
+	for _, element := range encrypt.ArrayElements(array) {
+		objNum, genNum, ok := referenceOf(element)
+		if !ok || seen[objNum] {
+			continue
 		}
-	}
-
-	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
-		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
-	}
-
-	fieldsStr := fieldsMatch[1]
-	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
-	}
-
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
-
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
+		seen[objNum] = true
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
-		if err != nil {
+		dict := objectOf(pdf, objNum)
+		if !bytes.HasPrefix(dict, []byte("<<")) {
 			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
+				fmt.Printf("Warning: field %d is not a dictionary\n", objNum)
 			}
 			continue
 		}
 
-		acroForm.Fields = append(acroForm.Fields, field)
+		field := parseField(pdf, dict, inherited)
+		field.ObjectNum, field.Generation, field.Parent = objNum, genNum, parent
+		field.Kids = parseFields(pdf, entryOf(pdf, dict, "/Kids"), field, field, seen, acroForm, verbose)
+		if field.FT == "Sig" && !field.isWidget() {
+			acroForm.SignatureFields = append(acroForm.SignatureFields, objNum)
+		}
+		fields = append(fields, field)
 	}
-
-	return nil
+	return fields
 }
 
-// parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
-	}
-
+// parseField parses the entries of a single field dictionary
+func parseField(pdf *parse.PDF, dict []byte, inherited *Field) *Field {
 	field := &Field{
-		ObjectNum:  objNum,
-		Generation: genNum,
-		Kids:       make([]*Field, 0),
+		T:      textOf(entryOf(pdf, dict, "/T")),
+		TU:     textOf(entryOf(pdf, dict, "/TU")),
+		TM:     textOf(entryOf(pdf, dict, "/TM")),
+		FT:     inherited.FT,
+		Ff:     inherited.Ff,
+		V:      inherited.V,
+		DV:     inherited.DV,
+		DA:     inherited.DA,
+		Q:      inherited.Q,
+		MaxLen: inherited.MaxLen,
+		TI:     intOf(entryOf(pdf, dict, "/TI")),
 	}
-
-	dataStr := string(fieldData)
-
-	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
+	if field.T == "" {
+		field.Opt, field.I = inherited.Opt, inherited.I // a widget of the field
 	}
 
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
+	if ft := entryOf(pdf, dict, "/FT"); ft != nil {
+		field.FT = textOf(ft)
 	}
-
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
+	if ff := entryOf(pdf, dict, "/Ff"); ff != nil {
+		field.Ff = intOf(ff)
 	}
-
-	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
+	if v := entryOf(pdf, dict, "/V"); v != nil {
+		field.V = valueOf(pdf, v)
 	}
-
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
+	if dv := entryOf(pdf, dict, "/DV"); dv != nil {
+		field.DV = valueOf(pdf, dv)
 	}
-
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
+	if da := entryOf(pdf, dict, "/DA"); da != nil {
+		field.DA = textOf(da)
 	}
-
-	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
+	if q := entryOf(pdf, dict, "/Q"); q != nil {
+		field.Q = intOf(q)
+	}
+	if maxLen := entryOf(pdf, dict, "/MaxLen"); maxLen != nil {
+		field.MaxLen = intOf(maxLen)
 	}
+	if opt, ok := valueOf(pdf, entryOf(pdf, dict, "/Opt")).([]interface{}); ok {
+		field.Opt = opt
+	}
+	for _, index := range encrypt.ArrayElements(entryOf(pdf, dict, "/I")) {
+		field.I = append(field.I, intOf(resolve(pdf, index)))
+	}
+	for _, number := range encrypt.ArrayElements(entryOf(pdf, dict, "/Rect")) {
+		if value, err := strconv.ParseFloat(string(resolve(pdf, number)), 64); err == nil {
+			field.Rect = append(field.Rect, value)
+		}
+	}
+	return field
+}
 
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
+// rootNumber returns the object number of the document's catalog
+func rootNumber(pdf *parse.PDF) int {
+	if trailer := pdf.Trailer(); trailer != nil {
+		if objNum, _, ok := referenceOf([]byte(trailer.RootRef)); ok {
+			return objNum
+		}
 	}
+	return 0
+}
 
-	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+// referencePattern matches an indirect reference
+var referencePattern = regexp.MustCompile(`^\s*(\d+)\s+(\d+)\s+R\b`)
+
+// referenceOf returns the object and generation number of an indirect reference
+func referenceOf(value []byte) (objNum, genNum int, ok bool) {
+	match := referencePattern.FindSubmatch(value)
+	if match == nil {
+		return 0, 0, false
 	}
+	objNum, err := strconv.Atoi(string(match[1]))
+	genNum, _ = strconv.Atoi(string(match[2]))
+	return objNum, genNum, err == nil
+}
 
-	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
+// objectHeader matches the header of an indirect object
+var objectHeader = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj\b`)
 
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
+// objectOf returns the value of an object, without its header and endobj, or nil if there is none
+func objectOf(pdf *parse.PDF, objNum int) []byte {
+	object, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil
+	}
+	if header := objectHeader.Find(object); header != nil {
+		object = bytes.TrimSuffix(bytes.TrimSpace(object[len(header):]), []byte("endobj"))
+	}
+	return bytes.TrimSpace(object)
+}
 
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
-				continue
+// resolve returns a value, or the value of the object it refers to, or nil if that is null
+func resolve(pdf *parse.PDF, value []byte) []byte {
+	for depth := 0; depth < 16; depth++ {
+		objNum, _, ok := referenceOf(value)
+		if !ok {
+			if len(value) == 0 || string(value) == "null" {
+				return nil
 			}
-			kidField.Parent = field
-			field.Kids = append(field.Kids, kidField)
+			return value
 		}
+		value = objectOf(pdf, objNum)
+	}
+	return nil
+}
+
+// entryOf returns the value of an entry of a dictionary, or nil if there is none
+func entryOf(pdf *parse.PDF, dict []byte, key string) []byte {
+	if !bytes.HasPrefix(dict, []byte("<<")) {
+		return nil
 	}
+	return resolve(pdf, []byte(encrypt.Entry(dict, key)))
+}
 
-	return field, nil
+// intOf returns the integer a token denotes
+func intOf(token []byte) int {
+	value, _ := strconv.Atoi(string(token))
+	return value
 }
 
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
-		}
+// textOf returns the text of a string or name
+func textOf(token []byte) string {
+	if len(token) > 0 && token[0] == '/' {
+		return nameText(string(token[1:]))
+	}
+	text := encrypt.DecodeString(token)
+	if len(text) < 2 || text[0] != 0xFE || text[1] != 0xFF {
+		return string(text)
 	}
-	return items
+	var units []uint16
+	for i := 2; i+1 < len(text); i += 2 {
+		units = append(units, uint16(text[i])<<8|uint16(text[i+1]))
+	}
+	return string(utf16.Decode(units))
 }
 
-// parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
-	options := make([]interface{}, 0)
-
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
+// nameText replaces the #xx codes of a name
+func nameText(name string) string {
+	var out []byte
+	for i := 0; i < len(name); i++ {
+		if name[i] == '#' && i+2 < len(name) {
+			if code, err := strconv.ParseUint(name[i+1:i+3], 16, 8); err == nil {
+				out = append(out, byte(code))
+				i += 2
+				continue
+			}
 		}
+		out = append(out, name[i])
 	}
-
-	return options
+	return string(out)
 }
 
-// parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
-	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			rect = append(rect, val)
+// valueOf returns a field value: the text of a string, name or number, or the values of an array
+func valueOf(pdf *parse.PDF, value []byte) interface{} {
+	switch {
+	case len(value) == 0, bytes.HasPrefix(value, []byte("<<")):
+		return nil
+	case value[0] == '[':
+		items := make([]interface{}, 0)
+		for _, element := range encrypt.ArrayElements(value) {
+			items = append(items, valueOf(pdf, resolve(pdf, element)))
 		}
+		return items
+	case value[0] == '(', value[0] == '<', value[0] == '/':
+		return textOf(value)
 	}
-	return rect
+	return string(value)
 }
 
 // ToFormSchema converts AcroForm to FormSchema
@@ -294,12 +296,14 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
-		question := field.ToQuestion()
-		if question != nil {
+	af.eachField(func(field *Field) {
+		if !field.isTerminal() {
+			return
+		}
+		if question := field.ToQuestion(); question != nil {
 			schema.Questions = append(schema.Questions, *question)
 		}
-	}
+	})
 
 	return schema
 }
@@ -308,7 +312,7 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
 		Required:   (f.Ff & 0x2) != 0, // Required flag
@@ -330,10 +334,10 @@ func (f *Field) ToQuestion() *types.Question {
 	if len(f.Opt) > 0 {
 		question.Options = make([]types.Option, 0, len(f.Opt))
 		for i, opt := range f.Opt {
-			optStr := fmt.Sprintf("%v", opt)
+			value, label := optionOf(opt)
 			question.Options = append(question.Options, types.Option{
-				Value: optStr,
-				Label: optStr,
+				Value: value,
+				Label: label,
 			})
 			// Check if this option is selected
 			if f.I != nil {
@@ -368,6 +372,15 @@ func (f *Field) ToQuestion() *types.Question {
 	return question
 }
 
+// optionOf returns the value and the label of an option: a text, or an array of both
+func optionOf(opt interface{}) (value, label string) {
+	if pair, ok := opt.([]interface{}); ok && len(pair) == 2 {
+		return fmt.Sprintf("%v", pair[0]), fmt.Sprintf("%v", pair[1])
+	}
+	value = fmt.Sprintf("%v", opt)
+	return value, value
+}
+
 // mapFieldType maps AcroForm field type to ResponseType
 func mapFieldType(ft string) types.ResponseType {
 	switch ft {
@@ -385,21 +398,25 @@ func mapFieldType(ft string) types.ResponseType {
 	}
 }
 
+// Flags of button fields; a checkbox has neither
+const (
+	radioFlag      = 0x8000  // bit position 16
+	pushButtonFlag = 0x10000 // bit position 17
+)
+
 // mapFieldTypeWithFlags maps field type using flags to distinguish checkboxes from buttons
 func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	switch ft {
 	case "Tx":
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
+		if (flags & pushButtonFlag) != 0 {
+			return types.ResponseTypeButton
 		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		if (flags & radioFlag) != 0 {
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		return types.ResponseTypeCheckbox
 	case "Ch":
 		// Combo box flag is 0x20000 (bit 17)
 		if (flags & 0x20000) != 0 {
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..a0a5767 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -3,88 +3,38 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
-		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
-	}
-
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
-
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose, Encryption: encryptInfo})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
-
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
-
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+	if !pdf.HasObject(objNum) {
+		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
 	}
-
-	return result, nil
+	document := manipulate.NewManipulatorOf(pdf, verbose)
+	document.SetObject(objNum, newContent)
+	return document.Rebuild()
 }
 
 // FillFieldValue fills a field with a value by replacing the object
 func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get current field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose, Encryption: encryptInfo})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+	document := manipulate.NewManipulatorOf(pdf, verbose)
+	if err := fillField(pdf, document, field, value); err != nil {
+		return nil, err
 	}
-
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+	return rebuildFilled(pdf, document)
 }
 
 // formatFieldValue formats a value for PDF based on field type
@@ -110,34 +60,6 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // FillFormFields fills multiple fields in a PDF
 // This function attempts to handle both direct objects and object streams
 func FillFormFields(pdfBytes []byte, formData types.FormData, password []byte, verbose bool) ([]byte, error) {
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..b5721ba 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -2,14 +2,9 @@
 package acroform
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -21,262 +16,21 @@ type StreamObjectUpdate struct {
 	NewContent []byte
 }
 
-// RebuildObjectStream rebuilds an object stream with updated objects
+// RebuildObjectStream rebuilds a document with updated objects of an object stream
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get the object stream
-	streamObjData, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose, Encryption: encryptInfo})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	// Find the object stream in the PDF
-	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
-	streamMatch := streamPattern.FindStringIndex(pdfStr)
-	if streamMatch == nil {
+	if !pdf.HasObject(streamObjNum) {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
-
-	streamStart := streamMatch[0]
-
-	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse object stream: %w", err)
-	}
-
-	// Create update map
-	updateMap := make(map[int]*StreamObjectUpdate)
-	for i := range updates {
-		updateMap[updates[i].ObjNum] = &updates[i]
-	}
-
-	// Rebuild stream with updates
-	newStreamData, newHeader, err := rebuildStreamContent(streamDict, streamData, updateMap, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to rebuild stream content: %w", err)
-	}
-
-	// Compress the new stream
-	var compressed bytes.Buffer
-	zw := zlib.NewWriter(&compressed)
-	zw.Write(newStreamData)
-	zw.Close()
-
-	// Update /First to point to new header length
-	newFirst := len(newHeader)
-	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
-
-	// Rebuild object stream dictionary
-	newDictStr := formatStreamDict(streamDict)
-
-	// Find stream boundaries in PDF
-	dictEnd := bytes.Index(pdfBytes[streamStart:], []byte("stream"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	dictEnd += streamStart
-
-	// Find endstream
-	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-	streamEnd := dictEnd + endstreamPos + 9
-
-	// Reconstruct PDF
-	before := pdfBytes[:streamStart]
-	after := pdfBytes[streamEnd:]
-
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
-	result = append(result, before...)
-	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
-	result = append(result, []byte(newDictStr)...)
-	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
-	}
-
-	return result, nil
-}
-
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
-	// Find dictionary
-	dictStart := bytes.Index(streamObjData, []byte("<<"))
-	if dictStart == -1 {
-		return nil, nil, fmt.Errorf("dictionary not found")
-	}
-
-	dictEnd := bytes.Index(streamObjData[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, nil, fmt.Errorf("dictionary end not found")
-	}
-	dictEnd += dictStart + 2
-
-	dictStr := string(streamObjData[dictStart:dictEnd])
-	dict := parseStreamDict(dictStr)
-
-	// Find stream data
-	streamKeyword := bytes.Index(streamObjData[dictEnd:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, nil, fmt.Errorf("stream keyword not found")
-	}
-
-	streamDataStart := dictEnd + streamKeyword + 6
-	// Skip EOL
-	if streamDataStart < len(streamObjData) && (streamObjData[streamDataStart] == '\r' || streamObjData[streamDataStart] == '\n') {
-		streamDataStart++
-	}
-	if streamDataStart < len(streamObjData) && streamObjData[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Get stream length
-	length, ok := dict["/Length"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
-	}
-
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
-		}
-		streamData = decrypted
-	}
-
-	// Decompress
-	var decompressed bytes.Buffer
-	zr, err := zlib.NewReader(bytes.NewReader(streamData))
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
-	}
-	decompressed.ReadFrom(zr)
-	zr.Close()
-
-	return dict, decompressed.Bytes(), nil
-}
-
-// parseStreamDict parses a stream dictionary string
-func parseStreamDict(dictStr string) map[string]interface{} {
-	dict := make(map[string]interface{})
-
-	// Extract /N
-	if nMatch := regexp.MustCompile(`/N\s+(\d+)`).FindStringSubmatch(dictStr); nMatch != nil {
-		if n, err := strconv.Atoi(nMatch[1]); err == nil {
-			dict["/N"] = n
-		}
-	}
-
-	// Extract /First
-	if firstMatch := regexp.MustCompile(`/First\s+(\d+)`).FindStringSubmatch(dictStr); firstMatch != nil {
-		if first, err := strconv.Atoi(firstMatch[1]); err == nil {
-			dict["/First"] = first
-		}
-	}
-
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
-		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
-			dict["/Length"] = length
+	document := manipulate.NewManipulatorOf(pdf, verbose)
+	for _, update := range updates {
+		if !pdf.HasObject(update.ObjNum) {
+			return nil, fmt.Errorf("object %d not found", update.ObjNum)
 		}
+		document.SetObject(update.ObjNum, update.NewContent)
 	}
-
-	return dict
-}
-
-// rebuildStreamContent rebuilds stream content with updated objects
-func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte, updates map[int]*StreamObjectUpdate, verbose bool) ([]byte, []byte, error) {
-	n, ok := streamDict["/N"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/N not found in stream dict")
-	}
-
-	first, ok := streamDict["/First"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/First not found in stream dict")
-	}
-
-	// Parse header
-	headerData := streamData[:first]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	type objEntry struct {
-		objNum int
-		offset int
-	}
-	entries := make([]objEntry, 0, n)
-
-	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
-		entries = append(entries, objEntry{objNum: on, offset: off})
-	}
-
-	// Extract all objects
-	objects := make(map[int][]byte)
-	for i, entry := range entries {
-		objStart := first + entry.offset
-		var objEnd int
-		if i < len(entries)-1 {
-			objEnd = first + entries[i+1].offset
-		} else {
-			objEnd = len(streamData)
-		}
-
-		objData := streamData[objStart:objEnd]
-		objData = bytes.TrimRight(objData, " \t\r\n")
-		objects[entry.objNum] = objData
-	}
-
-	// Apply updates
-	for objNum, update := range updates {
-		objects[objNum] = update.NewContent
-	}
-
-	// Rebuild stream
-	var newStream bytes.Buffer
-	var newHeader bytes.Buffer
-
-	offset := 0
-	for _, entry := range entries {
-		objData := objects[entry.objNum]
-		newHeader.WriteString(fmt.Sprintf("%d %d ", entry.objNum, offset))
-		newStream.Write(objData)
-		newStream.WriteByte('\n')
-		offset += len(objData) + 1
-	}
-
-	return newStream.Bytes(), newHeader.Bytes(), nil
-}
-
-// formatStreamDict formats a stream dictionary
-func formatStreamDict(dict map[string]interface{}) string {
-	var buf strings.Builder
-	buf.WriteString("<<")
-
-	if n, ok := dict["/N"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /N %d", n))
-	}
-
-	if first, ok := dict["/First"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /First %d", first))
-	}
-
-	if length, ok := dict["/Length"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /Length %d", length))
-	}
-
-	buf.WriteString(" >>")
-	return buf.String()
+	return document.Rebuild()
 }
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..0b421ea 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -86,18 +86,8 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
-	}
-
 	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
+	if (field.Ff & radioFlag) != 0 { // Radio button flag
 		// Radio buttons should match one of the option values
 		if len(field.Opt) > 0 {
 			valueStr := fmt.Sprintf("%v", value)
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..0613b28 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -2,10 +2,12 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -54,11 +56,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn",
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +72,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: radioFlag,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +94,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: pushButtonFlag,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -173,13 +175,19 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		dict.WriteString(fmt.Sprintf(" /T %s", write.TextString(field.Name)))
 	}
 
 	// Rectangle
 	if len(field.Rect) >= 4 {
-		dict.WriteString(fmt.Sprintf(" /Rect [%.2f %.2f %.2f %.2f]",
-			field.Rect[0], field.Rect[1], field.Rect[2], field.Rect[3]))
+		dict.WriteString(" /Rect [")
+		for i, number := range field.Rect[:4] {
+			if i > 0 {
+				dict.WriteString(" ")
+			}
+			dict.WriteString(strconv.FormatFloat(number, 'f', -1, 64))
+		}
+		dict.WriteString("]")
 	}
 
 	// Flags
@@ -189,14 +197,12 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Value
 	if field.Value != nil {
-		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(" /V " + fieldValueToken(field.Value, field.Type))
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
-		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(" /DV " + fieldValueToken(field.DefaultValue, field.Type))
 	}
 
 	// Maximum length
@@ -211,7 +217,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 			if i > 0 {
 				dict.WriteString(" ")
 			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
+			dict.WriteString(write.TextString(opt))
 		}
 		dict.WriteString("]")
 	}
@@ -224,61 +230,6 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	return fb.writer.AddObject([]byte(dict.String()))
 }
 
-// formatFieldValueForWriter formats a value for PDF writing
-func formatFieldValueForWriter(value interface{}, fieldType string) string {
-	switch v := value.(type) {
-	case string:
-		return v
-	case int:
-		return strconv.Itoa(v)
-	case float64:
-		return strconv.FormatFloat(v, 'f', -1, 64)
-	case bool:
-		if fieldType == "Btn" {
-			if v {
-				return "Yes"
-			}
-			return "Off"
-		}
-		return strconv.FormatBool(v)
-	default:
-		return fmt.Sprintf("%v", v)
-	}
-}
-
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // AddAcroFormToCatalog adds AcroForm reference to catalog
 func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error {
 	// Get existing catalog
@@ -288,16 +239,11 @@ func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error
 	}
 
 	// Add AcroForm reference
-	catalogStr := string(catalogData)
-	if !strings.Contains(catalogStr, "/AcroForm") {
-		// Find the closing >>
-		dictEnd := strings.LastIndex(catalogStr, ">>")
-		if dictEnd == -1 {
+	if encrypt.Entry(catalogData, "/AcroForm") == "" {
+		if !bytes.HasPrefix(bytes.TrimSpace(catalogData), []byte("<<")) {
 			return fmt.Errorf("invalid catalog dictionary")
 		}
-		newEntry := fmt.Sprintf(" /AcroForm %d 0 R", acroFormNum)
-		catalogStr = catalogStr[:dictEnd] + newEntry + catalogStr[dictEnd:]
-		w.SetObject(catalogNum, []byte(catalogStr))
+		w.SetObject(catalogNum, encrypt.SetEntry(catalogData, "/AcroForm", fmt.Sprintf("%d 0 R", acroFormNum)))
 	}
 
 	return nil
-- 
2.43.0


From 2df30cc233a3be480f5457d1cfdd61396e5116b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 40/58] fix: form validation counts characters, checks every
 selected option and required field at any depth, in a fixed order

---
 forms/acroform/fill_streams.go |   8 +--
 forms/acroform/validation.go   | 127 ++++++++++++++++++++-------------
 2 files changed, 80 insertions(+), 55 deletions(-)

diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 5652867..981fa18 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -32,15 +32,9 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	names := make([]string, 0, len(formData))
-	for name := range formData {
-		names = append(names, name)
-	}
-	sort.Strings(names)
-
 	document := manipulate.NewManipulatorOf(pdf, verbose)
 	filled := 0
-	for _, name := range names {
+	for _, name := range valueNames(formData) {
 		field := acroForm.FindFieldByName(name)
 		if field == nil {
 			if verbose {
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index 0b421ea..8b3e738 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -4,7 +4,9 @@ package acroform
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -28,7 +30,7 @@ func ValidateField(field *Field, value interface{}) error {
 
 	// Check required
 	if (field.Ff & 0x2) != 0 { // Required flag
-		if value == nil || value == "" {
+		if isEmpty(value) {
 			return &ValidationError{
 				FieldName: field.GetFullName(),
 				Message:   "field is required",
@@ -36,6 +38,9 @@ func ValidateField(field *Field, value interface{}) error {
 			}
 		}
 	}
+	if isEmpty(value) {
+		return nil // an optional field may be left empty
+	}
 
 	// Check read-only
 	if (field.Ff & 0x1) != 0 { // ReadOnly flag
@@ -58,6 +63,32 @@ func ValidateField(field *Field, value interface{}) error {
 	return nil
 }
 
+// isEmpty reports whether a value stands for a field that is left empty
+func isEmpty(value interface{}) bool {
+	switch v := value.(type) {
+	case nil:
+		return true
+	case string:
+		return v == ""
+	case []string:
+		return len(v) == 0
+	case []interface{}:
+		return len(v) == 0
+	}
+	return false
+}
+
+// hasOption reports whether a value is that of one of the field's options
+func (f *Field) hasOption(value interface{}) bool {
+	text := fmt.Sprintf("%v", value)
+	for _, opt := range f.Opt {
+		if optValue, label := optionOf(opt); optValue == text || label == text {
+			return true
+		}
+	}
+	return false
+}
+
 // validateTextField validates a text field
 func validateTextField(field *Field, value interface{}) error {
 	valueStr, ok := value.(string)
@@ -66,7 +97,7 @@ func validateTextField(field *Field, value interface{}) error {
 	}
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -90,15 +121,7 @@ func validateButtonField(field *Field, value interface{}) error {
 	if (field.Ff & radioFlag) != 0 { // Radio button flag
 		// Radio buttons should match one of the option values
 		if len(field.Opt) > 0 {
-			valueStr := fmt.Sprintf("%v", value)
-			found := false
-			for _, opt := range field.Opt {
-				if fmt.Sprintf("%v", opt) == valueStr {
-					found = true
-					break
-				}
-			}
-			if !found {
+			if !field.hasOption(value) {
 				return &ValidationError{
 					FieldName: field.GetFullName(),
 					Message:   "value does not match any radio button option",
@@ -117,16 +140,24 @@ func validateChoiceField(field *Field, value interface{}) error {
 		return nil // No options to validate against
 	}
 
-	valueStr := fmt.Sprintf("%v", value)
+	const editableCombo = 0x20000 | 0x40000 // the user may type any value
+	if field.Ff&editableCombo == editableCombo {
+		return nil
+	}
 
-	// Check if value is in options
-	found := false
-	for _, opt := range field.Opt {
-		optStr := fmt.Sprintf("%v", opt)
-		if optStr == valueStr {
-			found = true
-			break
+	// Check that each selected value is in options
+	found := true
+	switch v := value.(type) {
+	case []string:
+		for _, item := range v {
+			found = found && field.hasOption(item)
+		}
+	case []interface{}:
+		for _, item := range v {
+			found = found && field.hasOption(item)
 		}
+	default:
+		found = field.hasOption(value)
 	}
 
 	if !found {
@@ -161,12 +192,18 @@ func validateSignatureField(field *Field, value interface{}) error {
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
-	for fieldName, value := range formData {
+	given := make(map[*Field]bool)
+	for _, fieldName := range valueNames(formData) {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
 			continue
 		}
+		for field.isWidget() {
+			field = field.Parent
+		}
+		given[field] = true
 
 		if err := ValidateField(field, value); err != nil {
 			errors = append(errors, err)
@@ -174,36 +211,29 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	}
 
 	// Check for missing required fields
-	for _, field := range acroForm.Fields {
-		if (field.Ff & 0x2) != 0 { // Required flag
-			fieldName := field.GetFullName()
-			if _, found := formData[fieldName]; !found {
-				errors = append(errors, &ValidationError{
-					FieldName: fieldName,
-					Message:   "required field is missing",
-					Value:     nil,
-				})
-			}
-		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
+	acroForm.eachField(func(field *Field) {
+		if (field.Ff&0x2) != 0 && field.isTerminal() && !given[field] { // Required flag
+			errors = append(errors, &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "required field is missing",
+				Value:     nil,
+			})
 		}
-	}
+	})
 
 	return errors
 }
 
+// valueNames returns the names of form values in order
+func valueNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // ValidateFieldValue validates a field value using FormSchema validation rules
 func ValidateFieldValue(question *types.Question, value interface{}) error {
 	if question.Validation == nil {
@@ -223,7 +253,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	if question.Validation.MinLength != nil && utf8.RuneCountInString(valueStr) < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -232,7 +262,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && utf8.RuneCountInString(valueStr) > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
@@ -295,7 +325,8 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range valueNames(formData) {
+		value := formData[fieldName]
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
-- 
2.43.0


From 6ee6e95ca5f1ce0e1c70c59420b04e4886bd9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 41/58] restore the generated test documents to their original
 bytes

---
 .../tests/resources/test_complex_text.pdf       | Bin 713 -> 689 bytes
 .../extract/tests/resources/test_extraction.pdf | Bin 742 -> 718 bytes
 .../extract/tests/resources/test_graphics.pdf   | Bin 567 -> 568 bytes
 .../tests/resources/test_multiple_content.pdf   | Bin 667 -> 645 bytes
 4 files changed, 0 insertions(+), 0 deletions(-)

diff --git a/content/extract/tests/resources/test_complex_text.pdf b/content/extract/tests/resources/test_complex_text.pdf
index 11248aec0d751c3fa65e34836c267602afea63ad..82c858b38159a1a72524e324618124e63bd9b764 100644
GIT binary patch
delta 179
zcmX@fx{-B)%f#4pMvI9@J%e~3obp|`rf7$oF}F(Z!=J92Tsump7fU)tuxU(DJhM08
z^O=NK#XC)EguT0rv<2J_iq2Hf>AhB<qvf^cO2`FMqkszx+P$G1A0HL*K4fBHVEF%k
zay;W}djoR|1p^RJ$W!0~GYkw2jSVowj7=;t#7xW#CwDTLa~ha&sj9mAyKw;kv{yNE

delta 204
zcmdnUdXja5i=@75UUGg)W?s5}cxIksUU4RjKhY(f(R|_>&%nf>lQGKz!YpGJ&t#o+
z?8Bc$BCIjHPVeMV)Zz`$SfOyo#&|`Ahu-wI{3Or7G}c2JJCuZHED~9l!Fznsq9b0u
ztg*_>th^g8MYIa&>s=SnJHRm6o$<B3p@Ff20SGAMDR6-q1_p+vrWj(z=9ubCEKDaC
RGMRH48*r(ry863u0RUdkKd}G+

diff --git a/content/extract/tests/resources/test_extraction.pdf b/content/extract/tests/resources/test_extraction.pdf
index 56048c7422cd8c8790ad8445f410f475d25c3740..d7241eca3eba6bd6abafffd87fb6695f9c5e5dc3 100644
GIT binary patch
delta 278
zcmaFHdX9C1%f#69dUFLkJFeoAqSVA(u8KJ+eZJj?3<TQVf7VXRkB!(hc|&%!*jhPP
z=6T+;uX)^ZFiNW5m$6@G-o5sRGb_{AJ}?*7_?M)l6e6m!>A1@!18v1y+1Ypb<;*1K
z&E5X=y7{WtYc9=RrKh%lbB6Nk0};C(U3)R@@zG;ibIs%a7QO19!k1%pODeLwXIJuk
z@tm03@;9^=Sk$gM{lT>3V>jm$lb`YjvR5R$*wy@^QLOOJ!HoW!4Sy^$AF}i_Ffjc8
yKe>kSwY`D4g@OSHDC8+{ff)t{hQ<aMV#Zk1nOGW3UdCk3X>7`+s_N?R#svUhuW+mY

delta 303
zcmX@d`iymgi=@75UUGg)W?s5}cxIksUU4RjKhY(<-b}&Hj;pw&C^a#ct71+{-@&|Q
z0|A%!zeR6LPu1GB?be~4S)P4?Nt)>_Z5Bomo6Nc9%d1LooXVW%w%Pjg>Ia(zH1-84
zDTVN+6dmyi`jX|b?N-$H#@+jw`p@0|^;Y(3W#^^fkhwk%!W&$!HEt}sy7aQ`^3~n*
zYj#$AagR5hpkXO{<BRSlIf<_a_N}?Gqps$|`i4t??6P(Du^O(O;dt&`Im`NmjW<eJ
z4Vl)a>~GYx&1C=dbZIN|9X5u^DU7e}4GoMH3_w63Pk{@}FfcGQHN_A!F)+dqGc`1s
S+{a|jX==%(s_N?R#svTwiFS1W

diff --git a/content/extract/tests/resources/test_graphics.pdf b/content/extract/tests/resources/test_graphics.pdf
index 9d952d68e040b92c72b7b9f3d4be830b17abcf46..823856aca677ab3b62e2472af81aeabc027f5480 100644
GIT binary patch
delta 182
zcmdnavV&zpPQ8VKogG(kNl|KIE?32zoIY#5Lk>JHzb#qSJJQr69<hCS!XY@n$t1I=
zwneOZYqpks@4VyBN)#(!9slQ|s9tC3F!2WeH*2|or_4*4b{FnGlsjK~iq`#zn*R>>
z0~TeJStlIMNiO3%eM}|6^>oe^-MJgLEl<%jeR<w?>G~;l=QnUZYGs|zz`*eT|HRMl
iMa>ipKtLf+feXwqFfcYVnEaj5g2R+cRn^tsjSB#H{z>rw

delta 181
zcmdnNvYll@PQAH;ogG(kNl|KIE?32zls;>|W(OXZ-<Ga^4Q%;3Puac{w1nEZW@PNB
z6G@a#4FCMa#5$Xgf715socx|A2khBBBusD2t8nDIXDD~T`;73Ow>zCqJrVETe?Rfu
zp)WQIE3Fe;FTZ)m=ewEng~i-wyNvwXUQW0)X;X<*JD+BF=QECct&*Az56l@Ret9oy
gs$c*D3V8}#V1|K#v8m<cAB+|pCS0njuKsRZ0M`FV@&Et;

diff --git a/content/extract/tests/resources/test_multiple_content.pdf b/content/extract/tests/resources/test_multiple_content.pdf
index 3f794e9ebe3f1f969ddbaa5689128120d28df001..4d3a056dcfa5ac46036df7b3af50af01b751db4b 100644
GIT binary patch
delta 141
zcmbQu+R8e?WnyePqshdh&N@s}wY;7iwPZFL`&@jnC}f?9o-@bpIj1?6@tiyH)Tl|b
z)wpO!(@q9P28RFtCmS-pwl^@hP%r=ig**i=FvGyW(AWS&%-FybL(Ig`d~!6CIj5Ns
Lm#V6(zZ(|-c<L!9

delta 164
zcmZo=oy|JIMN;22FF8LYGcR2~JTuQRuQ(INpXid#XgG0=v!=3E=#+D*9G98WXDqtt
zx-up+rcGdDk)HAlBMar}r#Y61oICN5>lqUd!(?g3*Y<`6#tH@?ppd7)1!fo+7@C@5
ch#4E1V~Cj;TTXUmGUv1~;Zjv~^>^a}0H1>|Z2$lO

-- 
2.43.0


From 2365fbda0fb46142464449110f1811c8c5c31373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:15 +0000
Subject: [PATCH 42/58] fix: XFA streams are found from the catalog, decoded
 with their filters and replaced in a rebuilt document

---
 core/parse/xfa_packets.go | 124 ++++++
 core/write/xfa_builder.go | 433 ++++-----------------
 forms/forms.go            |  36 +-
 forms/xfa/xfa.go          | 550 ++++++++-------------------
 forms/xfa/xfa_utils.go    | 766 +-------------------------------------
 5 files changed, 394 insertions(+), 1515 deletions(-)
 create mode 100644 core/parse/xfa_packets.go

diff --git a/core/parse/xfa_packets.go b/core/parse/xfa_packets.go
new file mode 100644
index 0000000..857bb3f
--- /dev/null
+++ b/core/parse/xfa_packets.go
@@ -0,0 +1,124 @@
+package parse
+
+import (
+	"bytes"
+	"fmt"
+	"log"
+	"regexp"
+	"strconv"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// XFAPacket is one of the packets a document's XFA form consists of
+type XFAPacket struct {
+	Name         string
+	ObjectNumber int
+	Data         []byte // The decoded data of the packet's stream
+	Compressed   bool   // Whether the packet's stream has a filter
+}
+
+// XFAPackets returns the packets of the document's XFA form in the order the form lists them
+func (p *PDF) XFAPackets() ([]XFAPacket, error) {
+	if p.trailer == nil {
+		return nil, types.NewPDFError(types.ErrCodeMalformedPDF, "no trailer found")
+	}
+	form := p.entryValue(p.value([]byte(p.trailer.RootRef)), "/AcroForm")
+	if !bytes.HasPrefix(form, []byte("<<")) {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found")
+	}
+	array := p.entryValue(form, "/XFA")
+	if !bytes.HasPrefix(array, []byte("[")) {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "XFA entry not found in AcroForm")
+	}
+
+	// The array alternates names and streams
+	var packets []XFAPacket
+	elements := encrypt.ArrayElements(array)
+	for i := 0; i+1 < len(elements); i += 2 {
+		name := string(encrypt.DecodeString(p.value(elements[i])))
+		objNum, ok := referencedObject(elements[i+1])
+		if !ok {
+			continue
+		}
+		data, compressed, err := p.decodedStream(objNum)
+		if err != nil {
+			if p.opts.Verbose {
+				log.Printf("Failed to read XFA packet %s (object %d): %v", name, objNum, err)
+			}
+			continue
+		}
+		packets = append(packets, XFAPacket{Name: name, ObjectNumber: objNum, Data: data, Compressed: compressed})
+	}
+	if len(packets) == 0 {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "no stream references found in XFA array")
+	}
+	return packets, nil
+}
+
+var (
+	referenceValue = regexp.MustCompile(`^\s*(\d+)\s+\d+\s+R\b`)
+	objectHeading  = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj\b`)
+)
+
+// referencedObject returns the object number of an indirect reference
+func referencedObject(value []byte) (int, bool) {
+	match := referenceValue.FindSubmatch(value)
+	if match == nil {
+		return 0, false
+	}
+	objNum, err := strconv.Atoi(string(match[1]))
+	return objNum, err == nil
+}
+
+// value returns a value, or the value of the object it refers to, or nil if there is none
+func (p *PDF) value(value []byte) []byte {
+	for depth := 0; depth < 16; depth++ {
+		objNum, ok := referencedObject(value)
+		if !ok {
+			return value
+		}
+		object, err := p.GetObject(objNum)
+		if err != nil {
+			return nil
+		}
+		if header := objectHeading.Find(object); header != nil {
+			object = bytes.TrimSuffix(bytes.TrimSpace(object[len(header):]), []byte("endobj"))
+		}
+		value = bytes.TrimSpace(object)
+	}
+	return nil
+}
+
+// entryValue returns the value of an entry of a dictionary, or nil if there is none
+func (p *PDF) entryValue(dict []byte, key string) []byte {
+	if !bytes.HasPrefix(dict, []byte("<<")) {
+		return nil
+	}
+	return p.value([]byte(encrypt.Entry(dict, key)))
+}
+
+// decodedStream returns the data of a stream object without its filters and whether it has any
+func (p *PDF) decodedStream(objNum int) ([]byte, bool, error) {
+	object, err := p.GetObject(objNum)
+	if err != nil {
+		return nil, false, err
+	}
+	raw, err := ParseRawObject([]byte(fmt.Sprintf("%d 0 obj\n%s\nendobj", objNum, object)), objNum, 0, 0)
+	if err != nil {
+		return nil, false, err
+	}
+	if !raw.IsStream {
+		return nil, false, fmt.Errorf("object %d is not a stream", objNum)
+	}
+	data := append([]byte{}, raw.StreamRaw...)
+	names := strings.Fields(strings.ReplaceAll(strings.Trim(string(p.entryValue(raw.DictRaw, "/Filter")), "[]"), "/", " /"))
+	for _, name := range names {
+		if data, err = DecodeFilter(data, name); err != nil {
+			return nil, true, fmt.Errorf("failed to decode stream %d: %w", objNum, err)
+		}
+	}
+	return data, len(names) > 0, nil
+}
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..2e58f1e 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -7,8 +7,8 @@ import (
 	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -56,7 +56,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", stream.Name, objNum))
+		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("%s%d 0 R", LiteralString(stream.Name), objNum))
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
@@ -68,8 +68,9 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		joinStrings(xfaArrayParts, ""))
 	b.acroFormNum = b.writer.AddObject([]byte(acroFormContent))
 
-	// Create catalog (root) with AcroForm reference
-	catalogContent := fmt.Sprintf("<</Type/Catalog/AcroForm %d 0 R>>", b.acroFormNum)
+	// Create catalog (root) with AcroForm reference and the page tree every catalog has
+	pagesNum := b.writer.AddObject([]byte("<</Type/Pages/Kids[]/Count 0>>"))
+	catalogContent := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>", pagesNum, b.acroFormNum)
 	b.catalogNum = b.writer.AddObject([]byte(catalogContent))
 
 	// Set root
@@ -88,391 +89,107 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 		log.Printf("Rebuilding PDF with %d updated streams", len(updatedStreams))
 	}
 
-	// Parse the original PDF structure
-	objects, err := parseAllObjects(originalPDF, encryptInfo, b.verbose)
+	pdf, err := parse.OpenWithOptions(originalPDF, parse.ParseOptions{Verbose: b.verbose, Encryption: encryptInfo})
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse original PDF: %v", err)
 	}
-
-	if b.verbose {
-		log.Printf("Parsed %d objects from original PDF", len(objects))
+	trailer := pdf.Trailer()
+	if trailer == nil {
+		return nil, fmt.Errorf("failed to parse original PDF: no trailer found")
 	}
 
-	// Find trailer info
-	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
-
-	if b.verbose {
-		log.Printf("Trailer: Root=%d, Info=%d, Encrypt=%d", rootObjNum, infoObjNum, encryptObjNum)
-	}
-
-	// Find XFA stream references in AcroForm
-	xfaStreamMap, err := findXFAStreamMap(originalPDF, encryptInfo, b.verbose)
+	// Find the objects of the updated streams
+	packets, err := pdf.XFAPackets()
 	if err != nil {
-		if b.verbose {
-			log.Printf("Warning: could not find XFA stream map: %v", err)
-		}
+		return nil, fmt.Errorf("failed to find XFA streams: %w", err)
 	}
-
-	// Update stream objects with new data
-	for streamName, newData := range updatedStreams {
-		if objNum, ok := xfaStreamMap[streamName]; ok {
-			if obj, objOk := objects[objNum]; objOk {
-				// Compress the new data
-				var compressed bytes.Buffer
-				zw := zlib.NewWriter(&compressed)
-				zw.Write(newData)
-				zw.Close()
-
-				// Update the object's stream
-				obj.Stream = compressed.Bytes()
-				if obj.Dict == nil {
-					obj.Dict = make(Dictionary)
-				}
-				obj.Dict["Filter"] = "/FlateDecode"
-				obj.Dict["Length"] = len(obj.Stream)
-
-				if b.verbose {
-					log.Printf("Updated stream '%s' (object %d): %d bytes compressed", streamName, objNum, len(obj.Stream))
-				}
-			}
+	for _, packet := range packets {
+		if _, ok := updatedStreams[packet.Name]; ok {
+			b.xfaStreams[packet.Name] = packet.ObjectNumber
 		}
 	}
-
-	// Add all objects to writer
-	for objNum, obj := range objects {
-		if obj.Stream != nil {
-			b.writer.SetStreamObject(objNum, obj.Dict, obj.Stream, false) // Already compressed
-		} else if obj.Content != nil {
-			b.writer.SetObject(objNum, obj.Content)
+	updatedObjects := make(map[int][]byte)
+	for name, data := range updatedStreams {
+		objNum, ok := b.xfaStreams[name]
+		if !ok {
+			return nil, fmt.Errorf("XFA stream %q not found in the original PDF", name)
 		}
+		updatedObjects[objNum] = data
 	}
 
-	// Set trailer references
-	if rootObjNum > 0 {
-		b.writer.SetRoot(rootObjNum)
-	}
-	if infoObjNum > 0 {
-		b.writer.SetInfo(infoObjNum)
-	}
-	if encryptObjNum > 0 && encryptInfo != nil {
-		b.writer.SetEncryptRef(encryptObjNum)
-		b.writer.SetEncryption(encryptInfo, fileID)
-	}
-
-	return b.writer.Bytes()
-}
-
-// parseAllObjects parses all objects from a PDF including those in object streams
-func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
-	objects := make(map[int]*PDFObject)
-
-	// First, parse direct objects (those with "N G obj" pattern)
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
-	matches := objPattern.FindAllSubmatchIndex(pdfBytes, -1)
-
-	for _, match := range matches {
-		objNumStr := string(pdfBytes[match[2]:match[3]])
-		genNumStr := string(pdfBytes[match[4]:match[5]])
-
-		objNum, _ := strconv.Atoi(objNumStr)
-		genNum, _ := strconv.Atoi(genNumStr)
-
-		// Find endobj
-		objStart := match[1] // After "obj"
-		endObjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if endObjPos == -1 {
-			continue
-		}
-
-		objContent := pdfBytes[objStart : objStart+endObjPos]
-
-		// Check for stream
-		streamPos := bytes.Index(objContent, []byte("stream"))
-		var streamData []byte
-		var dict Dictionary
-
-		if streamPos != -1 {
-			// Parse dictionary
-			dictContent := objContent[:streamPos]
-			dict = parseDictionary(dictContent)
-
-			// Find stream data
-			streamStart := streamPos + 6
-			// Skip EOL
-			for streamStart < len(objContent) && (objContent[streamStart] == '\r' || objContent[streamStart] == '\n') {
-				streamStart++
-			}
-
-			// Find endstream
-			endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
-			if endstreamPos == -1 {
-				endstreamPos = len(objContent) - streamStart
-			}
-
-			// Use Length from dictionary if available
-			if length, ok := dict["Length"].(int); ok && streamStart+length <= len(objContent) {
-				streamData = objContent[streamStart : streamStart+length]
-			} else {
-				streamData = objContent[streamStart : streamStart+endstreamPos]
-			}
-		}
-
-		// Trim whitespace from content
-		content := bytes.TrimSpace(objContent)
-		if streamPos != -1 {
-			content = bytes.TrimSpace(objContent[:streamPos])
-		}
-
-		objects[objNum] = &PDFObject{
-			Number:     objNum,
-			Generation: genNum,
-			Content:    content,
-			Stream:     streamData,
-			Dict:       dict,
-		}
-	}
-
-	// Now extract objects from object streams using the parser
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef > 0 {
-		xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, startXRef, false)
-		if err == nil {
-			// Process objects stored in object streams
-			for objNum, entry := range xrefResult.ObjectStreams {
-				if _, exists := objects[objNum]; exists {
-					continue // Already have this object as a direct object
-				}
-
-				// Extract object from the object stream
-				objData, err := parse.GetObjectFromStream(pdfBytes, objNum, entry.StreamObjNum, entry.IndexInStream, encryptInfo, false)
-				if err != nil {
-					if verbose {
-						log.Printf("Warning: failed to extract object %d from stream %d: %v", objNum, entry.StreamObjNum, err)
-					}
-					continue
-				}
-
-				// Parse the extracted object content
-				objects[objNum] = &PDFObject{
-					Number:     objNum,
-					Generation: 0,
-					Content:    bytes.TrimSpace(objData),
-				}
-
-				if verbose {
-					log.Printf("Extracted object %d from object stream %d", objNum, entry.StreamObjNum)
-				}
+	// Add all objects to the writer, which gives them all generation 0
+	b.writer.SetVersion(pdf.Version())
+	for _, objNum := range pdf.Objects() {
+		object, err := pdf.GetObject(objNum)
+		if err != nil {
+			if b.verbose {
+				log.Printf("Warning: failed to get object %d: %v", objNum, err)
 			}
-		} else if verbose {
-			log.Printf("Warning: could not parse xref stream: %v", err)
+			continue
 		}
-	}
-
-	return objects, nil
-}
-
-// findStartXRef finds the startxref position in a PDF
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end of file
-	searchLen := min(1024, len(pdfBytes))
-	tailStart := len(pdfBytes) - searchLen
-	tail := string(pdfBytes[tailStart:])
-
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindStringSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(match[1], 10, 64)
-		if err == nil {
-			return val
+		if header := objectHeader.Find(object); header != nil {
+			object = bytes.TrimSuffix(bytes.TrimSpace(object[len(header):]), []byte("endobj"))
 		}
-	}
-	return -1
-}
-
-// parseDictionary parses a PDF dictionary into our Dictionary type
-func parseDictionary(data []byte) Dictionary {
-	dict := make(Dictionary)
-
-	// Simple parsing - extract key-value pairs
-	s := string(data)
-
-	// Remove << and >>
-	s = strings.TrimPrefix(strings.TrimSpace(s), "<<")
-	s = strings.TrimSuffix(strings.TrimSpace(s), ">>")
-
-	// Find /Key Value pairs
-	keyPattern := regexp.MustCompile(`/(\w+)\s*`)
-	matches := keyPattern.FindAllStringSubmatchIndex(s, -1)
-
-	for i, match := range matches {
-		key := s[match[2]:match[3]]
-
-		// Value is from end of key to start of next key (or end)
-		valueStart := match[1]
-		var valueEnd int
-		if i+1 < len(matches) {
-			valueEnd = matches[i+1][0]
-		} else {
-			valueEnd = len(s)
+		object = bytes.TrimSpace(object)
+		if objType := encrypt.Entry(object, "/Type"); objType == "/XRef" || objType == "/ObjStm" {
+			continue // part of the file's structure, which is written anew
 		}
-
-		value := strings.TrimSpace(s[valueStart:valueEnd])
-
-		// Parse value type
-		if num, err := strconv.Atoi(value); err == nil {
-			dict[key] = num
-		} else {
-			dict[key] = value
+		object = encrypt.ReplaceReferences(object, func(objNum int) string {
+			return fmt.Sprintf("%d 0 R", objNum)
+		})
+		if data, ok := updatedObjects[objNum]; ok {
+			object = flateStream(object, data)
 		}
+		b.writer.SetObject(objNum, object)
 	}
 
-	return dict
-}
-
-// parseTrailerInfo extracts trailer references
-func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
-	pdfStr := string(pdfBytes)
-
-	// Find Root
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+\d+\s+R`)
-	if match := rootPattern.FindStringSubmatch(pdfStr); match != nil {
-		rootNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Info
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+\d+\s+R`)
-	if match := infoPattern.FindStringSubmatch(pdfStr); match != nil {
-		infoNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Encrypt
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+\d+\s+R`)
-	if match := encryptPattern.FindStringSubmatch(pdfStr); match != nil {
-		encryptNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find ID
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	if match := idPattern.FindStringSubmatch(pdfStr); match != nil {
-		fileID, _ = hexDecode(match[1])
-	}
-
-	return
-}
-
-// findXFAStreamMap finds the mapping of XFA stream names to object numbers
-func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// First find AcroForm reference
-	pdfStr := string(pdfBytes)
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+\d+\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		return findXFAStreamMapInline(pdfBytes)
-	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return result, fmt.Errorf("invalid AcroForm object number")
-	}
-
-	// Get the AcroForm object using proper parser (handles object streams)
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, false)
-	if err != nil {
-		return result, fmt.Errorf("failed to get AcroForm object: %v", err)
-	}
-
-	// Find XFA array in AcroForm content
-	return parseXFAArrayFromContent(acroFormData, verbose)
-}
-
-// findXFAStreamMapInline finds XFA array when AcroForm is inline
-func findXFAStreamMapInline(pdfBytes []byte) (map[string]int, error) {
-	result := make(map[string]int)
-	pdfStr := string(pdfBytes)
-
-	xfaPattern := regexp.MustCompile(`/XFA\s*\[([^\]]+)\]`)
-	match := xfaPattern.FindStringSubmatch(pdfStr)
-	if match == nil {
-		return result, fmt.Errorf("XFA array not found")
-	}
-
-	return parseXFAArrayContent(match[1])
-}
-
-// parseXFAArrayFromContent parses XFA array from object content
-func parseXFAArrayFromContent(content []byte, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// Find XFA array
-	xfaIdx := bytes.Index(content, []byte("/XFA"))
-	if xfaIdx == -1 {
-		return result, fmt.Errorf("XFA not found in AcroForm")
+	// Set trailer references
+	if objNum := referencedObject(trailer.RootRef); objNum > 0 {
+		b.writer.SetRoot(objNum)
 	}
-
-	// Find array start
-	arrayStart := bytes.Index(content[xfaIdx:], []byte("["))
-	if arrayStart == -1 {
-		return result, fmt.Errorf("XFA array start not found")
+	if objNum := referencedObject(trailer.InfoRef); objNum > 0 {
+		b.writer.SetInfo(objNum)
 	}
-	arrayStart += xfaIdx
-
-	// Find array end
-	depth := 0
-	arrayEnd := arrayStart
-	for i := arrayStart; i < len(content); i++ {
-		if content[i] == '[' {
-			depth++
-		} else if content[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEnd = i + 1
-				break
-			}
-		}
+	if objNum := referencedObject(trailer.EncryptRef); objNum > 0 {
+		b.writer.SetEncryptRef(objNum)
 	}
-
-	arrayContent := string(content[arrayStart+1 : arrayEnd-1])
-	if verbose {
-		log.Printf("Found XFA array content: %s", arrayContent)
+	if pdf.IsEncrypted() {
+		b.writer.SetEncryption(pdf.Encryption(), encrypt.ExtractFileID(originalPDF, b.verbose))
 	}
 
-	return parseXFAArrayContent(arrayContent)
+	return b.writer.Bytes()
 }
 
-// parseXFAArrayContent parses XFA array content string
-func parseXFAArrayContent(arrayContent string) (map[string]int, error) {
-	result := make(map[string]int)
+// objectHeader matches the header of an indirect object
+var objectHeader = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj\b`)
 
-	refPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+\d+\s+R`)
-	refs := refPattern.FindAllStringSubmatch(arrayContent, -1)
+// referencePattern finds an indirect reference, possibly after the key it is the value of
+var referencePattern = regexp.MustCompile(`(\d+)\s+\d+\s+R\b`)
 
-	for _, ref := range refs {
-		name := ref[1]
-		objNum, _ := strconv.Atoi(ref[2])
-		result[name] = objNum
+// referencedObject returns the object number of an indirect reference, or 0 if it is none
+func referencedObject(ref string) int {
+	objNum := 0
+	if match := referencePattern.FindStringSubmatch(ref); match != nil {
+		objNum, _ = strconv.Atoi(match[1])
 	}
-
-	return result, nil
+	return objNum
 }
 
-// hexDecode decodes a hex string to bytes
-func hexDecode(s string) ([]byte, error) {
-	if len(s)%2 != 0 {
-		s = "0" + s
-	}
-	result := make([]byte, len(s)/2)
-	for i := 0; i < len(s); i += 2 {
-		b, err := strconv.ParseUint(s[i:i+2], 16, 8)
-		if err != nil {
-			return nil, err
-		}
-		result[i/2] = byte(b)
-	}
-	return result, nil
+// flateStream returns a stream object with other data, which it compresses
+func flateStream(object, data []byte) []byte {
+	var compressed bytes.Buffer
+	zw := zlib.NewWriter(&compressed)
+	zw.Write(data)
+	zw.Close()
+
+	end := len(object)
+	if raw, err := parse.ParseRawObject([]byte(fmt.Sprintf("1 0 obj\n%s\nendobj", object)), 1, 0, 0); err == nil && raw.IsStream {
+		object, end = raw.DictRaw, len(raw.DictRaw)
+	}
+	dict := encrypt.RemoveEntry(append([]byte{}, object[:end]...), "/DecodeParms")
+	dict = encrypt.SetEntry(dict, "/Filter", "/FlateDecode")
+	dict = encrypt.SetLength(dict, compressed.Len())
+	return []byte(fmt.Sprintf("%s\nstream\n%s\nendstream", dict, compressed.Bytes()))
 }
 
 // joinStrings joins strings without separator
diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..5fb3fab 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,9 @@
 package forms
 
 import (
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +82,14 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	if len(password) == 0 {
+		password = w.password
+	}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password, Verbose: verbose})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	return xfa.UpdateXFAInPDF(pdfBytes, data, pdf.Encryption(), verbose)
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -115,7 +114,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -137,7 +136,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -166,10 +165,19 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 	return acroform.ExtractAcroForm(pdfBytes, password, verbose)
 }
 
+// extractXFAStreams extracts the XFA streams of a PDF, which may be encrypted
+func extractXFAStreams(pdfBytes []byte, password []byte, verbose bool) (*xfa.XFAStreams, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password, Verbose: verbose})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+	return xfa.ExtractAllXFAStreams(pdfBytes, pdf.Encryption(), verbose)
+}
+
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, nil, err
 	}
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..e813506 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -1,99 +1,16 @@
 package xfa
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
+	"encoding/xml"
 	"fmt"
-	"io"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractStreamDataFromObject extracts stream data from raw object bytes
-// The object should already be decrypted
-func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find stream keyword
-	streamIdx := bytes.Index(objData, []byte("stream"))
-	if streamIdx == -1 {
-		// Not a stream object - might be a simple value
-		// Look for dictionary or value content
-		dictStart := bytes.Index(objData, []byte("<<"))
-		if dictStart != -1 {
-			return objData[dictStart:], nil
-		}
-		return objData, nil
-	}
-
-	// Find endstream
-	endstreamIdx := bytes.Index(objData[streamIdx:], []byte("endstream"))
-	if endstreamIdx == -1 {
-		return nil, fmt.Errorf("endstream not found in object %d", objNum)
-	}
-	endstreamIdx += streamIdx
-
-	// Get /Length from dictionary if available
-	dictEnd := streamIdx
-	dictStr := string(objData[:dictEnd])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictStr)
-
-	// Skip "stream" and EOL
-	dataStart := streamIdx + 6
-	if dataStart < len(objData) && objData[dataStart] == '\r' {
-		dataStart++
-	}
-	if dataStart < len(objData) && objData[dataStart] == '\n' {
-		dataStart++
-	}
-
-	var streamData []byte
-	if lengthMatch != nil {
-		length, _ := strconv.Atoi(lengthMatch[1])
-		if dataStart+length <= len(objData) {
-			streamData = objData[dataStart : dataStart+length]
-		} else {
-			streamData = objData[dataStart:endstreamIdx]
-		}
-	} else {
-		streamData = objData[dataStart:endstreamIdx]
-	}
-
-	// Check if FlateDecode filter is present
-	if bytes.Contains(objData[:streamIdx], []byte("/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter /FlateDecode")) {
-		// Decompress
-		zlibReader, err := zlib.NewReader(bytes.NewReader(streamData))
-		if err == nil {
-			decompressed, err := io.ReadAll(zlibReader)
-			zlibReader.Close()
-			if err == nil {
-				return decompressed, nil
-			}
-		}
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err := io.ReadAll(flateReader)
-		flateReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-		// Return raw data if decompression fails
-		if verbose {
-			log.Printf("Decompression failed for object %d, returning raw stream data", objNum)
-		}
-	}
-
-	return streamData, nil
-}
-
 // XFAStreamInfo contains stream data and metadata
 type XFAStreamInfo struct {
 	Data         []byte `json:"data"`
@@ -120,191 +37,66 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 		log.Printf("Extracting all XFA streams from PDF (no UniPDF)")
 	}
 
-	streams := &XFAStreams{}
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatchIndex(pdfStr)
-
-	var acroFormObjNum int
-	var err error
-
-	if acroFormMatch != nil {
-		// AcroForm is an indirect reference
-		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
-		if err != nil {
-			return nil, fmt.Errorf("invalid AcroForm object number: %v", err)
-		}
-
-		if verbose {
-			log.Printf("Found AcroForm indirect reference: object %d", acroFormObjNum)
-		}
-	} else {
-		// Try inline AcroForm dictionary
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		acroFormInlineMatch := acroFormInlinePattern.FindStringIndex(pdfStr)
-		if acroFormInlineMatch == nil {
-			return nil, fmt.Errorf("AcroForm not found (neither inline nor indirect reference)")
-		}
-		// For inline, we'll search from that position
-		acroFormObjNum = 0
-	}
-
-	// Find and decrypt AcroForm object to get XFA array using PyPDF approach
-	var xfaArrayContent string
-	if acroFormObjNum > 0 {
-		// Use new GetObject function that handles both direct objects and object streams
-		// This is the equivalent of PyPDF's get_object() method
-		decryptedContent, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("GetObject failed for AcroForm %d: %v, trying fallback", acroFormObjNum, err)
-			}
-			// Fallback to old method
-			decryptedContent, err = findAndDecryptAcroForm(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		xfaArrayContent, err = findXFAArrayContent(decryptedContent, verbose)
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		// Inline AcroForm - find XFA directly
-		xfaPattern := regexp.MustCompile(`/XFA\s*\[`)
-		xfaMatch := xfaPattern.FindStringIndex(pdfStr)
-		if xfaMatch == nil {
-			return nil, fmt.Errorf("XFA entry not found")
-		}
-
-		arrayStart := xfaMatch[1] - 1
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(pdfStr) && i < arrayStart+10000; i++ {
-			if pdfStr[i] == '[' {
-				depth++
-			} else if pdfStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i
-					break
-				}
-			}
-		}
-
-		if arrayEnd == arrayStart {
-			return nil, fmt.Errorf("could not find end of XFA array")
-		}
-
-		xfaArrayContent = pdfStr[arrayStart+1 : arrayEnd]
-	}
-
-	if verbose {
-		log.Printf("Found XFA array content: %s", xfaArrayContent[:min(200, len(xfaArrayContent))])
-	}
-
-	// Parse XFA array: format is (name) N M R (name) N M R ...
-	// Pattern: (name) followed by object number, generation, and R
-	// Note: whitespace between ) and object number is optional
-	streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
-	matches := streamPattern.FindAllStringSubmatch(xfaArrayContent, -1)
-
-	if len(matches) == 0 {
-		return nil, fmt.Errorf("no stream references found in XFA array")
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose, Encryption: encryptInfo})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	if verbose {
-		log.Printf("Found %d stream references in XFA array", len(matches))
+	packets, err := pdf.XFAPackets()
+	if err != nil {
+		return nil, err
 	}
 
-	// Extract each stream
-	for _, match := range matches {
-		streamName := match[1]
-		objNum, err := strconv.Atoi(match[2])
-		if err != nil {
-			if verbose {
-				log.Printf("Invalid stream object number for %s: %s", streamName, match[2])
-			}
-			continue
-		}
-
-		// Use GetObject which properly handles both direct objects and objects in streams
-		objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
-			}
-			// Fallback to old method
-			objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
-				}
-				continue
-			}
+	streams := &XFAStreams{}
+	for _, packet := range packets {
+		if verbose {
+			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", packet.Name, len(packet.Data), packet.ObjectNumber, packet.Compressed)
 		}
-
-		// Extract stream data from the object
-		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
-		if err != nil {
+		stream := streams.named(packet.Name)
+		if stream == nil {
 			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+				log.Printf("Unknown XFA stream type: %s", packet.Name)
 			}
 			continue
 		}
-
-		// Decompress if needed
-		decompressed, wasCompressed, err := DecompressStream(streamData)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
-			}
-			decompressed = streamData // Use as-is if decompression fails
-		}
-
-		streamInfo := &XFAStreamInfo{
-			Data:         decompressed,
-			ObjectNumber: objNum,
-			Compressed:   wasCompressed,
-		}
-
-		if verbose {
-			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", streamName, len(decompressed), objNum, wasCompressed)
-		}
-
-		// Store in appropriate field
-		switch streamName {
-		case "template":
-			streams.Template = streamInfo
-		case "datasets":
-			streams.Datasets = streamInfo
-		case "config":
-			streams.Config = streamInfo
-		case "localeSet":
-			streams.LocaleSet = streamInfo
-		case "connectionSet":
-			streams.ConnectionSet = streamInfo
-		case "stylesheet":
-			streams.Stylesheet = streamInfo
-		case "xmp":
-			streams.XMP = streamInfo
-		case "signature":
-			streams.Signature = streamInfo
-		case "sourceSet":
-			streams.SourceSet = streamInfo
-		default:
-			if verbose {
-				log.Printf("Unknown XFA stream type: %s", streamName)
-			}
+		*stream = &XFAStreamInfo{
+			Data:         packet.Data,
+			ObjectNumber: packet.ObjectNumber,
+			Compressed:   packet.Compressed,
 		}
 	}
-
 	return streams, nil
 }
 
+// streamNames are the names of the XFA streams, in the order in which a form lists them
+var streamNames = []string{
+	"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet",
+}
+
+// named returns the field for the stream with the given name, or nil if there is none
+func (s *XFAStreams) named(name string) **XFAStreamInfo {
+	switch name {
+	case "template":
+		return &s.Template
+	case "datasets":
+		return &s.Datasets
+	case "config":
+		return &s.Config
+	case "localeSet":
+		return &s.LocaleSet
+	case "connectionSet":
+		return &s.ConnectionSet
+	case "stylesheet":
+		return &s.Stylesheet
+	case "xmp":
+		return &s.XMP
+	case "signature":
+		return &s.Signature
+	case "sourceSet":
+		return &s.SourceSet
+	}
+	return nil
+}
+
 // FindXFADatasetsStream finds and extracts the XFA datasets stream
 // This is a convenience function that uses ExtractAllXFAStreams and returns only the datasets stream
 func FindXFADatasetsStream(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, int, error) {
@@ -330,32 +122,10 @@ func RebuildPDFFromXFAStreams(originalPDFBytes []byte, streams *XFAStreams, encr
 
 	// Map stream names to stream data
 	updatedStreams := make(map[string][]byte)
-	if streams.Template != nil && len(streams.Template.Data) > 0 {
-		updatedStreams["template"] = streams.Template.Data
-	}
-	if streams.Datasets != nil && len(streams.Datasets.Data) > 0 {
-		updatedStreams["datasets"] = streams.Datasets.Data
-	}
-	if streams.Config != nil && len(streams.Config.Data) > 0 {
-		updatedStreams["config"] = streams.Config.Data
-	}
-	if streams.LocaleSet != nil && len(streams.LocaleSet.Data) > 0 {
-		updatedStreams["localeSet"] = streams.LocaleSet.Data
-	}
-	if streams.ConnectionSet != nil && len(streams.ConnectionSet.Data) > 0 {
-		updatedStreams["connectionSet"] = streams.ConnectionSet.Data
-	}
-	if streams.Stylesheet != nil && len(streams.Stylesheet.Data) > 0 {
-		updatedStreams["stylesheet"] = streams.Stylesheet.Data
-	}
-	if streams.XMP != nil && len(streams.XMP.Data) > 0 {
-		updatedStreams["xmp"] = streams.XMP.Data
-	}
-	if streams.Signature != nil && len(streams.Signature.Data) > 0 {
-		updatedStreams["signature"] = streams.Signature.Data
-	}
-	if streams.SourceSet != nil && len(streams.SourceSet.Data) > 0 {
-		updatedStreams["sourceSet"] = streams.SourceSet.Data
+	for _, name := range streamNames {
+		if stream := *streams.named(name); stream != nil && len(stream.Data) > 0 {
+			updatedStreams[name] = stream.Data
+		}
 	}
 
 	// Use XFABuilder to rebuild
@@ -372,55 +142,10 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 
 	// Collect all non-nil streams
 	var xfaStreams []write.XFAStreamData
-
-	if streams.Template != nil && len(streams.Template.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "template",
-			Data:     streams.Template.Data,
-			Compress: true,
-		})
-	}
-	if streams.Datasets != nil && len(streams.Datasets.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "datasets",
-			Data:     streams.Datasets.Data,
-			Compress: true,
-		})
-	}
-	if streams.Config != nil && len(streams.Config.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "config",
-			Data:     streams.Config.Data,
-			Compress: true,
-		})
-	}
-	if streams.LocaleSet != nil && len(streams.LocaleSet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "localeSet",
-			Data:     streams.LocaleSet.Data,
-			Compress: true,
-		})
-	}
-	if streams.ConnectionSet != nil && len(streams.ConnectionSet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "connectionSet",
-			Data:     streams.ConnectionSet.Data,
-			Compress: true,
-		})
-	}
-	if streams.Stylesheet != nil && len(streams.Stylesheet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "stylesheet",
-			Data:     streams.Stylesheet.Data,
-			Compress: true,
-		})
-	}
-	if streams.XMP != nil && len(streams.XMP.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "xmp",
-			Data:     streams.XMP.Data,
-			Compress: true,
-		})
+	for _, name := range streamNames {
+		if stream := *streams.named(name); stream != nil && len(stream.Data) > 0 {
+			xfaStreams = append(xfaStreams, write.XFAStreamData{Name: name, Data: stream.Data, Compress: true})
+		}
 	}
 
 	builder := write.NewXFABuilder(verbose)
@@ -440,37 +165,15 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		log.Printf("Stream size: %d bytes", len(datasetsStream))
 	}
 
-	// Decompress if needed and parse XML
-	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
-	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %v", err)
-	}
-
-	if verbose {
-		log.Printf("Decompressed XFA XML: %d bytes (was compressed: %v)", len(xfaXML), wasCompressed)
-	}
-
 	// Update field values in XFA XML
-	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
+	updatedXML, err := UpdateXFAValues(string(datasetsStream), formData, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("error updating XFA values: %v", err)
 	}
 
-	// Re-compress if it was compressed
-	updatedStream := []byte(updatedXML)
-	if wasCompressed {
-		compressed, err := CompressStream(updatedStream)
-		if err != nil {
-			return nil, fmt.Errorf("error compressing stream: %v", err)
-		}
-		updatedStream = compressed
-		if verbose {
-			log.Printf("Re-compressed stream: %d bytes", len(updatedStream))
-		}
-	}
-
 	// Update PDF with new stream
-	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
+	builder := write.NewXFABuilder(verbose)
+	updatedPDF, err := builder.BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
 	if err != nil {
 		return nil, fmt.Errorf("error replacing stream: %v", err)
 	}
@@ -510,50 +213,111 @@ func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (stri
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	resultXML := xfaXML
-
-	for fieldName, newValue := range formData {
-		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
-		fieldIndex := strings.Index(resultXML, fieldPattern)
-
-		if fieldIndex == -1 {
-			if verbose {
-				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
-			}
+	fields := findFields(xfaXML)
+	found := make(map[string]bool)
+	var result strings.Builder
+	written := 0 // the part of xfaXML which is in the result
+
+	for _, field := range fields {
+		newValue, ok := formData[field.name]
+		if !ok || found[field.name] {
 			continue
 		}
+		found[field.name] = true
 
-		// Find the value element for this field
-		fieldEnd := strings.Index(resultXML[fieldIndex:], "</field>")
-		if fieldEnd == -1 {
-			continue
+		var value strings.Builder
+		if err := xml.EscapeText(&value, []byte(formatFieldValue(newValue))); err != nil {
+			return "", err
 		}
+		result.WriteString(xfaXML[written:field.start])
+		result.WriteString(field.before + value.String() + field.after)
+		written = field.end
+		if verbose {
+			log.Printf("Updated field '%s' = '%v'", field.name, newValue)
+		}
+	}
+	result.WriteString(xfaXML[written:])
 
-		fieldSection := resultXML[fieldIndex : fieldIndex+fieldEnd]
-
-		// Check if value element exists
-		valueStart := strings.Index(fieldSection, "<value>")
-		valueEnd := strings.Index(fieldSection, "</value>")
+	if verbose {
+		for fieldName := range formData {
+			if !found[fieldName] {
+				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
+			}
+		}
+	}
+	return result.String(), nil
+}
 
-		valueStr := fmt.Sprintf("%v", newValue)
+// xmlField is a field element of an XFA document and where its value is or belongs
+type xmlField struct {
+	name          string
+	start, end    int    // The part of the document to replace with the value
+	before, after string // What surrounds the value there
+}
 
-		if valueStart != -1 && valueEnd != -1 {
-			// Replace existing value
-			beforeValue := resultXML[:fieldIndex+valueStart+7]
-			afterValue := resultXML[fieldIndex+valueEnd:]
-			resultXML = beforeValue + valueStr + afterValue
-		} else {
-			// Insert new value element before </field>
-			beforeFieldEnd := resultXML[:fieldIndex+fieldEnd]
-			afterFieldEnd := resultXML[fieldIndex+fieldEnd:]
-			resultXML = beforeFieldEnd + "<value>" + valueStr + "</value>" + afterFieldEnd
+// findFields returns the fields of an XFA document in their order
+func findFields(xfaXML string) []xmlField {
+	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
+	decoder.Strict = false
+
+	var fields []xmlField
+	var field *xmlField // the field the decoder is in
+	depth := 0          // the number of elements open in that field, including itself
+	hasValue := false
+	valueStart := 0
+	for {
+		start := int(decoder.InputOffset())
+		token, err := decoder.Token()
+		if err != nil {
+			return fields
 		}
-
-		if verbose {
-			log.Printf("Updated field '%s' = '%s'", fieldName, valueStr)
+		end := int(decoder.InputOffset())
+
+		switch element := token.(type) {
+		case xml.StartElement:
+			tag := xfaXML[start:end]
+			empty := strings.HasSuffix(tag, "/>")
+			switch {
+			case field != nil:
+				depth++
+				if depth == 2 && element.Name.Local == "value" && !hasValue {
+					hasValue, valueStart = true, end
+					if empty {
+						field.start, field.end = start, end
+						field.before, field.after = "<value>", "</value>"
+					}
+				}
+			case element.Name.Local == "field":
+				field = &xmlField{before: "<value>", after: "</value>"}
+				depth, hasValue, valueStart = 1, false, 0
+				for _, attr := range element.Attr {
+					if attr.Name.Local == "name" {
+						field.name = attr.Value
+					}
+				}
+				if empty { // it becomes an element with content
+					hasValue = true
+					field.start, field.end = end-len("/>"), end
+					field.before = "><value>"
+					field.after = "</value></" + tag[1:strings.IndexAny(tag, " \t\r\n/")] + ">"
+				}
+			}
+		case xml.EndElement:
+			if field == nil {
+				continue
+			}
+			depth--
+			if depth == 1 && hasValue && field.end == 0 {
+				field.start, field.end = valueStart, start
+				field.before, field.after = "", ""
+			}
+			if depth == 0 {
+				if !hasValue {
+					field.start, field.end = start, start
+				}
+				fields = append(fields, *field)
+				field = nil
+			}
 		}
 	}
-
-	return resultXML, nil
 }
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..6e987f0 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -7,424 +7,13 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// findObjectBoundaries finds the start and end of a PDF object using incremental parsing
-// This uses non-encrypted markers ("obj", "endobj") to locate object boundaries
-func findObjectBoundaries(pdfBytes []byte, objIndex int, objNum int, objName string, verbose bool) (objStart, objEnd int, objContent []byte, err error) {
-	// Find object boundaries - search backwards from objIndex to find "obj" keyword
-	// The xref offset might point to encrypted content, but "obj" keyword is not encrypted
-	// Strategy: First try direct pattern search, then fall back to searching for "obj" keyword
-
-	objKeywordPos := -1
-	objStart = objIndex
-
-	// First, try to find the object number pattern directly (works if object header is visible)
-	// This is the most reliable method
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-
-	// Search in a window around the given index first
-	if objIndex >= 0 && objIndex < len(pdfBytes) {
-		searchStart := max(0, objIndex-2000)
-		searchEnd := min(len(pdfBytes), objIndex+2000)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		patternPos := bytes.Index(searchArea, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = searchStart + patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = searchStart + patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		}
-	}
-
-	// If pattern not found in window, the object might be compressed or the offset wrong
-	// Try searching entire PDF (slower but more reliable)
-	if objKeywordPos == -1 {
-		patternPos := bytes.Index(pdfBytes, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		} else {
-			// Object header not found - might be compressed or offset is wrong
-			// Try searching for just the number "212" followed by whitespace and "0" near the offset
-			// This handles cases where the object header format is slightly different
-			numStr := fmt.Sprintf("%d", objNum)
-			searchStart := max(0, objIndex-1000)
-			searchEnd := min(len(pdfBytes), objIndex+1000)
-			searchArea := pdfBytes[searchStart:searchEnd]
-
-			// Look for number pattern
-			numBytes := []byte(numStr)
-			numPos := bytes.Index(searchArea, numBytes)
-			if numPos != -1 {
-				// Found the number, check if followed by space/tab and "0 obj"
-				checkPos := searchStart + numPos + len(numBytes)
-				if checkPos+10 < len(pdfBytes) {
-					afterNum := pdfBytes[checkPos : checkPos+10]
-					// Check for whitespace followed by "0 obj"
-					if afterNum[0] == ' ' || afterNum[0] == '\t' || afterNum[0] == '\n' || afterNum[0] == '\r' {
-						if bytes.HasPrefix(afterNum[1:], []byte("0 obj")) {
-							objKeywordPos = checkPos + 1 + 2 // Position after "0 "
-							objStart = searchStart + numPos
-							// Find line start
-							for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-								objStart--
-							}
-						}
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, try searching for "obj" keyword near the offset and verify object number
-	if objKeywordPos == -1 {
-		searchWindow := 5000 // Very large window for encrypted PDFs
-		searchStart := max(0, objIndex-searchWindow)
-		searchEnd := min(len(pdfBytes), objIndex+searchWindow)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		// Search for "obj" keyword (not encrypted)
-		objKeywordPosInArea := bytes.Index(searchArea, []byte("obj"))
-		if objKeywordPosInArea != -1 {
-			objKeywordPos = searchStart + objKeywordPosInArea
-			// Search backwards to find the start of the object number line
-			for i := objKeywordPos - 1; i >= 0 && i > objKeywordPos-100; i-- {
-				if pdfBytes[i] >= '0' && pdfBytes[i] <= '9' {
-					lineStart := i
-					for lineStart > 0 && pdfBytes[lineStart-1] != '\n' && pdfBytes[lineStart-1] != '\r' {
-						lineStart--
-					}
-					// Verify this is the right object by checking the number
-					lineEnd := objKeywordPos + 3
-					for lineEnd < len(pdfBytes) && pdfBytes[lineEnd] != '\n' && pdfBytes[lineEnd] != '\r' {
-						lineEnd++
-					}
-					lineContent := string(pdfBytes[lineStart:lineEnd])
-					if bytes.Contains([]byte(lineContent), []byte(fmt.Sprintf("%d 0 obj", objNum))) {
-						objStart = lineStart
-						break
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, the object header might be missing or the object is compressed
-	// UniPDF approach: use the xref offset directly and decrypt content there
-	// The xref offset points to the start of encrypted content, so start there
-	// But we should also try searching backwards a bit in case there's a header
-	if objKeywordPos == -1 {
-		// For encrypted PDFs without visible headers, UniPDF decrypts at the xref offset
-		// Try starting slightly before the offset (in case there's a short header)
-		// Then decrypt a larger chunk to ensure we get the full object
-		searchBack := 200 // Search backwards for potential header
-		objStart = max(0, objIndex-searchBack)
-		estimatedSize := 10000 // Larger estimate for AcroForm with XFA
-		objEnd = min(len(pdfBytes), objIndex+estimatedSize)
-		objContent = pdfBytes[objStart:objEnd]
-
-		if verbose {
-			log.Printf("%s object %d: Using xref offset with search window (start=%d, xref=%d, end=%d) - header not found, will decrypt and look for structure",
-				objName, objNum, objStart, objIndex, objEnd)
-		}
-	} else {
-		// Found obj keyword - find endobj normally
-		// Find "endobj" - search forward from objStart
-		objEndBytes := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if objEndBytes == -1 {
-			return 0, 0, nil, fmt.Errorf("%s object %d end not found", objName, objNum)
-		}
-		objEnd = objStart + objEndBytes + 6 // Include "endobj"
-		objContent = pdfBytes[objStart:objEnd]
-	}
-
-	return objStart, objEnd, objContent, nil
-}
-
-// extractDictionaryKeys extracts PDF dictionary keys for debugging
-func extractDictionaryKeys(dictContent []byte) string {
-	var keys []string
-	// Simple extraction: look for /Key patterns
-	content := string(dictContent)
-	keyPattern := regexp.MustCompile(`/([A-Za-z][A-Za-z0-9]*)`)
-	matches := keyPattern.FindAllStringSubmatch(content, -1)
-	for _, match := range matches {
-		if len(match) > 1 {
-			keys = append(keys, match[1])
-		}
-	}
-	if len(keys) > 0 {
-		return strings.Join(keys, ", ")
-	}
-	return "none found"
-}
-
-// findAndDecryptAcroForm finds and decrypts the AcroForm object, returning the decrypted content
-func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find the AcroForm object
-	objIndex, err := parse.FindObjectByNumber(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("AcroForm object %d not found: %v", acroFormObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, objIndex, acroFormObjNum, "AcroForm", verbose)
-	if err != nil {
-		return nil, err
-	}
-
-	if verbose {
-		log.Printf("AcroForm object %d: objStart=%d, objEnd=%d, content length=%d", acroFormObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Decrypt if needed - only decrypt the encrypted portions between markers
-	var decryptedContent []byte
-	if encryptInfo != nil {
-		// Find object structure markers (these are NOT encrypted)
-		objKeywordPos := bytes.Index(objContent, []byte("obj"))
-
-		// Extract generation number from object header (if available)
-		genNum := 0
-		if objKeywordPos != -1 {
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if verbose {
-				log.Printf("Extracted generation number for AcroForm object %d: %d", acroFormObjNum, genNum)
-			}
-		} else {
-			// Object header not found - try to extract from objContent by searching for pattern
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if genNum == 0 {
-				if verbose {
-					log.Printf("AcroForm object header not found, using default generation number 0")
-				}
-				// Note: If decryption fails, we might need to try other generation numbers
-				// but that would be expensive. Most PDFs use generation 0.
-			} else if verbose {
-				log.Printf("Found generation number %d for AcroForm object %d (header not in expected location)", genNum, acroFormObjNum)
-			}
-		}
-
-		var dataStart int
-		if objKeywordPos == -1 {
-			// Object header not found - UniPDF approach: try decrypting from multiple starting points
-			// The xref offset might point to encrypted content, but alignment is unknown
-			// Try starting from the beginning of objContent and let decryptInChunks find alignment
-			// Also try starting from the xref offset position
-			relativeXrefOffset := objIndex - objStart
-			if relativeXrefOffset < 0 {
-				relativeXrefOffset = 0
-			}
-
-			// Try decrypting from start first (decryptInChunks will try alignments)
-			dataStart = 0
-			if verbose {
-				log.Printf("AcroForm object header not found, trying decryption from start of content (xref at relative offset %d)", relativeXrefOffset)
-			}
-		} else {
-			// Skip "obj" and whitespace to find where encrypted data starts
-			dataStart = objKeywordPos + 3
-			for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-				dataStart++
-			}
-		}
-
-		// Check if this is a stream object
-		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-		isStreamObject := streamKeywordPos != -1
-
-		if isStreamObject {
-			// Stream object: decrypt dictionary portion (between "obj" and "stream")
-			// The dictionary is encrypted, but "stream", stream data, "endstream", and "endobj" are not
-			if verbose {
-				log.Printf("AcroForm object is a stream object, decrypting dictionary portion only")
-			}
-
-			// Dictionary is encrypted from dataStart to streamKeywordPos
-			encryptedDict := objContent[dataStart:streamKeywordPos]
-
-			// Decrypt dictionary in chunks if needed (for alignment)
-			// Use extracted generation number
-			decryptedDict, err := decryptInChunks(encryptedDict, acroFormObjNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt dictionary: %v", err)
-				}
-				decryptedContent = objContent
-			} else {
-				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				objectHeader := objContent[:dataStart]
-				streamAndRest := objContent[streamKeywordPos:]
-				decryptedContent = append(objectHeader, decryptedDict...)
-				decryptedContent = append(decryptedContent, streamAndRest...)
-				if verbose {
-					log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
-				}
-			}
-		} else {
-			// Regular object: decrypt content between dataStart and "endobj"
-			endobjPos := bytes.Index(objContent, []byte("endobj"))
-			if endobjPos == -1 {
-				// If endobj not found and no header, try decrypting a reasonable chunk
-				// UniPDF approach: decrypt and look for structure markers
-				if objKeywordPos == -1 {
-					// No header, no endobj - decrypt a chunk starting from xref offset
-					// UniPDF approach: the xref offset points to encrypted content
-					// Calculate where the xref offset is in objContent
-					relativeXrefOffset := objIndex - objStart
-					if relativeXrefOffset < 0 {
-						relativeXrefOffset = 0
-					}
-
-					// Try decrypting from the xref offset position
-					// decryptInChunks will try different alignments, but we should start from xref position
-					decryptStart := relativeXrefOffset
-					decryptLen := min(10000, len(objContent)-decryptStart)
-					// Round down to multiple of 16 for AES
-					decryptLen = (decryptLen / 16) * 16
-					if decryptLen >= 16 {
-						encryptedContent := objContent[decryptStart : decryptStart+decryptLen]
-						if verbose {
-							log.Printf("Attempting to decrypt %d bytes starting from xref position (offset %d in content, absolute %d)",
-								decryptLen, decryptStart, objIndex)
-						}
-						decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-						if err == nil && len(decryptedData) > 0 {
-							// If decryptInChunks succeeded, use the decrypted content
-							// It will have found valid PDF structure (<< or PDF keywords)
-							decryptedContent = decryptedData
-							if verbose {
-								log.Printf("Successfully decrypted AcroForm (no header/endobj): %d bytes", len(decryptedContent))
-
-								// Output full structure for debugging
-								log.Printf("=== DECRYPTED ACROFORM STRUCTURE ===")
-								log.Printf("Content length: %d bytes", len(decryptedContent))
-
-								// Hex dump of first 2000 bytes
-								previewLen := min(2000, len(decryptedContent))
-								log.Printf("First %d bytes (hex dump):", previewLen)
-								for i := 0; i < previewLen; i += 16 {
-									end := min(i+16, previewLen)
-									hexPart := fmt.Sprintf("%04x: ", i)
-									for j := i; j < end; j++ {
-										hexPart += fmt.Sprintf("%02x ", decryptedContent[j])
-									}
-									log.Printf("%s", hexPart)
-								}
-
-								// ASCII dump
-								log.Printf("First %d bytes (ASCII, non-printable as .):", previewLen)
-								asciiLine := ""
-								for i := 0; i < previewLen; i++ {
-									if i > 0 && i%80 == 0 {
-										log.Printf("%s", asciiLine)
-										asciiLine = ""
-									}
-									b := decryptedContent[i]
-									if b >= 32 && b < 127 {
-										asciiLine += string(b)
-									} else {
-										asciiLine += "."
-									}
-								}
-								if asciiLine != "" {
-									log.Printf("%s", asciiLine)
-								}
-
-								// Check for PDF markers
-								if bytes.Contains(decryptedContent, []byte("<<")) {
-									dictStart := bytes.Index(decryptedContent, []byte("<<"))
-									log.Printf("Found '<<' at offset %d", dictStart)
-									// Show context around dictionary start
-									ctxStart := max(0, dictStart-50)
-									ctxEnd := min(len(decryptedContent), dictStart+200)
-									log.Printf("Context around '<<' (offset %d-%d): %q", ctxStart, ctxEnd, string(decryptedContent[ctxStart:ctxEnd]))
-								}
-								if bytes.Contains(decryptedContent, []byte("/XFA")) {
-									xfaPos := bytes.Index(decryptedContent, []byte("/XFA"))
-									log.Printf("Found '/XFA' at offset %d", xfaPos)
-								} else {
-									log.Printf("'/XFA' NOT found in decrypted content")
-									// Check for XFA with different case/spacing
-									if bytes.Contains(decryptedContent, []byte("XFA")) || bytes.Contains(decryptedContent, []byte("xfa")) {
-										log.Printf("Found 'XFA' (case-insensitive) in decrypted content")
-									}
-								}
-								log.Printf("=== END DECRYPTED ACROFORM STRUCTURE ===")
-							}
-						} else {
-							if verbose {
-								log.Printf("Failed to decrypt: %v", err)
-							}
-							decryptedContent = objContent
-						}
-					} else {
-						decryptedContent = objContent
-					}
-				} else {
-					// Has header but no endobj - decrypt up to end
-					endobjPos = len(objContent)
-					encryptedContent := objContent[dataStart:endobjPos]
-					decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-					if err != nil {
-						if verbose {
-							log.Printf("Failed to decrypt object content: %v", err)
-						}
-						decryptedContent = objContent
-					} else {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-					}
-				}
-			} else {
-				// Has endobj - decrypt normally
-				encryptedContent := objContent[dataStart:endobjPos]
-				decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-				if err != nil {
-					if verbose {
-						log.Printf("Failed to decrypt object content: %v", err)
-					}
-					decryptedContent = objContent
-				} else {
-					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
-					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-						decryptedContent = append(decryptedContent, []byte("endobj")...)
-					} else {
-						// No header - just use decrypted content
-						decryptedContent = decryptedData
-						if verbose {
-							log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
-							if bytes.Contains(decryptedContent, []byte("<<")) {
-								log.Printf("Found dictionary markers in decrypted content")
-							}
-						}
-					}
-				}
-			}
-		}
-	} else {
-		decryptedContent = objContent
-	}
-
-	return decryptedContent, nil
-}
-
 // decryptInChunks decrypts data in chunks, trying different alignments to find the correct decryption
 // This handles cases where encrypted data might not start exactly at a 16-byte boundary
 func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
@@ -529,278 +118,6 @@ func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *type
 	return decrypted, nil
 }
 
-// findXFAArrayContent extracts the XFA array content string from decrypted AcroForm content
-func findXFAArrayContent(decryptedContent []byte, verbose bool) (string, error) {
-	// UniPDF approach: the decrypted content might have padding or extra data
-	// Find where the actual PDF dictionary starts (look for "<<")
-	dictStart := bytes.Index(decryptedContent, []byte("<<"))
-	var xfaPos int = -1
-
-	if dictStart != -1 {
-		// Found dictionary start - find matching >> with proper nesting
-		// Must balance << and >> pairs for nested dictionaries
-		dictEnd := -1
-		depth := 0
-		for i := dictStart; i < len(decryptedContent)-1; i++ {
-			if decryptedContent[i] == '<' && decryptedContent[i+1] == '<' {
-				depth++
-				i++ // Skip second '<'
-			} else if decryptedContent[i] == '>' && decryptedContent[i+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd = i
-					break
-				}
-				i++ // Skip second '>'
-			}
-		}
-		if dictEnd != -1 {
-			dictContent := decryptedContent[dictStart : dictEnd+2]
-			if verbose {
-				log.Printf("Found dictionary start at offset %d, end at %d (length: %d bytes)", dictStart, dictEnd, len(dictContent))
-				// Show the actual dictionary content to verify it's valid
-				previewLen := min(200, len(dictContent))
-				log.Printf("Dictionary content preview: %q", dictContent[:previewLen])
-			}
-
-			// Search for /XFA within the dictionary
-			xfaPos = bytes.Index(dictContent, []byte("/XFA"))
-			if xfaPos != -1 {
-				xfaPos += dictStart // Adjust to absolute position
-			} else {
-				// Try case variations
-				xfaPos = bytes.Index(dictContent, []byte("/xfa"))
-				if xfaPos != -1 {
-					xfaPos += dictStart
-				}
-			}
-
-			if xfaPos != -1 {
-				if verbose {
-					log.Printf("Found /XFA at offset %d within dictionary", xfaPos)
-				}
-			} else if verbose {
-				// Dictionary found but no /XFA - show what's in the dictionary
-				log.Printf("Dictionary found but /XFA not found. Dictionary keys: %q", extractDictionaryKeys(dictContent))
-			}
-		} else if verbose {
-			log.Printf("Found '<<' at offset %d but no matching '>>' found - might be false positive", dictStart)
-		}
-	}
-
-	// If not found from dictionary, try searching entire content
-	if xfaPos == -1 {
-		xfaPos = bytes.Index(decryptedContent, []byte("/XFA"))
-	}
-	if xfaPos == -1 {
-		// Try case variations
-		xfaPos = bytes.Index(decryptedContent, []byte("/xfa"))
-	}
-	if xfaPos == -1 {
-		// Try with spaces
-		xfaPos = bytes.Index(decryptedContent, []byte("/ XFA"))
-	}
-	if xfaPos == -1 {
-		// Try searching byte by byte
-		for i := 0; i < len(decryptedContent)-3; i++ {
-			if decryptedContent[i] == '/' &&
-				(decryptedContent[i+1] == 'X' || decryptedContent[i+1] == 'x') &&
-				(decryptedContent[i+2] == 'F' || decryptedContent[i+2] == 'f') &&
-				(decryptedContent[i+3] == 'A' || decryptedContent[i+3] == 'a') {
-				xfaPos = i
-				break
-			}
-		}
-	}
-
-	if xfaPos == -1 {
-		if verbose {
-			log.Printf("XFA not found in decrypted content (length: %d bytes)", len(decryptedContent))
-			// Show content around dictionary start if found
-			if dictStart != -1 {
-				previewStart := max(0, dictStart-50)
-				previewEnd := min(len(decryptedContent), dictStart+500)
-				log.Printf("Content around dictionary start (offset %d): %q", dictStart, decryptedContent[previewStart:previewEnd])
-			} else {
-				log.Printf("Decrypted content preview (first 500 bytes): %q", decryptedContent[:min(500, len(decryptedContent))])
-			}
-		}
-		return "", fmt.Errorf("XFA entry not found in AcroForm")
-	}
-
-	// Find array after /XFA
-	arrayStart := bytes.Index(decryptedContent[xfaPos:], []byte("["))
-	if arrayStart == -1 {
-		return "", fmt.Errorf("XFA array start not found after /XFA")
-	}
-	arrayStartIdx := xfaPos + arrayStart + 1 // Position after '['
-
-	// Find matching ']' for the array
-	// Start at depth 1 because we've already passed the opening '['
-	depth := 1
-	arrayEndIdx := arrayStartIdx
-	for i := arrayStartIdx; i < len(decryptedContent) && i < arrayStartIdx+10000; i++ {
-		if decryptedContent[i] == '[' {
-			depth++
-		} else if decryptedContent[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEndIdx = i + 1
-				break
-			}
-		}
-	}
-
-	if arrayEndIdx == arrayStartIdx {
-		return "", fmt.Errorf("could not find end of XFA array")
-	}
-
-	return string(decryptedContent[arrayStartIdx:arrayEndIdx]), nil
-}
-
-// extractGenerationNumber extracts the generation number from an object header
-// Object format: "objNum genNum obj"
-// Returns the generation number, or 0 if not found (most objects are generation 0)
-func extractGenerationNumber(objContent []byte, objNum int) int {
-	// Find object header pattern: "objNum genNum obj"
-	// Try multiple patterns to handle different whitespace
-	patterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // Standard: "123 0 obj"
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // With tabs
-		regexp.MustCompile(fmt.Sprintf(`%d\s*(\d+)\s*obj`, objNum)), // Flexible whitespace
-	}
-
-	for _, pattern := range patterns {
-		match := pattern.FindSubmatch(objContent)
-		if match != nil && len(match) > 1 {
-			genNum, err := strconv.Atoi(string(match[1]))
-			if err == nil {
-				return genNum
-			}
-		}
-	}
-
-	// Also try searching in a larger window if objContent is large
-	// Sometimes the header might be further in if there's padding
-	if len(objContent) > 1000 {
-		// Search first 500 bytes more carefully
-		searchArea := objContent[:min(500, len(objContent))]
-		for _, pattern := range patterns {
-			match := pattern.FindSubmatch(searchArea)
-			if match != nil && len(match) > 1 {
-				genNum, err := strconv.Atoi(string(match[1]))
-				if err == nil {
-					return genNum
-				}
-			}
-		}
-	}
-
-	// Default to 0 if not found (most PDF objects are generation 0)
-	return 0
-}
-
-// This follows the same approach as findAndDecryptAcroForm: parse structure first, then decrypt only encrypted portions
-func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, int, error) {
-	// Find the stream object using incremental parser (finds non-encrypted markers)
-	streamObjIndex, err := parse.FindObjectByNumber(pdfBytes, streamObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, 0, fmt.Errorf("stream object %d not found: %v", streamObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, streamObjIndex, streamObjNum, "stream", verbose)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	if verbose {
-		log.Printf("Stream object %d: objStart=%d, objEnd=%d, content length=%d", streamObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Find structure markers (these are NOT encrypted)
-	objKeywordPosInContent := bytes.Index(objContent, []byte("obj"))
-	if objKeywordPosInContent == -1 {
-		return nil, 0, fmt.Errorf("'obj' keyword not found in stream object %d", streamObjNum)
-	}
-
-	// Extract generation number from object header (CRITICAL for correct key derivation)
-	genNum := extractGenerationNumber(objContent, streamObjNum)
-	if verbose {
-		log.Printf("Extracted generation number for object %d: %d", streamObjNum, genNum)
-	}
-
-	// Skip "obj" and whitespace to find where encrypted data starts
-	dataStart := objKeywordPosInContent + 3
-	for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-		dataStart++
-	}
-
-	// Find "stream" keyword (not encrypted)
-	streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, 0, fmt.Errorf("stream keyword not found for object %d", streamObjNum)
-	}
-
-	// Get /Length from dictionary (between dataStart and streamKeywordPos)
-	dictContent := string(objContent[dataStart:streamKeywordPos])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-
-	var streamLength int
-	if lengthMatch != nil {
-		streamLength, _ = strconv.Atoi(lengthMatch[1])
-	}
-
-	// Extract stream data
-	// Skip "stream" keyword (6 bytes) and EOL
-	streamDataStart := streamKeywordPos + 6
-
-	// Skip exactly one EOL marker per PDF spec
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Use /Length if available, otherwise find endstream
-	var streamContent []byte
-	if streamLength > 0 && streamDataStart+streamLength <= len(objContent) {
-		streamContent = objContent[streamDataStart : streamDataStart+streamLength]
-	} else {
-		// Fallback: find endstream
-		endstreamPos := bytes.Index(objContent[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, 0, fmt.Errorf("endstream not found for object %d", streamObjNum)
-		}
-		streamContent = objContent[streamDataStart : streamDataStart+endstreamPos]
-	}
-
-	streamDataEnd := streamDataStart + len(streamContent)
-
-	if verbose {
-		log.Printf("Stream object %d: dictionary encrypted from %d to %d, stream data from %d to %d",
-			streamObjNum, dataStart, streamKeywordPos, streamDataStart, streamDataEnd)
-	}
-
-	// Decrypt stream data if needed (dictionary decryption not needed for extraction, only for reading)
-	if encryptInfo != nil {
-		// Decrypt the stream data itself (not the dictionary)
-		// Use the extracted generation number instead of hardcoded 0
-		decryptedStream, err := encrypt.DecryptObject(streamContent, streamObjNum, genNum, encryptInfo)
-		if err != nil {
-			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %v", streamObjNum, genNum, err)
-		}
-		streamContent = decryptedStream
-		if verbose {
-			log.Printf("Decrypted stream data: %d bytes -> %d bytes", len(objContent[streamDataStart:streamDataEnd]), len(streamContent))
-		}
-	}
-
-	return streamContent, streamObjNum, nil
-}
-
 // DecompressStream attempts to decompress a stream (handles FlateDecode)
 // FlateDecode can be either raw deflate or zlib-wrapped
 func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
@@ -832,12 +149,9 @@ func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
 // CompressStream compresses data using FlateDecode
 func CompressStream(data []byte) ([]byte, error) {
 	var buf bytes.Buffer
-	writer, err := flate.NewWriter(&buf, flate.DefaultCompression)
-	if err != nil {
-		return nil, err
-	}
+	writer := zlib.NewWriter(&buf)
 
-	_, err = writer.Write(data)
+	_, err := writer.Write(data)
 	if err != nil {
 		writer.Close()
 		return nil, err
@@ -851,72 +165,24 @@ func CompressStream(data []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-// ReplaceStreamInPDF replaces a stream in the PDF and updates the length
+// ReplaceStreamInPDF replaces the data of a stream in the PDF, which keeps its filters, and updates the length
 func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the stream object
-	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, streamObjNum, 0))
-	streamObjMatch := streamObjPattern.FindStringIndex(pdfStr)
-	if streamObjMatch == nil {
-		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
-	}
-
-	// Find stream dictionary (before "stream" keyword)
-	streamKeywordPos := bytes.Index(pdfBytes[streamObjMatch[0]:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	dictStart := streamObjMatch[0]
-	dictEnd := streamObjMatch[0] + streamKeywordPos
-
-	// Find and update /Length entry
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatchIndex(string(pdfBytes[dictStart:dictEnd]))
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("Length entry not found in stream dictionary")
-	}
-
-	lengthStart := dictStart + lengthMatch[2]
-	lengthEnd := dictStart + lengthMatch[3]
-
-	// Replace length
-	newLength := strconv.Itoa(len(newStream))
-
-	// Find stream start and end (need to recalculate after length update)
-	// Re-find stream position - use bytes.Index since we'll be modifying pdfBytes
-	streamKeywordPos = bytes.Index(pdfBytes[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamStart := dictStart + streamKeywordPos + 6
-	for streamStart < len(pdfBytes) && (pdfBytes[streamStart] == '\r' || pdfBytes[streamStart] == '\n' || pdfBytes[streamStart] == ' ' || pdfBytes[streamStart] == '\t') {
-		streamStart++
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Verbose: verbose})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	endstreamPos := bytes.Index(pdfBytes[streamStart:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
+	document := manipulate.NewManipulatorOf(pdf, verbose)
+	object := fmt.Sprintf("%d 0 obj\n%s\nendobj", streamObjNum, document.GetObject(streamObjNum))
+	raw, err := parse.ParseRawObject([]byte(object), streamObjNum, 0, 0)
+	if err != nil || !raw.IsStream {
+		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
 	}
 
-	streamEnd := streamStart + endstreamPos
-	afterStream := pdfBytes[streamEnd:]
-
-	// Reconstruct PDF: before length + new length + between length and stream + new stream + after stream
-	beforeLength := pdfBytes[:lengthStart]
-	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
-
-	result := append(beforeLength, []byte(newLength)...)
-	result = append(result, betweenLengthAndStream...)
-	result = append(result, newStream...)
-	result = append(result, afterStream...)
+	dict := encrypt.SetLength(raw.DictRaw, len(newStream))
+	document.SetObject(streamObjNum, []byte(fmt.Sprintf("%s\nstream\n%s\nendstream", dict, newStream)))
 
 	if verbose {
-		log.Printf("Replaced stream %d: old length %s, new length %d", streamObjNum, string(pdfBytes[lengthStart:lengthEnd]), len(newStream))
+		log.Printf("Replaced stream %d: old length %d, new length %d", streamObjNum, len(raw.StreamRaw), len(newStream))
 	}
-
-	return result, nil
+	return document.Rebuild()
 }
-- 
2.43.0


From ba5e36d7a4f22e4a070bceb26d6be4504fb3fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:15 +0000
Subject: [PATCH 43/58] fix: nested groups of XFA data are kept, values are
 read from the field itself and texts stay texts

---
 forms/xfa/xfa_datasets_translator.go | 62 ++++++++++++++++++----------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..98164f3 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -30,8 +32,8 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	var currentFieldValue strings.Builder
 	var inData bool
 	var inField bool
-	var inValue bool
-	var inGroup bool
+	var inValue, hasValue bool
+	var depth int // the number of elements open in the field
 	var groupStack []*types.XFAFieldGroup
 
 	for {
@@ -49,27 +51,29 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 		switch se := token.(type) {
 		case xml.StartElement:
 			localName := se.Name.Local
+			if inField {
+				// Only the field's own first value is its value
+				depth++
+				if depth == 1 && localName == "value" && !hasValue {
+					inValue, hasValue = true, true
+				}
+				continue
+			}
 
 			switch localName {
 			case "data":
 				inData = true
 			case "field":
-				inField = true
+				inField, hasValue, depth = true, false, 0
 				currentFieldValue.Reset()
 				for _, attr := range se.Attr {
 					if attr.Name.Local == "name" {
 						currentFieldName = attr.Value
 					}
 				}
-			case "value":
-				if inField {
-					inValue = true
-					currentFieldValue.Reset()
-				}
 			default:
 				// Treat unknown elements as groups if they're not standard XFA elements
 				if inData && !isStandardXFAElement(localName) {
-					inGroup = true
 					group := &types.XFAFieldGroup{
 						Name:   localName,
 						Fields: make(map[string]interface{}),
@@ -85,6 +89,13 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 
 		case xml.EndElement:
 			localName := se.Name.Local
+			if inField && depth > 0 {
+				if depth == 1 {
+					inValue = false
+				}
+				depth--
+				continue
+			}
 
 			switch localName {
 			case "data":
@@ -107,11 +118,9 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				inField = false
 				currentFieldName = ""
 				currentFieldValue.Reset()
-			case "value":
-				inValue = false
 			default:
 				// End of group
-				if inGroup && currentGroup != nil && localName == currentGroup.Name {
+				if currentGroup != nil && localName == currentGroup.Name {
 					if len(groupStack) > 0 {
 						// Add to parent group
 						parent := groupStack[len(groupStack)-1]
@@ -123,12 +132,11 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 						datasets.Groups = append(datasets.Groups, *currentGroup)
 						currentGroup = nil
 					}
-					inGroup = false
 				}
 			}
 
 		case xml.CharData:
-			if inValue && inField {
+			if inValue {
 				currentFieldValue.WriteString(string(se))
 			}
 		}
@@ -155,13 +163,13 @@ func parseFieldValue(value string) interface{} {
 		return false
 	}
 
-	// Try integer
-	if intVal, err := strconv.Atoi(value); err == nil {
+	// Try integer, but keep text such as 007, of which a number would be a different value
+	if intVal, err := strconv.Atoi(value); err == nil && strconv.Itoa(intVal) == value {
 		return intVal
 	}
 
-	// Try float
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	// Try float, which JSON can hold
+	if floatVal, err := strconv.ParseFloat(value, 64); err == nil && !math.IsNaN(floatVal) && !math.IsInf(floatVal, 0) && strconv.FormatFloat(floatVal, 'f', -1, 64) == value {
 		return floatVal
 	}
 
@@ -186,8 +194,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range fieldNames(datasets.Fields) {
+		if err := encodeField(enc, name, datasets.Fields[name]); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
 		}
 	}
@@ -216,6 +224,16 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	return result, nil
 }
 
+// fieldNames returns the names of fields in a fixed order
+func fieldNames(fields map[string]interface{}) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // encodeField encodes a field as XFA XML
 func encodeField(enc *xml.Encoder, name string, value interface{}) error {
 	fieldStart := xml.StartElement{
@@ -259,8 +277,8 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range fieldNames(group.Fields) {
+		if err := encodeField(enc, name, group.Fields[name]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 0f4ce7c0438a2d01bfbff64816f3122f306273fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 44/58] fix: XFA values are updated in the data sections the
 XML has, not where its text mentions them

---
 forms/xfa/xfa.go | 58 ++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index e813506..30906a3 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -181,39 +181,31 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 	return updatedPDF, nil
 }
 
-// UpdateXFAValues updates field values in XFA XML
+// UpdateXFAValues updates field values in the data section of XFA XML, or anywhere without one
 func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	// Find data section
-	dataStart := strings.Index(xfaXML, "<data")
-	if dataStart == -1 {
-		// If no data section, update individual fields
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
+	fields, hasData := findFields(xfaXML)
+	if !hasData {
+		return updateFields(xfaXML, fields, formData, verbose)
 	}
 
-	// Find end of data section
-	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Extract data section
-	dataSection := xfaXML[dataStart : dataEnd+7]
-
-	// Update field values in data section
-	updatedData, err := UpdateXFAFieldValues(dataSection, formData, verbose)
-	if err != nil {
-		return "", err
+	// Only the fields of the data section have values
+	var dataFields []xmlField
+	for _, field := range fields {
+		if field.inData {
+			dataFields = append(dataFields, field)
+		}
 	}
-
-	// Replace data section in full XML
-	result := xfaXML[:dataStart] + updatedData + xfaXML[dataEnd+7:]
-
-	return result, nil
+	return updateFields(xfaXML, dataFields, formData, verbose)
 }
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	fields := findFields(xfaXML)
+	fields, _ := findFields(xfaXML)
+	return updateFields(xfaXML, fields, formData, verbose)
+}
+
+// updateFields updates the values of the given fields of XFA XML
+func updateFields(xfaXML string, fields []xmlField, formData types.FormData, verbose bool) (string, error) {
 	found := make(map[string]bool)
 	var result strings.Builder
 	written := 0 // the part of xfaXML which is in the result
@@ -253,10 +245,11 @@ type xmlField struct {
 	name          string
 	start, end    int    // The part of the document to replace with the value
 	before, after string // What surrounds the value there
+	inData        bool   // It is part of a data section
 }
 
-// findFields returns the fields of an XFA document in their order
-func findFields(xfaXML string) []xmlField {
+// findFields returns the fields of an XFA document in their order, and whether it has data sections
+func findFields(xfaXML string) ([]xmlField, bool) {
 	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
 	decoder.Strict = false
 
@@ -265,11 +258,12 @@ func findFields(xfaXML string) []xmlField {
 	depth := 0          // the number of elements open in that field, including itself
 	hasValue := false
 	valueStart := 0
+	dataDepth, hasData := 0, false
 	for {
 		start := int(decoder.InputOffset())
 		token, err := decoder.Token()
 		if err != nil {
-			return fields
+			return fields, hasData
 		}
 		end := int(decoder.InputOffset())
 
@@ -287,8 +281,11 @@ func findFields(xfaXML string) []xmlField {
 						field.before, field.after = "<value>", "</value>"
 					}
 				}
+			case element.Name.Local == "data":
+				dataDepth++
+				hasData = true
 			case element.Name.Local == "field":
-				field = &xmlField{before: "<value>", after: "</value>"}
+				field = &xmlField{inData: dataDepth > 0, before: "<value>", after: "</value>"}
 				depth, hasValue, valueStart = 1, false, 0
 				for _, attr := range element.Attr {
 					if attr.Name.Local == "name" {
@@ -304,6 +301,9 @@ func findFields(xfaXML string) []xmlField {
 			}
 		case xml.EndElement:
 			if field == nil {
+				if element.Name.Local == "data" {
+					dataDepth--
+				}
 				continue
 			}
 			depth--
-- 
2.43.0


From dfae4d684c1f814a8b94aae20712dff904eb5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 45/58] fix: reject cross-reference offsets and widths outside
 the file instead of panicking

---
 core/parse/document_parser.go |  3 +++
 core/parse/object_stream.go   |  9 ++++++++-
 core/parse/parser.go          |  3 +++
 core/parse/xref_stream.go     | 10 ++++++++--
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 83f4e24..0c5e28e 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -332,6 +332,9 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref: %d", startXRef)
+	}
 	section := pdfBytes[startXRef:]
 	sectionStr := string(section[:min(5000, len(section))])
 
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index ac82886..d5e73e8 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -41,6 +41,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	}
 
 	// The xref stream object should be at startXRef
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref stream offset %d is outside the file", startXRef)
+	}
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
 
@@ -52,7 +55,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		if startXRef > 100 {
 			searchStart = startXRef - 100
 		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
+		searchSection := pdfBytes[searchStart:min(int(startXRef)+500, len(pdfBytes))]
 		searchStr := string(searchSection)
 		objMatch = objPattern.FindStringSubmatch(searchStr)
 		if objMatch == nil {
@@ -90,6 +93,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	w1, _ := strconv.Atoi(wMatch[1])
 	w2, _ := strconv.Atoi(wMatch[2])
 	w3, _ := strconv.Atoi(wMatch[3])
+	if w1 > 8 || w2 > 8 || w3 > 8 {
+		return nil, fmt.Errorf("invalid field widths: %d %d %d", w1, w2, w3)
+	}
 
 	// Find /Index entry
 	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
@@ -166,6 +172,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 			predictor, _ := strconv.Atoi(predictorMatch[1])
 			columns, _ := strconv.Atoi(columnsMatch[1])
 
+			columns = min(columns, len(decompressed)) // without a complete row, there are none
 			if predictor >= 10 && predictor <= 15 {
 				// PNG predictor - apply filter
 				rowSize := columns + 1 // +1 for filter byte
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..1226b10 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -181,6 +181,9 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 	objMap := make(map[int]int64)
 
 	// Read from startxref position
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref: %d", startXRef)
+	}
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
 
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..0528b4f 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -26,6 +26,9 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 
 	// The xref stream object should be at startXRef
 	// Find object number - it should be at or near startXRef
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("xref stream offset %d is outside the file", startXRef)
+	}
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
 
@@ -38,7 +41,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 		if startXRef > 100 {
 			searchStart = startXRef - 100
 		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
+		searchSection := pdfBytes[searchStart:min(int(startXRef)+500, len(pdfBytes))]
 		searchStr := string(searchSection)
 		objMatch = objPattern.FindStringSubmatch(searchStr)
 		if objMatch == nil {
@@ -47,7 +50,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	}
 
 	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
+	dictStart := strings.Index(xrefStr, "<<")
 	if dictStart == -1 {
 		return nil, fmt.Errorf("xref stream dictionary not found")
 	}
@@ -69,6 +72,9 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	w1, _ := strconv.Atoi(wMatch[1]) // Type field width
 	w2, _ := strconv.Atoi(wMatch[2]) // Field 2 width (usually offset)
 	w3, _ := strconv.Atoi(wMatch[3]) // Field 3 width (usually generation)
+	if w1 > 8 || w2 > 8 || w3 > 8 {
+		return nil, fmt.Errorf("invalid field widths: %d %d %d", w1, w2, w3)
+	}
 
 	// Find /Index entry if present (subsections)
 	// Format: /Index [first1 count1 first2 count2 ...]
-- 
2.43.0


From 6e2d4591c25e18aec3bfec39edd49eb0af86bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 46/58] fix: a JPEG cut off in its frame header is an error,
 not a panic

---
 core/write/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..10eefa4 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -188,7 +188,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
 		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
 		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
-- 
2.43.0


From ecc36f1a51a33f90e75bb98c202e4ca2c3836386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 47/58] fix: a ToUnicode range beyond two-byte codes does not
 exhaust memory

---
 content/extract/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..17696a3 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -218,6 +218,9 @@ func (fd *FontDecoder) parseBfrangeBlock(block string) {
 		if err1 != nil || err2 != nil || err3 != nil {
 			continue
 		}
+		if srcHi > 0xFFFF {
+			srcHi = 0xFFFF // codes have at most two bytes
+		}
 		for i := srcLo; i <= srcHi; i++ {
 			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
 		}
-- 
2.43.0


From 0e338a3b7fbe855d0c7b8951f5f48746f3602840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 48/58] fix: reject an offset outside the file when reading an
 XFA object

---
 forms/xfa/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forms/xfa/stream.go b/forms/xfa/stream.go
index 6836489..70ec13e 100644
--- a/forms/xfa/stream.go
+++ b/forms/xfa/stream.go
@@ -217,6 +217,10 @@ func findObjectHeaderByRegex(pdfBytes []byte, objNum, genNum int) (int, error) {
 // ReadObjectFromXRef reads an object using xref offset (PyPDF approach)
 // Matches PyPDF's get_object method (lines 413-490)
 func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	if xrefOffset < 0 || xrefOffset >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid xref offset: %d", xrefOffset)
+	}
+
 	// Step 1: Create stream and seek to xref offset (PyPDF line 423)
 	stream := NewPDFStream(pdfBytes)
 
-- 
2.43.0


From beac7094eb5fd2ab9b3a785d77d390c2cac21df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 49/58] fix: embedded fonts have widths, encoding and ToUnicode
 by character code, and malformed fonts are errors

---
 resources/font/font.go |  74 +++++++++------
 resources/font/pdf.go  | 207 +++++++++++++++++++++--------------------
 2 files changed, 151 insertions(+), 130 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..7ef30fc 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"sort"
 	"unicode"
+	"unicode/utf16"
 )
 
 // Font represents an embedded font with subsetting support
@@ -145,6 +146,9 @@ func (ttf *TTF) parseHead() error {
 	}
 
 	ttf.UnitsPerEm = binary.BigEndian.Uint16(head.Data[18:20])
+	if ttf.UnitsPerEm == 0 {
+		return fmt.Errorf("head table has no units per em")
+	}
 	return nil
 }
 
@@ -205,21 +209,17 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			nameStart := int(stringOffset) + int(startOffset)
+			nameData := name.Data[nameStart : nameStart+int(length)]
 
 			var nameStr string
-			if platformID == 3 {
-				// UTF-16BE
-				if len(nameData)%2 == 0 {
-					runes := make([]rune, 0, len(nameData)/2)
-					for j := 0; j < len(nameData); j += 2 {
-						runes = append(runes, rune(binary.BigEndian.Uint16(nameData[j:j+2])))
-					}
-					nameStr = string(runes)
+			// UTF-16BE
+			if len(nameData)%2 == 0 {
+				units := make([]uint16, 0, len(nameData)/2)
+				for j := 0; j < len(nameData); j += 2 {
+					units = append(units, binary.BigEndian.Uint16(nameData[j:j+2]))
 				}
-			} else {
-				// ASCII
-				nameStr = string(nameData)
+				nameStr = string(utf16.Decode(units))
 			}
 
 			switch nameID {
@@ -269,9 +269,9 @@ func (ttf *TTF) parsePost() error {
 	ttf.IsFixedPitch = binary.BigEndian.Uint32(post.Data[12:16]) != 0
 
 	// Try to get CapHeight and XHeight from OS/2 table if available
-	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 88 {
-		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[68:70]))
-		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[70:72]))
+	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 90 {
+		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[86:88]))
+		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[88:90]))
 	}
 
 	return nil
@@ -404,10 +404,10 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	}
 
 	// Parse the subtable
-	subtableData := data[bestOffset:]
-	if len(subtableData) < 2 {
+	if int64(bestOffset)+2 > int64(len(data)) {
 		return nil, fmt.Errorf("cmap subtable too short")
 	}
+	subtableData := data[bestOffset:]
 
 	format := binary.BigEndian.Uint16(subtableData[0:2])
 
@@ -419,8 +419,7 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 		// Format 12: Segmented coverage
 		return parseCmapFormat12(subtableData, glyphMap)
 	default:
-		// Try format 4 as fallback
-		return parseCmapFormat4(subtableData, glyphMap)
+		return nil, fmt.Errorf("unsupported cmap format: %d", format)
 	}
 }
 
@@ -444,6 +443,9 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 segments extend beyond the table")
+	}
 
 	for i := 0; i < int(segCount); i++ {
 		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
@@ -488,7 +490,7 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 	length := binary.BigEndian.Uint32(data[4:8])
 	numGroups := binary.BigEndian.Uint32(data[12:16])
 
-	if len(data) < int(length) {
+	if int64(len(data)) < int64(length) {
 		return nil, fmt.Errorf("cmap format 12 length mismatch")
 	}
 
@@ -502,6 +504,9 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
+		if endCharCode > unicode.MaxRune {
+			return nil, fmt.Errorf("cmap format 12 maps code %d", endCharCode)
+		}
 		for code := startCharCode; code <= endCharCode; code++ {
 			glyphID := uint16(startGlyphID + (code - startCharCode))
 			glyphMap[rune(code)] = glyphID
@@ -534,24 +539,33 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, err
 	}
 
-	// Parse hmtx table for widths
-	hmtx, ok := ttf.Tables["hmtx"]
-	if !ok {
-		return nil, fmt.Errorf("missing hmtx table")
-	}
-
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
-		} else {
-			widths[i] = int(ttf.UnitsPerEm) // Default width
+		if widths[i], err = ttf.advanceWidth(gid); err != nil {
+			return nil, err
 		}
 	}
 
 	return widths, nil
 }
 
+// advanceWidth returns the width of a glyph in font units. The hmtx table has a width for the first
+// glyphs only; all others are as wide as the last of these.
+func (ttf *TTF) advanceWidth(gid uint16) (int, error) {
+	hmtx, ok := ttf.Tables["hmtx"]
+	if !ok {
+		return 0, fmt.Errorf("missing hmtx table")
+	}
+	i := int(gid)
+	if n := int(binary.BigEndian.Uint16(ttf.Tables["hhea"].Data[34:36])); i >= n {
+		i = n - 1
+	}
+	if i < 0 || i*4+2 > len(hmtx.Data) {
+		return int(ttf.UnitsPerEm), nil // Default width
+	}
+	return int(binary.BigEndian.Uint16(hmtx.Data[i*4 : i*4+2])), nil
+}
+
 // Read reads font data from a reader
 func Read(r io.Reader) ([]byte, error) {
 	var buf bytes.Buffer
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..fbdb33e 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -4,9 +4,10 @@ package font
 import (
 	"bytes"
 	"crypto/md5"
-	"encoding/hex"
+	"encoding/binary"
 	"fmt"
-	"sort"
+	"strings"
+	"unicode/utf16"
 )
 
 // FontObjects represents the PDF objects needed for an embedded font
@@ -30,18 +31,15 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	// Generate subset prefix from font name hash
 	if f.FontID == "" {
 		hash := md5.Sum([]byte(ttf.FontName))
-		f.FontID = hex.EncodeToString(hash[:6])
+		for _, b := range hash[:6] {
+			f.FontID += string('A' + b%26)
+		}
 	}
 	subsetPrefix := f.FontID + "+"
+	baseFontName := subsetPrefix + ttf.FontName
 
-	// Get subset glyphs
-	glyphs, err := f.GetSubsetGlyphs()
-	if err != nil {
-		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
-	}
-
-	// Get widths
-	widths, err := f.GetWidths()
+	// Get the widths of the characters
+	widths, err := f.characterWidths(ttf)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get widths: %w", err)
 	}
@@ -54,30 +52,25 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 
 	// Create font file stream object first
 	fontFileDict := map[string]interface{}{
-		"/Length1": len(fontFileData),
-		"/Length":  len(fontFileData),
+		"Length1": len(fontFileData),
 	}
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
-	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum)
+	fontDescriptor := f.createFontDescriptor(ttf, baseFontName, fontFileNum)
 	fontDescriptorNum := writer.AddObject(fontDescriptor)
 
 	// Create ToUnicode CMap (as stream object)
-	toUnicodeData := f.createToUnicodeCMapData(glyphs)
+	toUnicodeData := createToUnicodeCMapData()
 	toUnicodeDict := map[string]interface{}{
-		"/Type":     "/CMap",
-		"/CMapName": "/Adobe-Identity-UCS",
-		"/CIDSystemInfo": map[string]interface{}{
-			"/Registry":   "(Adobe)",
-			"/Ordering":   "(UCS)",
-			"/Supplement": 0,
-		},
+		"Type":          "/CMap",
+		"CMapName":      "/Adobe-Identity-UCS",
+		"CIDSystemInfo": "<< /Registry (Adobe) /Ordering (UCS) /Supplement 0 >>",
 	}
 	toUnicodeNum := writer.AddStreamObject(toUnicodeDict, toUnicodeData, false) // Don't compress CMap
 
 	// Create Font dictionary (references fontDescriptorNum and toUnicodeNum)
-	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, glyphs, widths, subsetPrefix)
+	fontDict := f.createFontDict(baseFontName, fontDescriptorNum, toUnicodeNum, widths)
 	fontDictNum := writer.AddObject(fontDict)
 
 	// Generate resource name
@@ -100,19 +93,72 @@ type PDFWriter interface {
 	NextObjectNumber() int
 }
 
+// firstChar and lastChar are the character codes an embedded font has, those of WinAnsiEncoding.
+const (
+	firstChar = 0x20
+	lastChar  = 0xFF
+)
+
+// winAnsi are the characters that WinAnsiEncoding has for the codes from 0x80. The codes without
+// a character stand for bullets.
+var winAnsi = [32]rune{
+	0x20AC, 0x2022, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x2022, 0x017D, 0x2022,
+	0x2022, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x2022, 0x017E, 0x0178,
+}
+
+// character returns the character of a code.
+func character(code int) rune {
+	switch {
+	case code >= 0x80 && code < 0xA0:
+		return winAnsi[code-0x80]
+	case code == 0x7F:
+		return 0x2022
+	}
+	return rune(code)
+}
+
+// characterWidths returns the width of each character code, in thousandths of an em.
+func (f *Font) characterWidths(ttf *TTF) ([]int, error) {
+	cmap, ok := ttf.Tables["cmap"]
+	if !ok {
+		return nil, fmt.Errorf("missing cmap table")
+	}
+	glyphMap, err := parseCmap(cmap.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse cmap: %w", err)
+	}
+	var widths []int
+	for code := firstChar; code <= lastChar; code++ {
+		width, err := ttf.advanceWidth(glyphMap[character(code)])
+		if err != nil {
+			return nil, err
+		}
+		widths = append(widths, ttf.thousandths(width))
+	}
+	return widths, nil
+}
+
+// thousandths converts font units to thousandths of an em.
+func (ttf *TTF) thousandths(v int) int {
+	if v < 0 {
+		return -ttf.thousandths(-v)
+	}
+	em := int(ttf.UnitsPerEm)
+	return (v*1000 + em/2) / em
+}
+
 // createFontDict creates the Font dictionary
-func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, glyphs []uint16, widths []int, subsetPrefix string) []byte {
+func (f *Font) createFontDict(baseFontName string, fontDescriptorNum, toUnicodeNum int, widths []int) []byte {
 	var buf bytes.Buffer
 
-	// Base font name with subset prefix
-	baseFontName := subsetPrefix + ttf.FontName
-
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
 	buf.WriteString("/Subtype /TrueType\n")
 	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
-	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 0))
-	buf.WriteString(fmt.Sprintf("/LastChar %d\n", len(glyphs)-1))
+	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", firstChar))
+	buf.WriteString(fmt.Sprintf("/LastChar %d\n", lastChar))
+
+	buf.WriteString("/Encoding /WinAnsiEncoding\n")
 
 	// Width array
 	buf.WriteString("/Widths [")
@@ -136,20 +182,27 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, gly
 }
 
 // createFontDescriptor creates the FontDescriptor dictionary
-func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
+func (f *Font) createFontDescriptor(ttf *TTF, fontName string, fontFileNum int) []byte {
 	var buf bytes.Buffer
 
+	// The bounding box of all glyphs; ParseTTF has checked the length of the table
+	head := ttf.Tables["head"].Data
+	var bbox [4]int
+	for i := range bbox {
+		bbox[i] = ttf.thousandths(int(int16(binary.BigEndian.Uint16(head[36+2*i:]))))
+	}
+
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /FontDescriptor\n")
-	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(ttf.FontName)))
-	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
+	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(fontName)))
+	buf.WriteString(fmt.Sprintf("/FontFamily %s\n", escapeString(ttf.FamilyName)))
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
 	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, int(ttf.UnitsPerEm)+100, int(ttf.UnitsPerEm)+100)) // Simplified bbox
+		bbox[0], bbox[1], bbox[2], bbox[3]))
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
-	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.Ascent))
-	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.Descent))
-	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.CapHeight))
+	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.thousandths(int(ttf.Ascent))))
+	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.thousandths(int(ttf.Descent))))
+	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.thousandths(int(ttf.CapHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
 	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
 	buf.WriteString(">>")
@@ -158,29 +211,7 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 }
 
 // createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
-func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
-	// Get glyph to Unicode mapping
-	ttf, err := ParseTTF(f.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	cmap, ok := ttf.Tables["cmap"]
-	if !ok {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	glyphMap, err := parseCmap(cmap.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	// Create reverse mapping: glyph ID -> Unicode
-	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
-		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
-	}
-
+func createToUnicodeCMapData() []byte {
 	// Build CMap content
 	var buf bytes.Buffer
 	buf.WriteString("/CIDInit /ProcSet findresource begin\n")
@@ -198,20 +229,11 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 	buf.WriteString("<00> <FF>\n")
 	buf.WriteString("endcodespacerange\n")
 
-	// Write bfchar entries (glyph -> Unicode)
-	sort.Slice(glyphs, func(i, j int) bool {
-		return glyphs[i] < glyphs[j]
-	})
-
-	buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(glyphs)))
-	for _, gid := range glyphs {
-		unicodes := glyphToUnicode[gid]
-		if len(unicodes) > 0 {
-			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", gid, unicodes[0]))
-		} else {
-			// Map to space if no Unicode found
-			buf.WriteString(fmt.Sprintf("<%02X> <0020>\n", gid))
-		}
+	// Most codes are those of Unicode
+	buf.WriteString("2 beginbfrange\n<20> <7E> <0020>\n<A0> <FF> <00A0>\nendbfrange\n")
+	buf.WriteString("33 beginbfchar\n")
+	for code := 0x7F; code < 0xA0; code++ {
+		buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", code, character(code)))
 	}
 	buf.WriteString("endbfchar\n")
 
@@ -252,42 +274,27 @@ func (f *Font) getFontFlags(ttf *TTF) int {
 // escapeName escapes a PDF name
 func escapeName(s string) string {
 	var buf bytes.Buffer
-	for _, r := range s {
-		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c <= ' ' || c > '~' || strings.IndexByte("#/()<>[]{}%", c) >= 0 {
+			buf.WriteString(fmt.Sprintf("#%02X", c))
 		} else {
-			buf.WriteRune(r)
+			buf.WriteByte(c)
 		}
 	}
 	return buf.String()
 }
 
-// escapeString escapes a PDF string
+// escapeString writes a PDF text string
 func escapeString(s string) string {
 	var buf bytes.Buffer
-	for _, r := range s {
-		switch r {
-		case '\\':
-			buf.WriteString("\\\\")
-		case '(':
-			buf.WriteString("\\(")
-		case ')':
-			buf.WriteString("\\)")
-		case '\n':
-			buf.WriteString("\\n")
-		case '\r':
-			buf.WriteString("\\r")
-		case '\t':
-			buf.WriteString("\\t")
-		default:
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				buf.WriteRune(r)
+	for i := 0; i < len(s); i++ {
+		if s[i] < ' ' || s[i] > '~' {
+			buf.WriteString("<FEFF")
+			for _, u := range utf16.Encode([]rune(s)) {
+				buf.WriteString(fmt.Sprintf("%04X", u))
 			}
+			return buf.String() + ">"
 		}
 	}
-	return buf.String()
+	return "(" + strings.NewReplacer("\\", "\\\\", "(", "\\(", ")", "\\)").Replace(s) + ")"
 }
-- 
2.43.0


From 14a3e59ddb54fc4268ad5cd39efacec7dc3a44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:16 +0000
Subject: [PATCH 50/58] fix: text is decoded by its font's encoding,
 differences, ToUnicode map and code length, wherever they are defined

---
 content/extract/dict_helpers.go |  23 +++
 content/extract/encoding.go     | 344 +++++++++++++++----------------
 content/extract/resources.go    | 351 +++++++-------------------------
 3 files changed, 263 insertions(+), 455 deletions(-)

diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
index bacd141..24d288b 100644
--- a/content/extract/dict_helpers.go
+++ b/content/extract/dict_helpers.go
@@ -1,6 +1,7 @@
 package extract
 
 import (
+	"regexp"
 	"strings"
 	"unicode/utf16"
 
@@ -64,6 +65,28 @@ func dictionaryOf(dictStr, key string, pdf *parse.PDF) string {
 	return string(obj)
 }
 
+// objectHeaderPattern matches the beginning of an indirect object
+var objectHeaderPattern = regexp.MustCompile(`^\s*\d+\s+\d+\s+obj\b`)
+
+// resolveValue returns the value of a dictionary entry that is a name, string, array or dictionary,
+// or a reference to one
+func resolveValue(dictStr, key string, pdf *parse.PDF) string {
+	value := string(dictEntries(dictStr)[key])
+	if value == "" || strings.ContainsAny(value[:1], "/<([") {
+		return value
+	}
+	objNum, err := parseObjectRef(value)
+	if err != nil {
+		return value
+	}
+	obj, err := pdf.GetObject(objNum)
+	if err != nil {
+		return value
+	}
+	object := objectHeaderPattern.ReplaceAllString(string(obj), "")
+	return string(dictEntries("/Value " + object)["/Value"])
+}
+
 // decodeTextString decodes a text string: UTF-16BE if it starts with a byte order mark, else as it is
 func decodeTextString(text []byte) string {
 	if len(text) < 2 || text[0] != 0xFE || text[1] != 0xFF {
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index 17696a3..d569d04 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -4,12 +4,13 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
 type FontDecoder struct {
-	// ToUnicode mapping from character codes to Unicode (highest priority)
-	toUnicode map[int]rune
+	// ToUnicode mapping from character codes to text (highest priority)
+	toUnicode map[int]string
 
 	// Base encoding (WinAnsiEncoding, MacRomanEncoding, etc.)
 	baseEncoding map[int]rune
@@ -17,6 +18,9 @@ type FontDecoder struct {
 	// Differences array overlays the base encoding
 	differences map[int]rune
 
+	// Whether character codes have two bytes (composite fonts)
+	twoByte bool
+
 	// Font name for debugging
 	fontName string
 }
@@ -24,7 +28,7 @@ type FontDecoder struct {
 // NewFontDecoder creates a new font decoder
 func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
-		toUnicode:    make(map[int]rune),
+		toUnicode:    make(map[int]string),
 		baseEncoding: make(map[int]rune),
 		differences:  make(map[int]rune),
 		fontName:     fontName,
@@ -44,8 +48,9 @@ func (fd *FontDecoder) SetBaseEncoding(encodingName string) {
 	case "MacExpertEncoding":
 		fd.baseEncoding = macExpertEncoding
 	case "Identity-H", "Identity-V":
-		// Identity encoding - character codes are Unicode values
+		// Identity encoding - character codes have two bytes
 		// Don't set a base encoding, rely on ToUnicode
+		fd.twoByte = true
 	}
 }
 
@@ -58,79 +63,62 @@ func (fd *FontDecoder) SetDifferences(code int, glyphName string) {
 
 // SetToUnicode adds a ToUnicode mapping
 func (fd *FontDecoder) SetToUnicode(code int, unicode rune) {
-	fd.toUnicode[code] = unicode
+	fd.toUnicode[code] = string(unicode)
 }
 
 // Decode decodes a byte slice to a Unicode string using the font's encoding
 func (fd *FontDecoder) Decode(data []byte) string {
 	var result strings.Builder
 
-	for _, b := range data {
-		code := int(b)
-		var char rune
-
-		// Priority: ToUnicode > Differences > BaseEncoding > Identity
-		if unicode, ok := fd.toUnicode[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.differences[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.baseEncoding[code]; ok {
-			char = unicode
-		} else {
-			// Default: treat as Latin-1 (ISO-8859-1)
-			char = rune(code)
+	if fd.twoByte || fd.has2ByteMapping() {
+		// 2-byte character codes; a last single byte is a code of its own
+		for i := 0; i < len(data); i += 2 {
+			code := int(data[i])
+			if i+1 < len(data) {
+				code = code<<8 | int(data[i+1])
+			}
+			result.WriteString(fd.lookupCode(code))
 		}
-
-		result.WriteRune(char)
+		return result.String()
 	}
 
+	for _, b := range data {
+		result.WriteString(fd.lookupCode(int(b)))
+	}
 	return result.String()
 }
 
 // DecodeHex decodes a hex string to Unicode using the font's encoding
 func (fd *FontDecoder) DecodeHex(hexStr string) string {
-	// Remove < and > if present
-	hexStr = strings.TrimPrefix(hexStr, "<")
-	hexStr = strings.TrimSuffix(hexStr, ">")
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad with 0 if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
-	}
-
-	var result strings.Builder
-
-	// Check if this is a 2-byte encoding (common for CID fonts)
-	// Heuristic: if we have ToUnicode entries for codes > 255, use 2-byte decoding
-	is2Byte := fd.has2ByteMapping()
-
-	if is2Byte && len(hexStr) >= 4 {
-		// 2-byte character codes
-		for i := 0; i < len(hexStr); i += 4 {
-			if i+4 > len(hexStr) {
-				// Remaining single byte
-				if val, err := strconv.ParseInt(hexStr[i:], 16, 32); err == nil {
-					result.WriteRune(fd.lookupCode(int(val)))
-				}
-				break
-			}
-			if val, err := strconv.ParseInt(hexStr[i:i+4], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
-			}
+	// Anything but digits is white space or the enclosing brackets
+	var data []byte
+	digits := 0
+	for i := 0; i < len(hexStr); i++ {
+		value, ok := hexDigit(hexStr[i])
+		if !ok {
+			continue
 		}
-	} else {
-		// 1-byte character codes
-		for i := 0; i < len(hexStr); i += 2 {
-			if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
-			}
+		if digits%2 == 0 {
+			data = append(data, value<<4)
+		} else {
+			data[len(data)-1] |= value
 		}
+		digits++
 	}
+	return fd.Decode(data)
+}
 
-	return result.String()
+// hexDigit returns the value of a hexadecimal digit
+func hexDigit(c byte) (byte, bool) {
+	switch {
+	case c >= '0' && c <= '9':
+		return c - '0', true
+	case c >= 'A' && c <= 'F':
+		return c - 'A' + 10, true
+	case c >= 'a' && c <= 'f':
+		return c - 'a' + 10, true
+	}
+	return 0, false
 }
 
 // has2ByteMapping checks if the font has 2-byte ToUnicode mappings
@@ -144,23 +132,19 @@ func (fd *FontDecoder) has2ByteMapping() bool {
 }
 
 // lookupCode looks up a character code in all encoding tables
-func (fd *FontDecoder) lookupCode(code int) rune {
-	if unicode, ok := fd.toUnicode[code]; ok {
-		return unicode
+// Priority: ToUnicode > Differences > BaseEncoding > Identity
+func (fd *FontDecoder) lookupCode(code int) string {
+	if text, ok := fd.toUnicode[code]; ok {
+		return text
 	}
 	if unicode, ok := fd.differences[code]; ok {
-		return unicode
-	}
-	if code < 256 {
-		if unicode, ok := fd.baseEncoding[code]; ok {
-			return unicode
-		}
+		return string(unicode)
 	}
-	// Default: treat as Unicode code point (for Identity-H)
-	if code < 0x10000 {
-		return rune(code)
+	if unicode, ok := fd.baseEncoding[code]; ok {
+		return string(unicode)
 	}
-	return '?'
+	// Default: treat as Unicode code point (Latin-1 for single bytes)
+	return string(rune(code))
 }
 
 // ParseToUnicodeCMap parses a ToUnicode CMap stream and populates the decoder
@@ -182,133 +166,143 @@ func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
 	}
 }
 
+// cmapToken is a hexadecimal string or an array of them in a CMap
+type cmapToken struct {
+	text  []byte   // the bytes of a string
+	array [][]byte // the strings of an array, not nil for an array
+}
+
+// parseCMapTokens splits a block of a CMap into its hexadecimal strings and arrays
+func parseCMapTokens(block string) []cmapToken {
+	var tokens []cmapToken
+	var array [][]byte // the array being read
+	for i := 0; i < len(block); i++ {
+		switch block[i] {
+		case '%':
+			for i+1 < len(block) && block[i+1] != '\n' && block[i+1] != '\r' {
+				i++
+			}
+		case '[':
+			array = [][]byte{}
+		case ']':
+			if array != nil {
+				tokens = append(tokens, cmapToken{array: array})
+			}
+			array = nil
+		case '<':
+			var text []byte
+			digits := 0
+			for i++; i < len(block) && block[i] != '>'; i++ {
+				value, ok := hexDigit(block[i])
+				if !ok {
+					continue
+				}
+				if digits%2 == 0 {
+					text = append(text, value<<4)
+				} else {
+					text[len(text)-1] |= value
+				}
+				digits++
+			}
+			if array != nil {
+				array = append(array, text)
+			} else {
+				tokens = append(tokens, cmapToken{text: text})
+			}
+		}
+	}
+	return tokens
+}
+
+// cmapCode returns the character code a CMap string stands for; codes have at most two bytes
+func cmapCode(text []byte) (int, bool) {
+	code := 0
+	for _, b := range text {
+		code = code<<8 | int(b)
+		if code > 0xFFFF {
+			return 0xFFFF, false
+		}
+	}
+	return code, len(text) > 0
+}
+
 // parseBfcharBlock parses a bfchar block
 func (fd *FontDecoder) parseBfcharBlock(block string) {
-	// Match pairs of hex values: <srcCode> <dstUnicode>
-	linePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	matches := linePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range matches {
-		srcCode, err := strconv.ParseInt(match[1], 16, 32)
-		if err != nil {
+	// Pairs of hex values: <srcCode> <dstUnicode>
+	tokens := parseCMapTokens(block)
+	for i := 0; i+1 < len(tokens); i += 2 {
+		code, ok := cmapCode(tokens[i].text)
+		if !ok || tokens[i+1].array != nil {
 			continue
 		}
-		// Destination can be multi-byte Unicode
-		dstHex := match[2]
-		unicodeRunes := hexToUnicodeRunes(dstHex)
-		if len(unicodeRunes) == 1 {
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		} else if len(unicodeRunes) > 1 {
-			// For ligatures/sequences, store the first rune
-			// TODO: Handle multi-rune mappings properly
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		}
+		fd.mapCode(code, tokens[i+1].text, 0)
 	}
 }
 
 // parseBfrangeBlock parses a bfrange block
 func (fd *FontDecoder) parseBfrangeBlock(block string) {
-	// Match range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
-	// Simple range: <0020> <007E> <0020>
-	simpleRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	simpleMatches := simpleRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range simpleMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		dstStart, err3 := strconv.ParseInt(match[3], 16, 32)
-		if err1 != nil || err2 != nil || err3 != nil {
+	// Range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
+	tokens := parseCMapTokens(block)
+	for i := 0; i+2 < len(tokens); i += 3 {
+		low, ok := cmapCode(tokens[i].text)
+		if !ok {
 			continue
 		}
-		if srcHi > 0xFFFF {
-			srcHi = 0xFFFF // codes have at most two bytes
-		}
-		for i := srcLo; i <= srcHi; i++ {
-			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
-		}
-	}
-
-	// Array range: <srcLo> <srcHi> [<dst1> <dst2> ...]
-	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]+)\]`)
-	arrayMatches := arrayRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range arrayMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		if err1 != nil || err2 != nil {
+		high, _ := cmapCode(tokens[i+1].text)
+		if array := tokens[i+2].array; array != nil {
+			for k := 0; k < len(array) && low+k <= high; k++ {
+				fd.mapCode(low+k, array[k], 0)
+			}
 			continue
 		}
-		// Parse array elements
-		arrayHexPattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>`)
-		arrayElements := arrayHexPattern.FindAllStringSubmatch(match[3], -1)
-		for i, elem := range arrayElements {
-			code := int(srcLo) + i
-			if code > int(srcHi) {
-				break
-			}
-			unicodeRunes := hexToUnicodeRunes(elem[1])
-			if len(unicodeRunes) > 0 {
-				fd.toUnicode[code] = unicodeRunes[0]
-			}
+		for code := low; code <= high; code++ {
+			fd.mapCode(code, tokens[i+2].text, code-low)
 		}
 	}
 }
 
-// hexToUnicodeRunes converts a hex string to Unicode runes
-// Each pair of hex digits represents a byte in UTF-16BE
-func hexToUnicodeRunes(hex string) []rune {
-	var runes []rune
-
-	// Handle UTF-16BE encoding (most common in PDFs)
-	if len(hex) == 4 {
-		// Single BMP character
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) == 2 {
-		// Single byte - treat as code point
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) > 4 {
-		// Multi-character or surrogate pair
-		for i := 0; i < len(hex); i += 4 {
-			end := i + 4
-			if end > len(hex) {
-				end = len(hex)
-			}
-			if val, err := strconv.ParseInt(hex[i:end], 16, 32); err == nil {
-				runes = append(runes, rune(val))
-			}
-		}
+// mapCode maps a code to UTF-16BE text whose last unit is increased by offset. A single byte is a
+// code point.
+func (fd *FontDecoder) mapCode(code int, text []byte, offset int) {
+	if len(text) == 1 {
+		fd.toUnicode[code] = string(rune(int(text[0]) + offset))
+		return
+	}
+	units := make([]uint16, 0, len(text)/2)
+	for i := 0; i+1 < len(text); i += 2 {
+		units = append(units, uint16(text[i])<<8|uint16(text[i+1]))
+	}
+	if len(units) > 0 {
+		units[len(units)-1] += uint16(offset)
+		fd.toUnicode[code] = string(utf16.Decode(units))
 	}
-
-	return runes
 }
 
 // ParseDifferencesArray parses a PDF Differences array
 // Format: [ code1 /name1 /name2 code2 /name3 ... ]
 func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
-	// Remove brackets
-	diffStr = strings.TrimSpace(diffStr)
-	diffStr = strings.TrimPrefix(diffStr, "[")
-	diffStr = strings.TrimSuffix(diffStr, "]")
-
-	// Parse tokens
-	tokens := strings.Fields(diffStr)
 	currentCode := 0
-
-	for _, token := range tokens {
-		if strings.HasPrefix(token, "/") {
-			// Glyph name
-			glyphName := strings.TrimPrefix(token, "/")
-			if unicode := glyphNameToUnicode(glyphName); unicode != 0 {
-				fd.differences[currentCode] = unicode
+	for i := 0; i < len(diffStr); {
+		end := i + 1
+		switch c := diffStr[i]; {
+		case c == '%':
+			for end < len(diffStr) && diffStr[end] != '\n' && diffStr[end] != '\r' {
+				end++
 			}
-			currentCode++
-		} else {
-			// Character code
-			if code, err := strconv.Atoi(token); err == nil {
+		case c == '/' || c >= '0' && c <= '9':
+			for end < len(diffStr) && !strings.ContainsRune(" \t\r\n\f\x00/[]<>()%", rune(diffStr[end])) {
+				end++
+			}
+			if c == '/' {
+				// Glyph name
+				fd.SetDifferences(currentCode, diffStr[i+1:end])
+				currentCode++
+			} else if code, err := strconv.Atoi(diffStr[i:end]); err == nil {
+				// Character code
 				currentCode = code
 			}
 		}
+		i = end
 	}
 }
 
@@ -321,14 +315,14 @@ func glyphNameToUnicode(name string) rune {
 
 	// Handle uniXXXX format (e.g., uni0041 = A)
 	if strings.HasPrefix(name, "uni") && len(name) == 7 {
-		if val, err := strconv.ParseInt(name[3:], 16, 32); err == nil {
+		if val, err := strconv.ParseUint(name[3:], 16, 32); err == nil {
 			return rune(val)
 		}
 	}
 
-	// Handle uXXXX or uXXXXX format
-	if strings.HasPrefix(name, "u") && (len(name) == 5 || len(name) == 6) {
-		if val, err := strconv.ParseInt(name[1:], 16, 32); err == nil {
+	// Handle uXXXX to uXXXXXX format
+	if strings.HasPrefix(name, "u") && len(name) >= 5 && len(name) <= 7 {
+		if val, err := strconv.ParseUint(name[1:], 16, 32); err == nil {
 			return rune(val)
 		}
 	}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 966c58b..c1c586c 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -2,7 +2,6 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -53,94 +52,48 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.FontInfo {
 	fonts := make(map[string]types.FontInfo)
 
-	if verbose {
-		fmt.Printf("Extracting fonts from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
+	for key, fontStr := range fontDictionaries(resourcesStr, pdf, verbose) {
+		fontName := strings.TrimPrefix(key, "/")
+		fontInfo := extractFontInfo(fontStr, pdf, verbose)
+		fontInfo.ID = "/" + fontName
+		fonts[fontName] = *fontInfo
 	}
 
-	// Find /Font dictionary - handle both << >> and inline formats
-	// Pattern: /Font<<...>> or /Font <<...>>
-	// First try simple pattern
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			// Find the << after /Font
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
+	return fonts
+}
+
+// fontDictionaries returns the font dictionaries of a Resources dictionary by their resource names
+func fontDictionaries(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]string {
+	fonts := make(map[string]string)
+	for key, value := range dictEntries(dictionaryOf(resourcesStr, "/Font", pdf)) {
+		fontStr := string(value)
+		if !strings.HasPrefix(fontStr, "<<") {
+			fontObjNum, err := parseObjectRef(fontStr)
+			if err != nil {
+				continue
 			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				// Find matching >>
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
+			fontObj, err := pdf.GetObject(fontObjNum)
+			if err != nil {
+				if verbose {
+					fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
 				}
+				continue
 			}
+			fontStr = string(fontObj)
 		}
+		fonts[key] = fontStr
 	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources\n")
-		}
-		return fonts
-	}
-
-	fontDictStr := fontMatch[1]
-	if verbose {
-		fmt.Printf("Found Font dictionary: %s\n", fontDictStr)
-	}
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	if verbose {
-		fmt.Printf("Found %d font entries\n", len(fontEntries))
-	}
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
-		if fontInfo != nil {
-			fontInfo.ID = "/" + fontName
-			fonts[fontName] = *fontInfo
-		}
-	}
-
 	return fonts
 }
 
-// extractFontInfo extracts information from a font dictionary object
-func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontInfo {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
+// hasFontFile reports whether a font descriptor has an embedded font program
+func hasFontFile(descriptor string) bool {
+	entries := dictEntries(descriptor)
+	return entries["/FontFile"] != nil || entries["/FontFile2"] != nil || entries["/FontFile3"] != nil
+}
 
-	fontStr := string(fontObj)
+// extractFontInfo extracts information from a font dictionary
+func extractFontInfo(fontStr string, pdf *parse.PDF, verbose bool) *types.FontInfo {
 	fontInfo := &types.FontInfo{
 		Embedded: false,
 	}
@@ -171,42 +124,37 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 		}
 	}
 
-	// Extract Encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
+	// Extract Encoding: its name, or that of the encoding a dictionary is based on
+	encoding := resolveValue(fontStr, "/Encoding", pdf)
+	if strings.HasPrefix(encoding, "/") {
 		fontInfo.Encoding = encoding
-	}
-
-	// Check if font is embedded (has FontDescriptor with FontFile, FontFile2, or FontFile3)
-	if strings.Contains(fontStr, "/FontFile") || strings.Contains(fontStr, "/FontFile2") || strings.Contains(fontStr, "/FontFile3") {
-		fontInfo.Embedded = true
+	} else if encoding != "" {
+		fontInfo.Encoding = extractDictValue(encoding, "/BaseEncoding")
 	}
 
 	// Check for ToUnicode CMap
-	if strings.Contains(fontStr, "/ToUnicode") {
+	if dictEntries(fontStr)["/ToUnicode"] != nil {
 		fontInfo.ToUnicode = true
 	}
 
-	// Extract FontDescriptor for more info
-	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
-	if fontDescriptorRef != "" {
-		descObjNum, err := parseObjectRef(fontDescriptorRef)
-		if err == nil {
-			descObj, err := pdf.GetObject(descObjNum)
+	// Extract FontDescriptor for more info; the descriptor of a composite font is that of its descendant
+	descriptor := dictionaryOf(fontStr, "/FontDescriptor", pdf)
+	if descriptor == "" {
+		refs := parseObjectRefArray(resolveValue(fontStr, "/DescendantFonts", pdf))
+		if len(refs) > 0 {
+			descendantNum, err := parseObjectRef(refs[0])
 			if err == nil {
-				descStr := string(descObj)
-				// Check for embedded font files in descriptor
-				if strings.Contains(descStr, "/FontFile") || strings.Contains(descStr, "/FontFile2") || strings.Contains(descStr, "/FontFile3") {
-					fontInfo.Embedded = true
-				}
-				// Extract font family name if available
-				fontFamily := extractDictValue(descStr, "/FontFamily")
-				if fontFamily != "" {
-					fontInfo.Family = fontFamily
+				descendant, err := pdf.GetObject(descendantNum)
+				if err == nil {
+					descriptor = dictionaryOf(string(descendant), "/FontDescriptor", pdf)
 				}
 			}
 		}
 	}
+	fontInfo.Embedded = hasFontFile(descriptor)
+	if fontFamily := extractTextValue(descriptor, "/FontFamily"); fontFamily != "" {
+		fontInfo.Family = fontFamily
+	}
 
 	return fontInfo
 }
@@ -282,140 +230,39 @@ func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XOb
 	return xobject
 }
 
-// extractImageDataWithBinary extracts image with full binary data
-// This is a helper that calls extractImageData from images.go
-func extractImageDataWithBinary(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	return extractImageData(imageObjNum, pdf, verbose)
-}
-
 // extractFontDecoders extracts font decoders for text extraction from a Resources string
 func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]*FontDecoder {
 	decoders := make(map[string]*FontDecoder)
 
-	if verbose {
-		fmt.Printf("Extracting font decoders from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
-	}
-
-	// Find /Font dictionary - handle both << >> and inline formats
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources for decoder extraction\n")
-		}
-		return decoders
-	}
-
-	fontDictStr := fontMatch[1]
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
-		if decoder != nil {
-			decoders["/"+fontName] = decoder
-		}
+	for key, fontStr := range fontDictionaries(resourcesStr, pdf, verbose) {
+		fontName := strings.TrimPrefix(key, "/")
+		decoders["/"+fontName] = extractFontDecoder(fontStr, fontName, pdf, verbose)
 	}
 
 	return decoders
 }
 
-// extractFontDecoder creates a FontDecoder for a font object
-func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
-
-	fontStr := string(fontObj)
+// extractFontDecoder creates a FontDecoder for a font dictionary
+func extractFontDecoder(fontStr, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
 	decoder := NewFontDecoder(fontName)
+	subtype := extractDictValue(fontStr, "/Subtype")
 
-	// Extract and set base encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		// Check if encoding is a name (e.g., /WinAnsiEncoding) or a reference
-		if strings.HasPrefix(encoding, "/") {
-			decoder.SetBaseEncoding(encoding)
-		} else {
-			// Encoding might be a reference to an encoding dictionary
-			encodingObjNum, err := parseObjectRef(encoding)
-			if err == nil {
-				encodingObj, err := pdf.GetObject(encodingObjNum)
-				if err == nil {
-					encodingStr := string(encodingObj)
-
-					// Extract BaseEncoding from encoding dictionary
-					baseEnc := extractDictValue(encodingStr, "/BaseEncoding")
-					if baseEnc != "" {
-						decoder.SetBaseEncoding(baseEnc)
-					}
-
-					// Extract Differences array
-					diffsStr := extractDifferencesArray(encodingStr)
-					if diffsStr != "" {
-						decoder.ParseDifferencesArray(diffsStr)
-					}
-				}
-			}
-		}
-	} else {
-		// Check for implicit encoding based on font type
-		subtype := extractDictValue(fontStr, "/Subtype")
-		baseFont := extractDictValue(fontStr, "/BaseFont")
-
-		// Standard 14 fonts use StandardEncoding by default
-		if isStandard14Font(baseFont) {
-			decoder.SetBaseEncoding("StandardEncoding")
-		} else if subtype == "/Type1" || subtype == "/TrueType" {
-			// Type1 and TrueType default to StandardEncoding
-			decoder.SetBaseEncoding("StandardEncoding")
+	// The codes of composite fonts have two bytes; simple fonts default to StandardEncoding
+	if subtype == "/Type0" {
+		decoder.twoByte = true
+	} else if subtype == "/Type1" || subtype == "/MMType1" || subtype == "/TrueType" || isStandard14Font(extractDictValue(fontStr, "/BaseFont")) {
+		decoder.SetBaseEncoding("StandardEncoding")
+	}
+
+	// Extract and set the encoding: a name, or a dictionary with a base encoding and differences
+	encoding := resolveValue(fontStr, "/Encoding", pdf)
+	if strings.HasPrefix(encoding, "/") {
+		decoder.SetBaseEncoding(encoding)
+	} else if strings.HasPrefix(encoding, "<<") {
+		if baseEnc := resolveValue(encoding, "/BaseEncoding", pdf); baseEnc != "" {
+			decoder.SetBaseEncoding(baseEnc)
 		}
-	}
-
-	// Handle Differences array in inline encoding
-	diffsStr := extractDifferencesArray(fontStr)
-	if diffsStr != "" {
-		decoder.ParseDifferencesArray(diffsStr)
+		decoder.ParseDifferencesArray(resolveValue(encoding, "/Differences", pdf))
 	}
 
 	// Extract ToUnicode CMap (highest priority for text decoding)
@@ -433,65 +280,9 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 		}
 	}
 
-	// For Type0 (CID) fonts, extract the descendant font's encoding
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "/Type0" {
-		descendantFontsRef := extractDictValue(fontStr, "/DescendantFonts")
-		if descendantFontsRef != "" {
-			// Parse array of references
-			refs := parseObjectRefArray(descendantFontsRef)
-			if len(refs) > 0 {
-				descFontObjNum, err := parseObjectRef(refs[0])
-				if err == nil {
-					descFontObj, err := pdf.GetObject(descFontObjNum)
-					if err == nil {
-						// Check for CIDToGIDMap, which might give us Unicode mappings
-						descFontStr := string(descFontObj)
-						if verbose {
-							fmt.Printf("Type0 descendant font: %s\n", descFontStr[:min(200, len(descFontStr))])
-						}
-					}
-				}
-			}
-		}
-	}
-
 	return decoder
 }
 
-// extractDifferencesArray extracts the Differences array from an encoding dictionary or font
-func extractDifferencesArray(str string) string {
-	// Find /Differences array
-	diffIdx := strings.Index(str, "/Differences")
-	if diffIdx == -1 {
-		return ""
-	}
-
-	// Find the opening bracket
-	bracketStart := strings.Index(str[diffIdx:], "[")
-	if bracketStart == -1 {
-		return ""
-	}
-	bracketStart += diffIdx
-
-	// Find matching closing bracket
-	depth := 1
-	bracketEnd := bracketStart + 1
-	for bracketEnd < len(str) && depth > 0 {
-		if str[bracketEnd] == '[' {
-			depth++
-		} else if str[bracketEnd] == ']' {
-			depth--
-		}
-		bracketEnd++
-	}
-
-	if depth == 0 {
-		return str[bracketStart:bracketEnd]
-	}
-	return ""
-}
-
 // extractStreamData extracts and decompresses stream data from a stream object
 func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
 	dict, data, err := readStream(objNum, pdf)
-- 
2.43.0


From 817f9b42472b4c564675f719756c0e654b994c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:16 +0000
Subject: [PATCH 51/58] fix: page arrays may be objects of their own;
 annotation borders and gray colors

---
 content/extract/annotations.go | 56 +++++++++++++---------------------
 content/extract/images.go      | 10 ++----
 content/extract/pages.go       | 44 +++++++++++++++-----------
 3 files changed, 50 insertions(+), 60 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index b98c277..f8213ed 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -2,35 +2,19 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// arrayObjectPattern matches an object that is an array of references
-var arrayObjectPattern = regexp.MustCompile(`^\s*(?:\d+\s+\d+\s+obj)?\s*(\[[^\[\]<>()]*\])`)
-
-// extractAnnotations extracts annotations from a page's /Annots array
-func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
+// extractAnnotations extracts the annotations of a page's /Annots entry
+func extractAnnotations(pageStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
 	var annotations []types.Annotation
 
 	// The entry is an array of references (e.g., "[5 0 R 6 0 R]"), or a reference to such an array or
 	// to a single annotation
-	if !strings.HasPrefix(annotsStr, "[") {
-		if objNum, err := parseObjectRef(annotsStr); err == nil {
-			if obj, err := pdf.GetObject(objNum); err == nil {
-				if array := arrayObjectPattern.FindSubmatch(obj); array != nil {
-					annotsStr = string(array[1])
-				}
-			}
-		}
-	}
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 && !strings.HasPrefix(annotsStr, "[") {
-		annotRefs = []string{annotsStr}
-	}
+	annotRefs := extractRefs(pageStr, "/Annots", pdf)
 
 	for _, annotRef := range annotRefs {
 		annotObjNum, err := parseObjectRef(annotRef)
@@ -114,7 +98,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Rect (bounding rectangle)
-	rect := extractArrayValue(annotStr, "/Rect")
+	rect := extractArrayValue(annotStr, "/Rect", pdf)
 	if len(rect) >= 4 {
 		annotation.Rect = &types.Rectangle{
 			LowerX: rect[0],
@@ -134,8 +118,15 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	annotation.Subject = extractTextValue(annotStr, "/Subj")
 
 	// Extract Color
-	color := extractArrayValue(annotStr, "/C")
-	if len(color) >= 3 {
+	color := extractArrayValue(annotStr, "/C", pdf)
+	if len(color) == 1 {
+		annotation.Color = &types.Color{
+			Space: types.ColorSpaceGray,
+			R:     color[0],
+			G:     color[0],
+			B:     color[0],
+		}
+	} else if len(color) >= 3 {
 		annotation.Color = &types.Color{
 			Space: types.ColorSpaceRGB,
 			R:     color[0],
@@ -153,17 +144,14 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Border
-	borderWidthStr := extractDictValue(annotStr, "/Border")
-	if borderWidthStr != "" {
-		// Border can be [width] or [width dashArray dashPhase]
-		borderArray := extractArrayValue(annotStr, "/Border")
-		if len(borderArray) > 0 {
-			annotation.Border = &types.Border{
-				Width: borderArray[0],
-			}
-			if len(borderArray) > 2 {
-				annotation.Border.Dash = borderArray[1 : len(borderArray)-1]
-			}
+	// Border is [hRadius vRadius width] or [hRadius vRadius width [dashArray]]
+	borderArray := extractArrayValue(annotStr, "/Border", pdf)
+	if len(borderArray) >= 3 {
+		annotation.Border = &types.Border{
+			Width: borderArray[2],
+		}
+		if len(borderArray) > 3 {
+			annotation.Border.Dash = borderArray[3:]
 		}
 	}
 
@@ -196,7 +184,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeUnderline ||
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
-		quadPoints := extractArrayValue(annotStr, "/QuadPoints")
+		quadPoints := extractArrayValue(annotStr, "/QuadPoints", pdf)
 		if len(quadPoints) >= 8 {
 			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
 			// For simplicity, extract first quad
diff --git a/content/extract/images.go b/content/extract/images.go
index a0ab38b..95a8b0a 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -236,7 +236,7 @@ func pageResources(pdf *parse.PDF, objNum int, inherited string, visited map[int
 	}
 	visited[objNum] = true
 	var result []string
-	for _, kidRef := range parseObjectRefArray(extractDictValue(nodeStr, "/Kids")) {
+	for _, kidRef := range extractRefs(nodeStr, "/Kids", pdf) {
 		if kidObjNum, err := parseObjectRef(kidRef); err == nil {
 			result = append(result, pageResources(pdf, kidObjNum, inherited, visited)...)
 		}
@@ -291,13 +291,7 @@ func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, visited map[int]b
 	visited[pagesObjNum] = true
 
 	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
+	kidsRefs := extractRefs(pagesStr, "/Kids", pdf)
 	for _, kidRef := range kidsRefs {
 		kidObjNum, err := parseObjectRef(kidRef)
 		if err != nil {
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 5eedf0f..ee4bb2e 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -127,7 +127,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, inhe
 	visited[pagesObjNum] = true
 
 	// This is a pages node - get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
+	kidsStr := resolveValue(pagesStr, "/Kids", pdf)
 	if verbose {
 		fmt.Printf("Kids string: %s\n", kidsStr)
 	}
@@ -175,7 +175,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract media box
-	mediaBox := extractArrayValue(pageStr, "/MediaBox")
+	mediaBox := extractArrayValue(pageStr, "/MediaBox", pdf)
 	if len(mediaBox) >= 4 {
 		page.MediaBox = &types.Rectangle{
 			LowerX: mediaBox[0],
@@ -188,7 +188,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract crop box
-	cropBox := extractArrayValue(pageStr, "/CropBox")
+	cropBox := extractArrayValue(pageStr, "/CropBox", pdf)
 	if len(cropBox) >= 4 {
 		page.CropBox = &types.Rectangle{
 			LowerX: cropBox[0],
@@ -237,13 +237,9 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	// Extract content streams
 	contents := extractDictValue(pageStr, "/Contents")
 	if contents != "" {
-		// Contents can be a single reference or an array
+		// Contents can be a single reference or an array, which may be an object of its own
 		// Decompress and parse content stream
-		contentRefs := parseObjectRefArray(contents)
-		if len(contentRefs) == 0 {
-			// Try as single reference
-			contentRefs = []string{contents}
-		}
+		contentRefs := extractRefs(pageStr, "/Contents", pdf)
 
 		// The content streams of a page are one stream of operations, split anywhere between tokens
 		var pageContent strings.Builder
@@ -268,11 +264,8 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract annotations
-	// extractDictValue already handles arrays and returns them as "[...]" strings
-	annotsRef := extractDictValue(pageStr, "/Annots")
-	if annotsRef != "" {
-		annotations := extractAnnotations(annotsRef, pdf, pageObjNum, verbose)
-		page.Annotations = annotations
+	if extractDictValue(pageStr, "/Annots") != "" {
+		page.Annotations = extractAnnotations(pageStr, pdf, pageObjNum, verbose)
 	}
 
 	return page, nil
@@ -280,15 +273,17 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 
 // Helper functions for parsing PDF dictionaries and arrays
 
-func extractArrayValue(dictStr, key string) []float64 {
-	// Take the array from its entry (e.g., "/MediaBox [0 0 612 792]")
-	array := extractDictValue(dictStr, key)
+func extractArrayValue(dictStr, key string, pdf *parse.PDF) []float64 {
+	// Take the array from its entry (e.g., "/MediaBox [0 0 612 792]"), or the object it refers to
+	array := resolveValue(dictStr, key, pdf)
 	if !strings.HasPrefix(array, "[") {
 		return nil
 	}
 
 	// Parse numbers from array
-	parts := strings.Fields(strings.Trim(array, "[]"))
+	parts := strings.FieldsFunc(array, func(c rune) bool {
+		return strings.ContainsRune(" \t\r\n\f\x00[]", c)
+	})
 	var values []float64
 	for _, part := range parts {
 		if val, err := strconv.ParseFloat(part, 64); err == nil {
@@ -298,6 +293,19 @@ func extractArrayValue(dictStr, key string) []float64 {
 	return values
 }
 
+// extractRefs returns the references of a dictionary entry that is an array, a reference to an array
+// object, or a reference to another object
+func extractRefs(dictStr, key string, pdf *parse.PDF) []string {
+	value := extractDictValue(dictStr, key)
+	if value == "" || strings.HasPrefix(value, "[") {
+		return parseObjectRefArray(value)
+	}
+	if array := resolveValue(dictStr, key, pdf); strings.HasPrefix(array, "[") {
+		return parseObjectRefArray(array)
+	}
+	return []string{value}
+}
+
 func parseObjectRefArray(arrStr string) []string {
 	// Remove brackets if present
 	arrStr = strings.TrimSpace(arrStr)
-- 
2.43.0


From 4d2d9514b0263486314e8c837f3ca57ab9c6fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:50 +0000
Subject: [PATCH 52/58] fix: content lists every page's images and fonts; link
 destinations of actions

---
 content/extract/annotations.go |  5 ++++-
 content/extract/extract.go     | 28 ++++++++++++++++------------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index f8213ed..a5db417 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -160,8 +160,11 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		// Check for URI: in the annotation, or in its action (a dictionary or a reference to one)
 		annotation.URI = extractURI(annotStr, pdf)
 
-		// Check for Destination (named destination or array)
+		// Check for Destination (named destination or array), in the annotation or its action
 		annotation.Destination = extractDestination(annotStr, "/Dest")
+		if annotation.Destination == "" {
+			annotation.Destination = extractDestination(extractAction(annotStr, pdf), "/D")
+		}
 	}
 
 	// Text annotation-specific
diff --git a/content/extract/extract.go b/content/extract/extract.go
index d4f72ec..c61af46 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -72,23 +72,27 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	}
 	doc.Annotations = allAnnotations
 
-	// Extract images and fonts (collect unique names from all pages)
-	seenImages := make(map[string]bool)
-	seenFonts := make(map[string]bool)
-	for _, page := range doc.Pages {
+	// Extract images and fonts (collect those of all pages, which may have the same names for others)
+	pageImages, err := pageImageObjects(pdf, verbose)
+	if err != nil && verbose {
+		fmt.Printf("Warning: failed to find images: %v\n", err)
+	}
+	seenImages := make(map[int]bool)
+	seenFonts := make(map[types.FontInfo]bool)
+	for i, page := range doc.Pages {
 		if page.Resources == nil {
 			continue
 		}
-		for _, id := range sortedKeys(page.Resources.Images) {
-			if !seenImages[id] {
-				seenImages[id] = true
-				doc.Images = append(doc.Images, page.Resources.Images[id])
+		for _, name := range sortedKeys(page.Resources.Images) {
+			if i < len(pageImages) && !seenImages[pageImages[i][name]] {
+				seenImages[pageImages[i][name]] = true
+				doc.Images = append(doc.Images, page.Resources.Images[name])
 			}
 		}
-		for _, id := range sortedKeys(page.Resources.Fonts) {
-			if !seenFonts[id] {
-				seenFonts[id] = true
-				doc.Fonts = append(doc.Fonts, page.Resources.Fonts[id])
+		for _, name := range sortedKeys(page.Resources.Fonts) {
+			if font := page.Resources.Fonts[name]; !seenFonts[font] {
+				seenFonts[font] = true
+				doc.Fonts = append(doc.Fonts, font)
 			}
 		}
 	}
-- 
2.43.0


From 1af9230668810eb638a5250731af508d2dd876a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 53/58] fix: JPEG files with fill bytes before a marker are
 read

---
 core/write/image.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/write/image.go b/core/write/image.go
index 10eefa4..a223eb6 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -180,8 +180,9 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		marker := data[pos+1]
 		pos += 2
 
-		// Skip padding
+		// Skip padding: the marker follows the last fill byte
 		if marker == 0xFF {
+			pos--
 			continue
 		}
 
-- 
2.43.0


From 56ce0777882413c375d935a7d650a51fecc79d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 54/58] fix: images with transparency keep their colors, and
 every transparency has a soft mask

---
 core/write/image.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/core/write/image.go b/core/write/image.go
index a223eb6..a10ecc6 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -85,12 +85,7 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	var rawData []byte
 	var colorSpace string
 	var hasAlpha bool
-
-	// Check if image has alpha channel
-	switch img.(type) {
-	case *image.NRGBA, *image.RGBA:
-		hasAlpha = true
-	}
+	alphaMask := make([]byte, width*height)
 
 	// Convert to RGB or Gray
 	switch img.ColorModel() {
@@ -108,11 +103,14 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 		rawData = make([]byte, width*height*3)
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
-				r, g, b, _ := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
+				// Colors that are not multiplied by the alpha, which the soft mask has
+				c := color.NRGBAModel.Convert(img.At(x+bounds.Min.X, y+bounds.Min.Y)).(color.NRGBA)
 				idx := (y*width + x) * 3
-				rawData[idx] = uint8(r >> 8)
-				rawData[idx+1] = uint8(g >> 8)
-				rawData[idx+2] = uint8(b >> 8)
+				rawData[idx] = c.R
+				rawData[idx+1] = c.G
+				rawData[idx+2] = c.B
+				alphaMask[y*width+x] = c.A
+				hasAlpha = hasAlpha || c.A != 0xFF
 			}
 		}
 	}
@@ -139,14 +137,6 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 
 	// If image has alpha, create a soft mask
 	if hasAlpha {
-		alphaMask := make([]byte, width*height)
-		for y := 0; y < height; y++ {
-			for x := 0; x < width; x++ {
-				_, _, _, a := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
-				alphaMask[y*width+x] = uint8(a >> 8)
-			}
-		}
-
 		maskDict := Dictionary{
 			"Type":             "/XObject",
 			"Subtype":          "/Image",
-- 
2.43.0


From 34a947b8427e262ad9c4e461bfb17388fe35b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 55/58] fix: images of a page get names of their own, written
 as PDF names; resources in a fixed order

---
 core/write/page.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 84a9fc2..05fafdb 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -4,6 +4,8 @@ package write
 import (
 	"bytes"
 	"fmt"
+	"sort"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/resources/font"
@@ -79,18 +81,20 @@ func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	return "/" + resourceName
 }
 
-// AddImage adds an image and returns the resource name
+// AddImage adds an image and returns the resource name. An image whose name another image of the
+// page has gets a name of its own.
 func (pb *PageBuilder) AddImage(info *ImageInfo) string {
-	resourceName := info.Name
+	// Remove leading / if present
+	resourceName := strings.TrimPrefix(info.Name, "/")
 	if resourceName == "" {
 		resourceName = fmt.Sprintf("Im%d", len(pb.images)+1)
 	}
-	// Remove leading / if present
-	if len(resourceName) > 0 && resourceName[0] == '/' {
-		resourceName = resourceName[1:]
+	wanted := resourceName
+	for n := 2; pb.images[resourceName] != 0 && pb.images[resourceName] != info.ObjectNum; n++ {
+		resourceName = fmt.Sprintf("%s-%d", wanted, n)
 	}
 	pb.images[resourceName] = info.ObjectNum
-	return "/" + resourceName
+	return nameOf(resourceName)
 }
 
 // AddEmbeddedFont adds an embedded TrueType/OpenType font and returns the resource name
@@ -133,6 +137,20 @@ func (w *fontWriterWrapper) NextObjectNumber() int {
 	return w.w.nextObjNum
 }
 
+// formatReferences formats references to the named objects, in the order of their names
+func formatReferences(objects map[string]int) string {
+	var names []string
+	for name := range objects {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	result := ""
+	for _, name := range names {
+		result += fmt.Sprintf("%s %d 0 R", nameOf(name), objects[name])
+	}
+	return result
+}
+
 // Build finalizes the page and returns the page object number
 func (pb *PageBuilder) Build(pagesObjNum int) int {
 	pb.pagesObjNum = pagesObjNum
@@ -147,18 +165,14 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add fonts
 	if len(pb.fonts) > 0 {
 		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
-		}
+		resources += formatReferences(pb.fonts)
 		resources += ">>"
 	}
 
 	// Add images as XObjects
 	if len(pb.images) > 0 {
 		resources += "/XObject<<"
-		for name, objNum := range pb.images {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
-		}
+		resources += formatReferences(pb.images)
 		resources += ">>"
 	}
 
-- 
2.43.0


From 471f0b75fd549b7fdf7a16f4fe11ef8a46c9ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 56/58] fix: watermarks draw images by their names, use
 defaults for missing options and have the opacity asked for

---
 core/write/page.go      | 11 +++++++
 core/write/watermark.go | 64 ++++++++++++++++++++++++-----------------
 2 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 05fafdb..b2ae9d6 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -34,6 +34,7 @@ type PageBuilder struct {
 	fonts       map[string]int    // resource name -> object number
 	standard    map[string]string // standard font name -> resource name
 	images      map[string]int    // image name -> object number
+	opacities   []float64         // opacities of the graphics states GS1, GS2, ...
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
@@ -176,6 +177,16 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 		resources += ">>"
 	}
 
+	// Add graphics states
+	if len(pb.opacities) > 0 {
+		resources += "/ExtGState<<"
+		for i, opacity := range pb.opacities {
+			value := pb.writer.formatValue(opacity)
+			resources += fmt.Sprintf("/GS%d<</ca %s/CA %s>>", i+1, value, value)
+		}
+		resources += ">>"
+	}
+
 	resources += ">>"
 
 	// Create page object
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..cf24bf0 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -3,6 +3,7 @@ package write
 import (
 	"fmt"
 	"math"
+	"strings"
 )
 
 // WatermarkOptions configures watermark appearance
@@ -41,23 +42,43 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
+	// Check the options before anything is drawn
+	imageName := ""
+	if options.ImageName != "" {
+		for name := range pb.images {
+			if name == strings.TrimPrefix(options.ImageName, "/") || nameOf(name) == options.ImageName {
+				imageName = nameOf(name)
+			}
+		}
+		if imageName == "" {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
+	}
+
+	// Use defaults for what is not given
+	defaults := DefaultWatermarkOptions()
+	fontName, fontSize, color := options.FontName, options.FontSize, options.Color
+	if fontName == "" {
+		fontName = defaults.FontName
+	}
+	if fontSize == 0 {
+		fontSize = defaults.FontSize
+	}
+	if color == nil {
+		color = defaults.Color
+	}
+
 	// Save graphics state
 	pb.content.SaveState()
 
 	// Set opacity using ExtGState (if opacity < 1.0)
 	if options.Opacity < 1.0 {
-		// For simplicity, we'll use the gs operator with an ExtGState
-		// For now, just set color with reduced opacity by adjusting RGB
-		// Full ExtGState support would require adding it to resources
-		opacity := options.Opacity
-		pb.content.SetFillColorRGB(
-			options.Color.R*opacity,
-			options.Color.G*opacity,
-			options.Color.B*opacity,
-		)
-	} else {
-		pb.content.SetFillColorRGB(options.Color.R, options.Color.G, options.Color.B)
+		pb.opacities = append(pb.opacities, options.Opacity)
+		pb.content.Raw(fmt.Sprintf("/GS%d gs", len(pb.opacities)))
 	}
+	pb.content.SetFillColorRGB(color.R, color.G, color.B)
 
 	// Calculate center if not specified
 	centerX := options.X
@@ -80,40 +101,31 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		)
 	}
 
-	if options.ImageName != "" {
+	if imageName != "" {
 		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
 		// Draw image centered using Do operator
 		// Scale and position the image
 		// For simplicity, scale to reasonable size and center
 		// Image will be drawn at current position (0,0 after translate/rotate)
 		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4) // Center the image
 		pb.content.Scale(pb.size.Width/2, pb.size.Height/2)
-		pb.content.DrawImage(options.ImageName)
+		pb.content.DrawImage(imageName)
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
-		fontName := pb.AddStandardFont(options.FontName)
+		fontResource := pb.AddStandardFont(fontName)
 
 		// Begin text
 		pb.content.BeginText()
 
 		// Set font and size
-		pb.content.SetFont(fontName, options.FontSize)
+		pb.content.SetFont(fontResource, fontSize)
 
 		// Calculate text position (center the text)
 		// For simplicity, approximate text width (could be improved)
-		textWidth := float64(len(options.Text)) * options.FontSize * 0.6
+		textWidth := float64(len(options.Text)) * fontSize * 0.6
 		textX := -textWidth / 2
-		textY := -options.FontSize / 2
+		textY := -fontSize / 2
 
 		pb.content.SetTextPosition(textX, textY)
 
-- 
2.43.0


From b0d979d3ce9fa20b39a8b0369712d1ca79ac3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:51 +0000
Subject: [PATCH 57/58] fix: XFA config, locale, connection and style settings
 survive being written and parsed

---
 forms/xfa/xfa_config_translator.go     | 201 +++++++++++++++++++++++--
 forms/xfa/xfa_connection_translator.go |   6 +-
 forms/xfa/xfa_locale_translator.go     |   6 +-
 forms/xfa/xfa_stylesheet_translator.go |  15 +-
 4 files changed, 201 insertions(+), 27 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..16507f3 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -57,6 +58,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Validate == nil {
 					config.Validate = &types.XFAConfigValidate{}
 				}
+				parseValidateAttributes(se, config.Validate)
 			case "submit":
 				currentSection = "submit"
 				if config.Submit == nil {
@@ -82,20 +84,29 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Common == nil {
 					config.Common = &types.XFAConfigCommon{}
 				}
+				parseCommonAttributes(se, config.Common)
 			case "output":
 				currentSection = "output"
 				if config.Output == nil {
 					config.Output = &types.XFAConfigOutput{}
 				}
+				parseOutputAttributes(se, config.Output)
+			case "trace":
+				if config.Trace == nil {
+					config.Trace = &types.XFAConfigTrace{}
+				}
+				parseTraceAttributes(se, config.Trace)
 			case "script":
 				if currentSection == "present" {
 					if config.Present.Script == nil {
 						config.Present.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Present.Script)
 				} else {
 					if config.Script == nil {
 						config.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Script)
 				}
 			case "pdf":
 				if currentSection == "present" && config.Present != nil {
@@ -109,12 +120,14 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					if config.Present.XDP == nil {
 						config.Present.XDP = &types.XFAConfigXDP{}
 					}
+					parseXDPAttributes(se, config.Present.XDP)
 				}
 			case "print":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.Print == nil {
 						config.Present.Print = &types.XFAConfigPrint{}
 					}
+					parsePrintAttributes(se, config.Present.Print)
 				}
 			case "interactive":
 				if currentSection == "present" && config.Present != nil {
@@ -134,9 +147,12 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 			switch localName {
 			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
 				currentSection = ""
+				currentValue.Reset()
+			case "config", "pdf", "xdp", "print", "interactive", "script", "trace":
+				currentValue.Reset()
 			default:
 				value := strings.TrimSpace(currentValue.String())
-				if value != "" && currentSection != "" {
+				if value != "" {
 					// Store property
 					if config.Properties == nil {
 						config.Properties = make(map[string]interface{})
@@ -257,6 +273,82 @@ func parseInteractiveAttributes(se xml.StartElement, interactive *types.XFAConfi
 	}
 }
 
+func parseValidateAttributes(se xml.StartElement, validate *types.XFAConfigValidate) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "scriptTest":
+			validate.ScriptTest = attr.Value
+		case "nullTest":
+			validate.NullTest = attr.Value
+		case "formatTest":
+			validate.FormatTest = attr.Value
+		}
+	}
+}
+
+func parseCommonAttributes(se xml.StartElement, common *types.XFAConfigCommon) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "dataPrefix":
+			common.DataPrefix = attr.Value
+		case "timeStamp":
+			common.TimeStamp = attr.Value
+		}
+	}
+}
+
+func parseOutputAttributes(se xml.StartElement, output *types.XFAConfigOutput) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "format":
+			output.Format = attr.Value
+		case "destination":
+			output.Destination = attr.Value
+		}
+	}
+}
+
+func parseTraceAttributes(se xml.StartElement, trace *types.XFAConfigTrace) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "enabled":
+			trace.Enabled = parseBool(attr.Value)
+		case "level":
+			trace.Level = attr.Value
+		}
+	}
+}
+
+func parseScriptAttributes(se xml.StartElement, script *types.XFAConfigScript) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "contentType":
+			script.ContentType = attr.Value
+		case "runAt":
+			script.RunAt = attr.Value
+		}
+	}
+}
+
+func parseXDPAttributes(se xml.StartElement, xdp *types.XFAConfigXDP) {
+	for _, attr := range se.Attr {
+		if attr.Name.Local == "version" {
+			xdp.Version = attr.Value
+		}
+	}
+}
+
+func parsePrintAttributes(se xml.StartElement, print *types.XFAConfigPrint) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "printerName":
+			print.PrinterName = attr.Value
+		case "printerCap":
+			print.PrinterCap = attr.Value
+		}
+	}
+}
+
 // ConfigToXFA converts XFAConfig to XFA XML
 func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 	if verbose {
@@ -322,19 +414,31 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 		}
 	}
 
+	// Encode script section
+	if config.Script != nil {
+		if err := encodeConfigScript(enc, config.Script); err != nil {
+			return "", fmt.Errorf("failed to encode script: %v", err)
+		}
+	}
+
+	// Encode trace section
+	if config.Trace != nil {
+		if err := encodeConfigTrace(enc, config.Trace); err != nil {
+			return "", fmt.Errorf("failed to encode trace: %v", err)
+		}
+	}
+
 	// Encode additional properties
-	if config.Properties != nil {
-		for key, value := range config.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return "", err
-			}
+	for _, key := range sortedPropertyKeys(config.Properties) {
+		elemStart := xml.StartElement{Name: xml.Name{Local: key}}
+		if err := enc.EncodeToken(elemStart); err != nil {
+			return "", err
+		}
+		if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", config.Properties[key]))); err != nil {
+			return "", err
+		}
+		if err := enc.EncodeToken(elemStart.End()); err != nil {
+			return "", err
 		}
 	}
 
@@ -376,12 +480,33 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 		}
 	}
 
+	if present.XDP != nil {
+		attrs := appendAttr(nil, "version", present.XDP.Version)
+		if err := encodeEmptyElement(enc, "xdp", attrs); err != nil {
+			return err
+		}
+	}
+
+	if present.Print != nil {
+		attrs := appendAttr(nil, "printerName", present.Print.PrinterName)
+		attrs = appendAttr(attrs, "printerCap", present.Print.PrinterCap)
+		if err := encodeEmptyElement(enc, "print", attrs); err != nil {
+			return err
+		}
+	}
+
 	if present.Interactive != nil {
 		if err := encodeConfigInteractive(enc, present.Interactive); err != nil {
 			return err
 		}
 	}
 
+	if present.Script != nil {
+		if err := encodeConfigScript(enc, present.Script); err != nil {
+			return err
+		}
+	}
+
 	if err := enc.EncodeToken(presentStart.End()); err != nil {
 		return err
 	}
@@ -389,6 +514,48 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 	return nil
 }
 
+func encodeConfigScript(enc *xml.Encoder, script *types.XFAConfigScript) error {
+	attrs := appendAttr(nil, "contentType", script.ContentType)
+	attrs = appendAttr(attrs, "runAt", script.RunAt)
+	return encodeEmptyElement(enc, "script", attrs)
+}
+
+func encodeConfigTrace(enc *xml.Encoder, trace *types.XFAConfigTrace) error {
+	var attrs []xml.Attr
+	if trace.Enabled {
+		attrs = appendAttr(attrs, "enabled", "1")
+	}
+	attrs = appendAttr(attrs, "level", trace.Level)
+	return encodeEmptyElement(enc, "trace", attrs)
+}
+
+// appendAttr appends an attribute unless its value is empty
+func appendAttr(attrs []xml.Attr, name, value string) []xml.Attr {
+	if value == "" {
+		return attrs
+	}
+	return append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: value})
+}
+
+// encodeEmptyElement encodes an element that has only attributes
+func encodeEmptyElement(enc *xml.Encoder, name string, attrs []xml.Attr) error {
+	start := xml.StartElement{Name: xml.Name{Local: name}, Attr: attrs}
+	if err := enc.EncodeToken(start); err != nil {
+		return err
+	}
+	return enc.EncodeToken(start.End())
+}
+
+// sortedPropertyKeys returns the keys of a property map in the order they are written
+func sortedPropertyKeys(properties map[string]interface{}) []string {
+	keys := make([]string, 0, len(properties))
+	for key := range properties {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 	pdfStart := xml.StartElement{Name: xml.Name{Local: "pdf"}}
 	attrs := []xml.Attr{}
@@ -494,6 +661,14 @@ func encodeConfigSubmit(enc *xml.Encoder, submit *types.XFAConfigSubmit) error {
 	if submit.TextEncoding != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "textEncoding"}, Value: submit.TextEncoding})
 	}
+	keys := make([]string, 0, len(submit.Properties))
+	for key := range submit.Properties {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: key}, Value: submit.Properties[key]})
+	}
 	submitStart.Attr = attrs
 
 	if err := enc.EncodeToken(submitStart); err != nil {
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..77f9e5e 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -276,7 +276,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 
 	// Encode properties
 	if connection.Properties != nil {
-		for key, value := range connection.Properties {
+		for _, key := range sortedPropertyKeys(connection.Properties) {
+			value := connection.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
@@ -317,7 +318,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 
 	// Encode properties
 	if desc.Properties != nil {
-		for key, value := range desc.Properties {
+		for _, key := range sortedPropertyKeys(desc.Properties) {
+			value := desc.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..96cc5fc 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -145,11 +145,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 			}
 
 		case xml.CharData:
-			if currentSection == "calendar" && strings.Contains(string(se), "holiday") {
-				// Holiday content
-			} else {
-				currentValue.WriteString(string(se))
-			}
+			currentValue.WriteString(string(se))
 		}
 	}
 
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..50c2833 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -382,7 +382,8 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
-	for key, value := range style.Properties {
+	for _, key := range sortedPropertyKeys(style.Properties) {
+		value := style.Properties[key]
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
@@ -467,16 +468,16 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 	marginStart := xml.StartElement{Name: xml.Name{Local: "margin"}}
 	attrs := []xml.Attr{}
-	if margin.Top > 0 {
+	if margin.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(margin.Top, 'f', -1, 64)})
 	}
-	if margin.Right > 0 {
+	if margin.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(margin.Right, 'f', -1, 64)})
 	}
-	if margin.Bottom > 0 {
+	if margin.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(margin.Bottom, 'f', -1, 64)})
 	}
-	if margin.Left > 0 {
+	if margin.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(margin.Left, 'f', -1, 64)})
 	}
 	marginStart.Attr = attrs
@@ -521,10 +522,10 @@ func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 	positionStart := xml.StartElement{Name: xml.Name{Local: "position"}}
 	attrs := []xml.Attr{}
-	if position.X > 0 {
+	if position.X != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "x"}, Value: strconv.FormatFloat(position.X, 'f', -1, 64)})
 	}
-	if position.Y > 0 {
+	if position.Y != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "y"}, Value: strconv.FormatFloat(position.Y, 'f', -1, 64)})
 	}
 	positionStart.Attr = attrs
-- 
2.43.0


From 1e3773a165d5ce2eca1c8b57bc8f546917b558a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:40 +0000
Subject: [PATCH 58/58] fix: XFA forms keep options, patterns, scripts, pages
 and nested subforms; rules are written inside their field

---
 forms/xfa/xfa_form_translator.go | 121 +++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 39 deletions(-)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..1c52211 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -93,15 +93,16 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 		return "", fmt.Errorf("failed to encode template start: %v", err)
 	}
 
-	// Convert questions to fields
-	for _, question := range formSchema.Questions {
-		if err := encodeQuestionAsField(enc, question); err != nil {
+	// Convert questions to fields, each with the events of its rules
+	fieldRules, otherRules := groupRulesBySource(formSchema)
+	for i, question := range formSchema.Questions {
+		if err := encodeQuestionAsField(enc, question, fieldRules[i]); err != nil {
 			return "", fmt.Errorf("failed to encode question %s: %v", question.ID, err)
 		}
 	}
 
-	// Convert rules to events/scripts
-	for _, rule := range formSchema.Rules {
+	// Convert rules of no field to events/scripts
+	for _, rule := range otherRules {
 		if err := encodeRuleAsEvent(enc, rule); err != nil {
 			if verbose {
 				log.Printf("Warning: Failed to encode rule %s: %v", rule.ID, err)
@@ -126,8 +127,33 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 	return result, nil
 }
 
-// encodeQuestionAsField encodes a Question as an XFA field element
-func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
+// groupRulesBySource returns the rules of each question, which name it (or its ID) as
+// their source, and the rules that belong to no question
+func groupRulesBySource(formSchema *types.FormSchema) ([][]types.Rule, []types.Rule) {
+	fieldRules := make([][]types.Rule, len(formSchema.Questions))
+	var otherRules []types.Rule
+	for _, rule := range formSchema.Rules {
+		owner := -1
+		for i, question := range formSchema.Questions {
+			if rule.Source != "" && rule.Source == question.Name {
+				owner = i
+				break
+			}
+			if rule.Source != "" && rule.Source == question.ID && owner < 0 {
+				owner = i
+			}
+		}
+		if owner < 0 {
+			otherRules = append(otherRules, rule)
+			continue
+		}
+		fieldRules[owner] = append(fieldRules[owner], rule)
+	}
+	return fieldRules, otherRules
+}
+
+// encodeQuestionAsField encodes a Question and its rules as an XFA field element
+func encodeQuestionAsField(enc *xml.Encoder, question types.Question, rules []types.Rule) error {
 	fieldStart := xml.StartElement{
 		Name: xml.Name{Local: "field"},
 		Attr: []xml.Attr{
@@ -169,20 +195,24 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add layout properties
 	if question.Properties != nil {
-		for key, val := range question.Properties {
-			if key == "x" || key == "y" || key == "w" || key == "h" {
+		for _, key := range []string{"x", "y", "w", "h"} {
+			if val, ok := question.Properties[key]; ok {
 				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 					Name:  xml.Name{Local: key},
 					Value: fmt.Sprintf("%v", val),
 				})
 			}
 		}
-		if pageNum, ok := question.Properties["page_number"].(int); ok && pageNum > 0 {
-			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-				Name:  xml.Name{Local: "page"},
-				Value: strconv.Itoa(pageNum),
-			})
-		}
+	}
+	pageNum := question.PageNumber
+	if pageNum <= 0 {
+		pageNum, _ = question.Properties["page_number"].(int)
+	}
+	if pageNum > 0 {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "page"},
+			Value: strconv.Itoa(pageNum),
+		})
 	}
 
 	if err := enc.EncodeToken(fieldStart); err != nil {
@@ -262,6 +292,13 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		}
 	}
 
+	// Add events
+	for _, rule := range rules {
+		if err := encodeRuleAsEvent(enc, rule); err != nil {
+			return err
+		}
+	}
+
 	// End field
 	if err := enc.EncodeToken(fieldStart.End()); err != nil {
 		return err
@@ -478,16 +515,17 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	decoder.Strict = false // Allow malformed XML
 
 	var currentField *XFAFieldData
-	var currentSubform *XFASubformData
+	var openSubforms []XFASubformData // Innermost last
 	var currentValue strings.Builder
 	var currentLabel strings.Builder
 	var currentDescription strings.Builder
+	var currentText strings.Builder // Text of an option, a pattern or a script
 	var inField bool
-	var inSubform bool
 	var inValue bool
 	var inLabel bool
 	var inDescription bool
 	var inItems bool // For choice options
+	var inText bool
 	var fieldIndex int
 
 	for {
@@ -518,15 +556,15 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 			case "subform":
-				inSubform = true
-				currentSubform = &XFASubformData{
+				subform := XFASubformData{
 					Fields: make([]XFAFieldData, 0),
 				}
 				for _, attr := range se.Attr {
 					if attr.Name.Local == "name" {
-						currentSubform.Name = attr.Value
+						subform.Name = attr.Value
 					}
 				}
+				openSubforms = append(openSubforms, subform)
 			case "field":
 				inField = true
 				fieldIndex++
@@ -588,7 +626,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "text":
 				// Option text in items
 				if inItems && inField {
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "event":
 				if inField {
@@ -606,7 +645,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "script":
 				if inField && len(currentField.Events) > 0 {
 					// Script content will be in CharData
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "validate":
 				if inField {
@@ -624,7 +664,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				}
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "bind":
 				if inField {
@@ -660,11 +701,11 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						currentField.Description = strings.TrimSpace(currentDescription.String())
 					}
 
-					if inSubform && currentSubform != nil {
-						currentSubform.Fields = append(currentSubform.Fields, *currentField)
-					} else {
-						structure.Fields = append(structure.Fields, *currentField)
+					if n := len(openSubforms); n > 0 {
+						openSubforms[n-1].Fields = append(openSubforms[n-1].Fields, *currentField)
 					}
+					// Fields of subforms are top-level fields too
+					structure.Fields = append(structure.Fields, *currentField)
 				}
 				inField = false
 				currentField = nil
@@ -672,13 +713,10 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				currentLabel.Reset()
 				currentDescription.Reset()
 			case "subform":
-				if currentSubform != nil {
-					structure.Subforms = append(structure.Subforms, *currentSubform)
-					// Also add subform fields to top-level fields
-					structure.Fields = append(structure.Fields, currentSubform.Fields...)
+				if n := len(openSubforms); n > 0 {
+					structure.Subforms = append(structure.Subforms, openSubforms[n-1])
+					openSubforms = openSubforms[:n-1]
 				}
-				inSubform = false
-				currentSubform = nil
 			case "value":
 				if inField && currentField != nil {
 					val := strings.TrimSpace(currentValue.String())
@@ -706,26 +744,31 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				if inItems && inField && currentField != nil {
 					// This is an option value
 					option := XFAOption{
-						Value: strings.TrimSpace(currentValue.String()),
-						Label: strings.TrimSpace(currentValue.String()),
+						Value: strings.TrimSpace(currentText.String()),
+						Label: strings.TrimSpace(currentText.String()),
 					}
 					currentField.Options = append(currentField.Options, option)
+					inText = false
 				}
 			case "script":
 				if inField && len(currentField.Events) > 0 {
 					// Add script to last event
 					lastEvent := &currentField.Events[len(currentField.Events)-1]
-					lastEvent.Script = strings.TrimSpace(currentValue.String())
+					lastEvent.Script = strings.TrimSpace(currentText.String())
 				}
+				inText = false
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentField.Validation.Pattern = strings.TrimSpace(currentValue.String())
+					currentField.Validation.Pattern = strings.TrimSpace(currentText.String())
 				}
+				inText = false
 			}
 
 		case xml.CharData:
 			data := string(se)
-			if inValue && inField {
+			if inText && inField {
+				currentText.WriteString(data)
+			} else if inValue && inField {
 				currentValue.WriteString(data)
 			} else if inLabel && inField {
 				currentLabel.WriteString(data)
@@ -799,7 +842,7 @@ func mapXFATypeToResponseTypeEnum(xfaType string) types.ResponseType {
 		return types.ResponseTypeRadio
 	case "checkbox", "checkbutton":
 		return types.ResponseTypeCheckbox
-	case "select", "choice", "dropdown", "listbox":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return types.ResponseTypeSelect
 	case "numeric", "decimal", "integer", "float":
 		return types.ResponseTypeNumber
-- 
2.43.0

