exec(open('/verif/tools/bugs/common.py').read())
BUGS=[
dict(id="C01-runlength129", property="C01", edits=[(F,"data[i] == data[i+1] && i-runStart < 127 {","data[i] == data[i+1] && i-runStart < 128 {")],
 needs="a run of at least 129 equal bytes", breaks="the run length 129 is written as 128, which is the end-of-data marker, so everything from there on is lost",
 demo=IMP+'''
func TestDemo(t *testing.T) {
	in := append(bytes.Repeat([]byte{7}, 200), 1, 2, 3)
	out, err := parse.DecodeRunLength(parse.EncodeRunLength(in))
	if err != nil || !bytes.Equal(in, out) {
		t.Fatalf("%d bytes became %d (%v)", len(in), len(out), err)
	}
}
'''),
dict(id="C01-flatelimit", property="C01", edits=[(F,"	return io.ReadAll(reader)\n","	// do not let a small stream expand without bound\n	return io.ReadAll(io.LimitReader(reader, 1<<16))\n")],
 needs="more than 65536 bytes of decoded data", breaks="Flate data is silently cut after 64 KiB",
 demo='package demo\n\nimport (\n\t"bytes"\n\t"compress/zlib"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n'+'''
func TestDemo(t *testing.T) {
	in := bytes.Repeat([]byte("payload "), 9000)
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(in)
	w.Close()
	out, err := parse.DecodeFilter(b.Bytes(), "/FlateDecode")
	if err != nil || !bytes.Equal(in, out) {
		t.Fatalf("%d bytes became %d (%v)", len(in), len(out), err)
	}
}
'''),
dict(id="C02-runlength-truncated", property="C02", edits=[(F,"""			if i >= len(data) {
				return nil, fmt.Errorf("runlength: not enough data for repeat")
			}
""","""			if i >= len(data) {
				break // nothing left to repeat
			}
""")],
 needs="encoded data that ends right after a repeat length byte", breaks="truncated run-length data is decoded without an error",
 demo=IMP+'''
func TestDemo(t *testing.T) {
	out, err := parse.DecodeRunLength([]byte{1, 'a', 'b', 200})
	if err == nil {
		t.Fatalf("truncated data decoded to %q", bytes.ToUpper(out))
	}
}
'''),
dict(id="C02-ascii85-range", property="C02", edits=[(F,"if b < '!' || b > 'u' {","if b < '!' || b >= 'z' {")],
 needs="one of the characters v, w, x, y in ASCII85 data", breaks="characters that are not ASCII85 digits are decoded to other bytes instead of being reported",
 demo=IMP+'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"v!!!!~>", "!!!!w~>", "!!x~>", "!y!!!~>"} {
		if out, err := parse.DecodeASCII85([]byte(s)); err == nil {
			t.Fatalf("%q decoded to %x", s, bytes.TrimSpace(out))
		}
	}
}
'''),
dict(id="C03-generation", property="C03", edits=[(OS,"				if field2 > 0 {\n","				if field2 > 0 && field3 < 255 {\n")],
 needs="a row whose generation field is 255 or more", breaks="objects with a large generation number disappear from the document",
 demo=IMPF+'''
func TestDemo(t *testing.T) {
	f := xrefFile([]string{"<< /Type /Catalog >>", "(two)"}, "/W [1 2 2]", func(off []int, self int) []byte {
		return []byte{0, 0, 0, 255, 255, 1, 0, byte(off[1]), 0, 0, 1, 0, byte(off[2]), 1, 0, 1, 0, byte(self), 0, 0}
	})
	r, err := parse.ParseXRefStreamFull(f, int64(bytes.Index(f, []byte("3 0 obj"))), false)
	if err != nil || r.Objects[2] == 0 {
		t.Fatalf("object 2 missing: %v %v", r, err)
	}
}
'''),
dict(id="C05-allobjects", property="C05", edits=[("core/parse/document.go","			result[objNum] = obj\n","			if _, seen := result[objNum]; !seen {\n				result[objNum] = obj\n			}\n")],
 needs="an incremental update that rewrites an object, read through the merged view of all objects", breaks="the merged view returns the oldest version of each object",
 demo=IMPI+'''
func TestDemo(t *testing.T) {
	f := start()
	f.obj(1, "<< /Type /Catalog >>")
	f.obj(2, "(old)")
	a := f.table("/Size 3 /Root 1 0 R", 0, 1, 2)
	f.end(a)
	f.obj(2, "(new)")
	f.end(f.table(fmt.Sprintf("/Size 3 /Root 1 0 R /Prev %d", a), 2))
	d, err := parse.ParsePDFDocument(f.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	if o := d.AllObjects()[2]; o == nil || !bytes.Contains(o.Bytes(), []byte("(new)")) {
		t.Fatalf("object 2 is not the newest version")
	}
}
'''),
dict(id="C05-content", property="C05", edits=[("core/parse/document.go","	for i := len(o.RawBytes) - 6; i >= 0; i-- {","	for i := start; i < len(o.RawBytes); i++ {")],
 needs="an object whose text contains the word endobj inside a string or stream", breaks="the content of the raw object is cut at the first endobj",
 demo=IMPI+'''
func TestDemo(t *testing.T) {
	f := start()
	f.obj(1, "<< /Type /Catalog /Note (the endobj keyword) >>")
	f.end(f.table("/Size 2 /Root 1 0 R", 0, 1))
	p, err := parse.OpenWithOptions(f.Bytes(), parse.ParseOptions{BytePerfect: true})
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetRawObject(1)
	if err != nil || !strings.HasSuffix(string(o.Content()), ">>") {
		t.Fatalf("content %q %v", o.Content(), err)
	}
}
'''),
dict(id="C06-trust-index", property="C06", edits=[(OS,"	if targetEntry.objNum != objNum {\n","	if indexInStream >= len(entries) {\n")],
 needs="a cross-reference entry whose index is not the object's position in the object stream", breaks="another object's bytes are returned",
 demo=IMPI+'''
func TestDemo(t *testing.T) {
	f := start()
	f.obj(1, "<< /Type /Catalog >>")
	body := "7 0 8 6 (seven) (eight)"
	body = "7 0 8 8 (seven) (eight)"
	f.obj(2, fmt.Sprintf("<< /Type /ObjStm /N 2 /First 8 /Length %d >>\\nstream\\n%s\\nendstream", len(body), body))
	f.end(f.table("/Size 9 /Root 1 0 R", 0, 1, 2))
	o, err := parse.GetObjectFromStream(f.Bytes(), 8, 2, 0, nil, false)
	if err == nil && string(o) != "(eight)" {
		t.Fatalf("object 8: %q %v", o, err)
	}
}
'''),
dict(id="C06-header-split", property="C06", edits=[(OS,"	fields := strings.Fields(headerStr)\n","	fields := strings.Split(strings.TrimSpace(headerStr), \" \")\n")],
 needs="an object stream header with line ends or repeated blanks between its numbers", breaks="objects of such a stream are not found or are taken from a wrong offset",
 demo=IMPI+'''
func TestDemo(t *testing.T) {
	f := start()
	f.obj(1, "<< /Type /Catalog >>")
	body := "7 0\\n8 8\\n(seven) (eight)"
	f.obj(2, fmt.Sprintf("<< /Type /ObjStm /N 2 /First 8 /Length %d >>\\nstream\\n%s\\nendstream", len(body), body))
	f.end(f.table("/Size 9 /Root 1 0 R", 0, 1, 2))
	o, err := parse.GetObjectFromStream(f.Bytes(), 8, 2, 1, nil, false)
	if err != nil || string(o) != "(eight)" {
		t.Fatalf("object 8: %q %v", o, err)
	}
}
'''),
dict(id="C07-width", property="C07", edits=[("core/write/xref_stream.go","""	if n == 0 {
		return 1
	}
	bytes := 0
	for n > 0 {
		bytes++
		n >>= 8
	}
""","""	bytes := 1
	for n > 256 {
		bytes++
		n >>= 8
	}
""")],
 needs="a file with cross-reference stream whose largest offset is just past 65536", breaks="the offset field is one byte too narrow, so objects past 65536 bytes are recorded at offsets near 0",
 demo=IMPW+'''
func TestDemo(t *testing.T) {
	for pad := 65000; pad < 65700; pad += 13 {
		w := write.NewPDFWriter()
		w.UseXRefStream(true)
		w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
		w.AddObject([]byte("(" + strings.Repeat("x", pad) + ")"))
		n := w.AddObject([]byte("(last)"))
		b, err := w.Bytes()
		if err != nil {
			t.Fatal(err)
		}
		p, err := parse.Open(b)
		if err != nil {
			t.Fatal(err)
		}
		o, err := p.GetObject(n)
		if err != nil || !bytes.Contains(o, []byte("(last)")) {
			t.Fatalf("padding %d: %q %v", pad, o, err)
		}
	}
}
'''),
dict(id="C08-smaller", property="C08", edits=[(W,"""		zw.Close()
		streamData = buf.Bytes()
		dict["Filter"] = "/FlateDecode"
	}

	if streamData == nil {
		streamData = []byte{} // an empty stream is still a stream
	}
	delete(dict, "/Length") // same key with the optional slash
	dict["Length"] = len(streamData)

	w.objects[objNum] = &PDFObject{
		Number:     objNum,
		Generation: 0,
		Dict:       dict,
		Stream:     streamData,
	}
	if objNum""","""		zw.Close()
		if buf.Len() < len(data) {
			streamData = buf.Bytes()
		}
		dict["Filter"] = "/FlateDecode"
	}

	if streamData == nil {
		streamData = []byte{} // an empty stream is still a stream
	}
	delete(dict, "/Length") // same key with the optional slash
	dict["Length"] = len(streamData)

	w.objects[objNum] = &PDFObject{
		Number:     objNum,
		Generation: 0,
		Dict:       dict,
		Stream:     streamData,
	}
	if objNum""")],
 needs="a stream set at a chosen number whose data does not shrink when compressed", breaks="the stream is stored plain but labelled as compressed, so it cannot be decoded",
 demo=IMPW+'''
func TestDemo(t *testing.T) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	w.SetStreamObject(5, write.Dictionary{}, []byte("abc"), true)
	b, err := w.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{BytePerfect: true})
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetRawObject(5)
	if err != nil {
		t.Fatal(err)
	}
	d, err := parse.DecodeFlateDecode(o.StreamData())
	if err != nil || string(d) != "abc" {
		t.Fatalf("%q %v", d, err)
	}
}
'''),
dict(id="C08-empty", property="C08", edits=[(W,"		if obj.Stream != nil {\n			// Stream object","		if len(obj.Stream) > 0 {\n			// Stream object")],
 needs="a stream object without data", breaks="an empty stream is written as an object without content",
 demo=IMPW+'''
func TestDemo(t *testing.T) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	n := w.AddStreamObject(write.Dictionary{"/K": "/V"}, []byte{}, false)
	b, err := w.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(b)
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetObject(n)
	if err != nil || !bytes.Contains(o, []byte("endstream")) {
		t.Fatalf("%q %v", o, err)
	}
}
'''),
]
