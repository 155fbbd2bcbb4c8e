exec(open('/verif/tools/bugs/common.py').read())
BUGS=[
dict(id="C03-sub-filter", property="C03", edits=[(OS,"							left := byte(0)\n							if i > 0 {\n								left = decoded[row*columns+i-1]\n							}\n							decoded[row*columns+i] = rowData[i] + left","							left := byte(0)\n							if i > 0 {\n								left = rowData[i-1]\n							}\n							decoded[row*columns+i] = rowData[i] + left")],
 needs="a cross-reference stream row with the Sub filter and at least three non-zero columns", breaks="offsets of Sub-filtered rows are wrong from the third column on",
 demo=IMPF+r'''
func TestDemo(t *testing.T) {
	f := xrefFile([]string{"<< /Type /Catalog >>", "(two)"}, "/W [1 2 1] /DecodeParms << /Predictor 11 /Columns 4 >>", func(off []int, self int) []byte {
		rows := [][]byte{{0, 0, 0, 0}}
		for _, o := range append(off[1:], self) {
			rows = append(rows, []byte{1, byte(o >> 8), byte(o), 0})
		}
		rows[2] = []byte{1, 9, 77, 0}
		var out []byte
		for _, r := range rows {
			out = append(out, 1, r[0], r[1]-r[0], r[2]-r[1], r[3]-r[2])
		}
		return out
	})
	r, err := parse.ParseXRefStreamFull(f, int64(bytes.Index(f, []byte("3 0 obj"))), false)
	if err != nil || r.Objects[2] != 9*256+77 {
		t.Fatalf("%v %v", r, err)
	}
}
'''),
dict(id="C04-depth", property="C04", edits=[(INC,"for currentOffset > 0 && !visited[currentOffset] {","for currentOffset > 0 && !visited[currentOffset] && len(visited) < 10 {")],
 needs="a file with more than ten incremental updates", breaks="objects defined only in the oldest revisions are missing",
 demo=IMPI+r'''
func TestDemo(t *testing.T) {
	f := start()
	f.obj(1, "<< /Type /Catalog >>")
	a := f.table("/Size 3 /Root 1 0 R", 0, 1)
	f.end(a)
	for i := 0; i < 15; i++ {
		f.obj(2, fmt.Sprint("(", i, ")"))
		a = f.table(fmt.Sprintf("/Size 3 /Root 1 0 R /Prev %d", a), 2)
		f.end(a)
	}
	p, err := parse.Open(f.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetObject(1)
	if err != nil || !bytes.Contains(o, []byte("Catalog")) {
		t.Fatalf("object 1: %q %v", o, err)
	}
}
'''),
dict(id="C04-moved", property="C04", edits=[(INC,"			p.mergedStreams[objNum] = entry\n","			if _, direct := p.mergedObjs[objNum]; direct {\n				continue\n			}\n			p.mergedStreams[objNum] = entry\n")],
 needs="an object stored directly in one revision and moved into an object stream by a later one", breaks="the object keeps its old version",
 demo=IMPI.replace('import (','import (\n\t"compress/zlib"')+r'''
func TestDemo(t *testing.T) {
	f := start()
	f.obj(1, "<< /Type /Catalog >>")
	f.obj(2, "(old)")
	a := f.table("/Size 3 /Root 1 0 R", 0, 1, 2)
	f.end(a)
	f.obj(3, "<< /Type /ObjStm /N 1 /First 4 /Length 9 >>\nstream\n2 0 (new)\nendstream")
	at := f.Len()
	rows := []byte{2, 0, 3, 0, 1, byte(f.off[3] >> 8), byte(f.off[3]), 0, 1, byte(at >> 8), byte(at), 0}
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(rows)
	w.Close()
	fmt.Fprintf(f, "4 0 obj\n<< /Type /XRef /Size 5 /Root 1 0 R /Prev %d /W [1 2 1] /Index [2 3] /Filter /FlateDecode /Length %d >>\nstream\n%s\nendstream\nendobj\n", a, z.Len(), z.Bytes())
	f.end(at)
	p, err := parse.Open(f.Bytes())
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetObject(2)
	if err != nil || !bytes.Contains(o, []byte("(new)")) {
		t.Fatalf("object 2: %q %v", o, err)
	}
}
'''),
dict(id="C07-float", property="C07", edits=[(W,"strconv.FormatFloat(v, 'f', -1, 64)","strconv.FormatFloat(v, 'f', 3, 64)")],
 needs="a number in a dictionary with more than three decimals", breaks="the number is written rounded",
 demo=IMPW+r'''
func TestDemo(t *testing.T) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	n := w.AddStreamObject(write.Dictionary{"/F": 0.00048828125}, []byte("x"), false)
	b, err := w.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(b)
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetObject(n)
	if err != nil || !bytes.Contains(o, []byte("0.00048828125")) {
		t.Fatalf("%q %v", o, err)
	}
}
'''),
]
