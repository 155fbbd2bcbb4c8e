// Package c07: what the writer writes, the parser reads.
package c07

import (
	"bytes"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/lib"
	"verif/harness/sym"
)

const (
	table = iota
	xrefStream
	objStream
)

func writer(mode int) *write.PDFWriter {
	w := write.NewPDFWriter()
	if mode == xrefStream {
		w.UseXRefStream(true)
	}
	if mode == objStream {
		w.UseObjectStream(true)
	}
	return w
}

// verify checks the file against the bodies it must hold; streams have only their presence checked.
func verify(b []byte, mode int, bodies map[int][]byte, streams []int, next int, root, info int) {
	// strict structure: offsets exact
	switch mode {
	case table:
		s := lib.ReadTable(b)
		sym.Assert(s != nil, "file structure is not conforming")
		sym.Assert(len(s.At) == len(bodies)+len(streams), "wrong number of in-use entries")
		sym.Assert(s.Trailer.Get("Size").Int() == next && s.Size == next, "wrong /Size")
		sym.Assert(s.Trailer.Get("Root").Ref() == root, "wrong /Root")
		if info > 0 {
			sym.Assert(s.Trailer.Get("Info").Ref() == info, "wrong /Info")
		}
		sym.Reach("table")
	default:
		at := lib.Last(b, "startxref")
		off := 0
		for _, c := range b[at+10:] {
			if c < '0' || c > '9' {
				break
			}
			off = off*10 + int(c-'0')
		}
		r, err := parse.ParseXRefStreamFull(b, int64(off), false)
		sym.Assert(err == nil, "xref stream not readable at startxref")
		for n, o := range r.Objects {
			h := []byte(lib.Itoa(n) + " 0 obj")
			sym.Assert(int(o)+len(h) <= len(b) && bytes.Equal(b[o:int(o)+len(h)], h), "xref stream offset is not exact")
		}
		d, _ := lib.ParseVal(b, off+len(lib.Itoa(next)+" 0 obj")+1)
		sym.Assert(d != nil, "xref stream dictionary malformed")
		sym.Assert(d.Get("Root").Ref() == root, "xref stream without the right /Root")
		sym.Assert(d.Get("Size").Int() > next, "wrong /Size")
		sym.Reach("stream")
	}
	for _, bp := range []bool{false, true} {
		p, err := parse.OpenWithOptions(b, parse.ParseOptions{BytePerfect: bp})
		sym.Assert(err == nil, "written file does not open")
		sym.Assert(p.Trailer() != nil && p.Trailer().RootRef == lib.Itoa(root)+" 0 R", "wrong root")
		if info > 0 {
			sym.Assert(p.Trailer().InfoRef == lib.Itoa(info)+" 0 R", "wrong info")
		}
		for n := 1; n < next-1; n++ {
			_, isBody := bodies[n]
			isStream := false
			for _, s := range streams {
				isStream = isStream || s == n
			}
			sym.Assert(p.HasObject(n) == (isBody || isStream), "object presence differs")
		}
		for n, body := range bodies {
			got, err := p.GetObject(n)
			sym.Assert(err == nil, "object not readable")
			sym.Assert(sym.EqB(lib.Body(n, got), body), "object differs")
		}
		sym.Assert(p.IsEncrypted() == false, "plain file reported as encrypted")
		sym.Reach("opened")
	}
}

// HObjects: adding, replacing and skipping numbers in every order.
func HObjects() {
	sym.Bound("3 output modes; catalog, up to 3 more objects of arbitrary 2-letter content added, replaced or set at a chosen number (gaps), with or without an info dictionary and a stream of 3 arbitrary bytes")
	mode := sym.Choice("mode", 3)
	w := writer(mode)
	bodies := map[int][]byte{}
	var streams []int
	add := func(b []byte) int {
		n := w.AddObject(b)
		_, used := bodies[n]
		sym.Assert(!used, "object number given twice")
		bodies[n] = b
		return n
	}
	root := add([]byte("<< /Type /Catalog >>"))
	info := 0
	if sym.Choice("info", 2) == 1 {
		info = add([]byte("<< /Title (x) >>"))
		w.SetInfo(info)
	}
	for i := 0; i < 3; i++ {
		switch sym.Choice("op", 4) {
		case 0:
			add(lib.VDict("v"))
		case 1: // replace the catalog
			b := append(append([]byte("<< /Type /Catalog /X /"), lib.Upper("r", 1)...), " >>"...)
			w.SetObject(root, b)
			bodies[root] = b
		case 2:
			n := w.NextObjectNumber() + 2*i
			b := lib.VDict("s")
			w.SetObject(n, b)
			bodies[n] = b
		case 3:
			streams = append(streams, w.AddStreamObject(write.Dictionary{"/K": 1}, sym.Bytes("d", 3), i == 1))
		}
	}
	w.SetRoot(root)
	next := w.NextObjectNumber()
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	if mode == objStream {
		next = w.NextObjectNumber() - 1
	}
	verify(out, mode, bodies, streamsOf(streams, mode, next), next, root, info)
}

// streamsOf adds the object stream the writer creates.
func streamsOf(s []int, mode, next int) []int {
	if mode == objStream {
		return append(append([]int{}, s...), next-1)
	}
	return s
}

// HContent: any token text survives.
func HContent() {
	sym.Bound("objects holding names, strings (with keywords, escapes, parentheses), arrays, numbers and nested dictionaries around an arbitrary capital letter, in 3 output modes")
	mode := sym.Choice("mode", 3)
	c := string(lib.Upper("c", 1))
	texts := []string{
		"(a \\) endobj " + c + ")", "(stream\\nendstream " + c + ")", "[ 1 2 R /" + c + " ]", "<< /A << /B [ (" + c + ") ] >> /C 3 >>",
		"<4" + "1> % " + c + " comment\n", "(" + c + " 5 0 obj (nested) xref trailer)", "/" + c, "12.50", "null", "(startxref " + c + ")",
		"<< /Kids [ 2 0 R 3 0 R ] /S (>>" + c + ") >>",
	}
	w := writer(mode)
	root := w.AddObject([]byte("<< /Type /Catalog >>"))
	w.SetRoot(root)
	t := texts[sym.Choice("text", len(texts))]
	n := w.AddObject([]byte(t))
	m := w.AddObject([]byte("(last " + c + ")"))
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	next := m + 1
	if mode == objStream {
		next++
	}
	bodies := map[int][]byte{root: []byte("<< /Type /Catalog >>"), n: lib.Body(n, []byte(t)), m: []byte("(last " + c + ")")}
	verify(out, mode, bodies, streamsOf(nil, mode, next), next, root, 0)
}

// HSizes: offsets of every width and many objects.
func HSizes() {
	sym.Bound("total sizes around 256, 65536 (and 16777216 in thorough) bytes before the last object, 1..300 filler objects, 3 output modes, arbitrary 2-letter content last")
	mode := sym.Choice("mode", 3)
	w := writer(mode)
	root := w.AddObject([]byte("<< /Type /Catalog >>"))
	w.SetRoot(root)
	bodies := map[int][]byte{root: []byte("<< /Type /Catalog >>")}
	var streams []int
	pads := []int{0, 60, 150, 65200, 65440}
	if sym.Thorough() {
		pads = append(pads, 16777000)
	}
	pad := pads[sym.Choice("pad", len(pads))]
	streams = append(streams, w.AddStreamObject(write.Dictionary{}, make([]byte, pad), false))
	fill := []int{1, 20, 300}[sym.Choice("fill", 3)]
	for i := 0; i < fill; i++ {
		b := []byte("<< /N " + lib.Itoa(i) + " >>")
		bodies[w.AddObject(b)] = b
	}
	b := lib.VDict("v")
	n := w.AddObject(b)
	bodies[n] = b
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	next := n + 1
	if mode == objStream {
		next++
	}
	verify(out, mode, bodies, streamsOf(streams, mode, next), next, root, 0)
}

// HBoundary: offsets and the xref position on both sides of every field width.
func HBoundary() {
	sym.Bound("a filler stream of 0..260 and of 64990..65800 bytes in steps of 7 (thorough 1), before a last object; xref stream and object stream modes")
	mode := 1 + sym.Choice("mode", 2)
	w := writer(mode)
	root := w.AddObject([]byte("<< /Type /Catalog >>"))
	w.SetRoot(root)
	bodies := map[int][]byte{root: []byte("<< /Type /Catalog >>")}
	step := lib.Max(7, 1)
	pad := 0
	if sym.Choice("far", 2) == 0 {
		pad = step * sym.Choice("near", 260/step)
	} else {
		pad = 64990 + step*sym.Choice("pad", 810/step)
	}
	streams := []int{w.AddStreamObject(write.Dictionary{}, make([]byte, pad), false)}
	b := lib.VDict("v")
	n := w.AddObject(b)
	bodies[n] = b
	streams = append(streams, w.AddStreamObject(write.Dictionary{}, []byte("last"), false))
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	next := n + 2
	if mode == objStream {
		next++
	}
	verify(out, mode, bodies, streamsOf(streams, mode, next), next, root, 0)
}

// HDictionary: dictionary values written as the PDF syntax of the value.
func HDictionary() {
	sym.Bound("dictionary of a stream object with an arbitrary byte string of 2 bytes, an int in -300..300, names, references, nested arrays and dictionaries, keys with and without slash")
	raw := sym.Bytes("raw", 2)
	k := []int{-300, -1, 0, 7, 300}[sym.Choice("int", 5)]
	nm := string(lib.Upper("name", 2))
	w := writer(table)
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	n := w.AddStreamObject(write.Dictionary{
		"/Raw": raw, "Int": k, "/Name": "/" + nm, "Ref": "7 0 R", "/F": 2.5, "B": true,
		"/Arr": []interface{}{k, "/" + nm, "3 0 R", []interface{}{1, 2}, write.Dictionary{"/D": k}},
		"/Sub": write.Dictionary{"X": "/Y", "/Z": raw}, "/Str": nm, "/Length": 99,
	}, []byte("data"), false)
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	s := lib.ReadTable(out)
	sym.Assert(s != nil, "file structure is not conforming")
	d, data, ok := s.StreamData(n)
	sym.Assert(ok, "stream object malformed")
	sym.Assert(sym.EqB(data, []byte("data")), "stream data differs")
	sym.Assert(len(d.Keys) == 10, "keys lost or added")
	for _, x := range d.Keys {
		sym.Assert(d.Count(x) == 1, "duplicate key")
	}
	sym.Assert(d.Get("Raw") != nil && d.Get("Raw").Kind == 's' && sym.EqB(d.Get("Raw").S, raw), "byte string differs")
	sym.Assert(d.Get("Int").Int() == k, "int differs")
	sym.Assert(d.Get("Name").Kind == 'n' && sym.EqB(d.Get("Name").S, []byte(nm)), "name differs")
	sym.Assert(d.Get("Ref").Ref() == 7, "reference differs")
	sym.Assert(d.Get("F").Kind == 'i' && string(d.Get("F").S) == "2.5", "float differs")
	sym.Assert(d.Get("B").Is("true"), "bool differs")
	sym.Assert(d.Get("Str").Kind == 's' && sym.EqB(d.Get("Str").S, []byte(nm)), "string differs")
	a := d.Get("Arr")
	sym.Assert(a.Kind == 'a' && len(a.Vals) == 5, "array differs")
	sym.Assert(a.Vals[0].Int() == k && a.Vals[2].Ref() == 3 && len(a.Vals[3].Vals) == 2 && a.Vals[4].Get("D").Int() == k, "array items differ")
	sub := d.Get("Sub")
	sym.Assert(sub.Get("X").Is("Y") && sym.EqB(sub.Get("Z").S, raw), "nested dictionary differs")
	sym.Assert(d.Get("Length").Int() == 4, "wrong /Length")
	sym.Reach("dict")
}

// HHeader: version and identifiers.
func HHeader() {
	sym.Bound("version 1.d with an arbitrary digit, 3 output modes")
	mode := sym.Choice("mode", 3)
	c := sym.Byte("minor")
	sym.Assume(sym.And(c >= '0', c <= '9'))
	w := writer(mode)
	w.SetVersion("1." + string([]byte{c}))
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	p, err := parse.Open(out)
	sym.Assert(err == nil, "does not open")
	sym.Assert(sym.EqS(p.Version(), "1."+string([]byte{c})), "version differs")
	sym.Assert(p.RevisionCount() == 1, "one write makes one revision")
	sym.Assert(out[len(out)-1] == '\n' && string(out[len(out)-6:len(out)-1]) == "%%EOF", "file does not end with %%EOF")
	sym.Reach("version")
}
