// Package c08: stream payloads survive writing and reading.
package c08

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/lib"
	"verif/harness/sym"
)

func inflate(d []byte) []byte {
	x, err := parse.DecodeFlateDecode(d)
	sym.Assert(err == nil, "written Flate data does not decode")
	return x
}

// roundTrip writes data as a stream (twice: plain neighbours follow) and reads it in every way.
func roundTrip(data []byte, compress bool, mode int, via int) {
	w := write.NewPDFWriter()
	w.UseXRefStream(mode == 1)
	if mode == 2 {
		w.UseObjectStream(true)
	}
	root := w.AddObject([]byte("<< /Type /Catalog >>"))
	w.SetRoot(root)
	src := append([]byte{}, data...)
	var n int
	switch via {
	case 0:
		n = w.AddStreamObject(write.Dictionary{"/K": "/V", "/S": write.Dictionary{"/Length1": 3}}, data, compress)
	case 1:
		n = 7
		w.SetStreamObject(n, write.Dictionary{"/K": "/V"}, data, compress)
	case 2: // replaced
		n = w.AddStreamObject(write.Dictionary{"/K": "/W"}, []byte("old data, longer than the new"), false)
		w.SetStreamObject(n, write.Dictionary{"/K": "/V", "/Length": 1}, data, compress)
	}
	after := w.AddStreamObject(write.Dictionary{}, []byte("next"), false)
	out, err := w.Bytes()
	sym.Assert(err == nil, "write error")
	sym.Assert(sym.EqB(data, src), "caller's data modified")
	check := func(d *lib.Val, got []byte, ok bool) {
		sym.Assert(ok, "stream object malformed")
		sym.Assert(d.Get("K").Is("V"), "dictionary entry lost")
		sym.Assert(d.Count("Length") == 1, "several /Length entries")
		if compress && len(src) > 0 {
			sym.Assert(d.Get("Filter").Is("FlateDecode"), "compressed without /Filter")
			got = inflate(got)
		} else {
			sym.Assert(d.Get("Filter") == nil, "uncompressed with /Filter")
		}
		sym.Assert(sym.EqB(got, src), "payload differs")
	}
	if mode == 0 {
		s := lib.ReadTable(out)
		sym.Assert(s != nil, "file structure is not conforming")
		check(s.StreamData(n))
	}
	p, err := parse.Open(out)
	sym.Assert(err == nil, "does not open")
	o, err := p.GetObject(n)
	sym.Assert(err == nil, "stream not readable")
	check(lib.Stream(lib.Body(n, o)))
	o, err = p.GetObject(after)
	sym.Assert(err == nil, "neighbour not readable")
	_, nd, ok := lib.Stream(lib.Body(after, o))
	sym.Assert(ok && string(nd) == "next", "neighbour stream differs")
	if mode != 2 {
		q, err := parse.OpenWithOptions(out, parse.ParseOptions{BytePerfect: true})
		sym.Assert(err == nil, "does not open in byte-perfect mode")
		r, err := q.GetRawObject(n)
		sym.Assert(err == nil, "raw stream object missing")
		sym.Assert(r.IsStream, "stream not recognised")
		d, _ := lib.ParseVal(r.DictRaw, 0)
		check(d, r.StreamData(), d != nil)
	}
	sym.Reach("roundtrip")
}

// HArbitrary: every short payload.
func HArbitrary() {
	sym.Bound("every payload of 0..4 bytes (thorough 6), plain and compressed, added, set or replaced, 3 output modes")
	data := sym.Bytes("data", sym.Choice("len", lib.Max(5, 7)))
	roundTrip(data, sym.Choice("compress", 2) == 1, sym.Choice("mode", 3), sym.Choice("via", 3))
}

// HKeywords: payloads made of the words that delimit objects.
func HKeywords() {
	sym.Bound("payloads mixing one or two of 14 delimiting texts with 2 arbitrary bytes before, between or after, plain, 2 output modes")
	kw := []string{"endstream", "\nendstream", "\nendstream\nendobj\n", "endobj", "stream\n", "obj", "1 0 obj\n", ">>", "<<", "(", "%", "\r\n", "\n", "%%EOF\n", "startxref\n7\n", "xref\n0 1\n", "trailer\n<< /Root 9 0 R >>\n", "/Length 2 "}
	a := kw[sym.Choice("a", len(kw))]
	b := ""
	if sym.Choice("two", 2) == 1 {
		b = kw[sym.Choice("b", 4)]
	}
	x := sym.Bytes("x", 2)
	var data []byte
	switch sym.Choice("place", 3) {
	case 0:
		data = append(append(append([]byte{}, x...), a...), b...)
	case 1:
		data = append(append(append([]byte(a), x[0]), b...), x[1])
	case 2:
		data = append(append([]byte(a), b...), x...)
	}
	roundTrip(data, false, sym.Choice("mode", 2), 0)
}

// HEOL: payloads beginning and ending with line ends keep them.
func HEOL() {
	sym.Bound("payloads of CR, LF and one arbitrary byte in every arrangement of up to 4 positions, plain and compressed")
	n := 1 + sym.Choice("n", 4)
	data := make([]byte, n)
	for i := range data {
		switch sym.Choice("k", 3) {
		case 0:
			data[i] = '\r'
		case 1:
			data[i] = '\n'
		case 2:
			data[i] = sym.Byte("x")
		}
	}
	roundTrip(data, sym.Choice("compress", 2) == 1, 0, 0)
}

// HBig: payloads around buffer sizes.
func HBig() {
	sym.Bound("payloads of 255, 256, 4096, 65535, 65536 (thorough 300000) bytes, the first, middle and last bytes arbitrary, plain and compressed")
	sizes := []int{255, 256, 4096, 65535, 65536}
	if sym.Thorough() {
		sizes = append(sizes, 300000)
	}
	n := sizes[sym.Choice("size", len(sizes))]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	copy(data, sym.Bytes("x", 2))
	data[n/2] = sym.Byte("y")
	copy(data[n-2:], sym.Bytes("z", 2))
	roundTrip(data, sym.Choice("compress", 2) == 1, sym.Choice("mode", 3), 0)
}

// HForeign: streams written by others, with every legal spelling.
func HForeign() {
	sym.Bound("stream objects with LF or CR LF after stream, an end-of-line, CR LF or nothing before endstream, direct or indirect /Length, nested dictionaries and strings before it, 4 arbitrary payload bytes or keyword payloads")
	d := lib.NewDoc("1.4")
	d.Obj(1, "<< /Type /Catalog >>")
	x := sym.Bytes("x", 4)
	indirect := sym.Choice("indirect", 2) == 1
	data := x
	if k := sym.Choice("payload", 3); k > 0 && !indirect {
		data = append(append([]byte{x[0]}, []string{"", "endstream", "\nendobj\n"}[k]...), x[1:]...)
	} else if k > 0 {
		return
	}
	pre := []string{"", "/Length1 7 /S (>> stream) ", "/D << /Length 1 /E (\\)) >> ", "/A [<<>> /Length] "}[sym.Choice("pre", 4)]
	length := lib.Itoa(len(data))
	if indirect {
		length = "5 0 R"
	}
	open := []string{"\n", "\r\n"}[sym.Choice("open", 2)]
	end := []string{"\n", "\r\n", "", "\r"}[sym.Choice("end", 4)]
	if indirect {
		// the length is found by looking for endstream: keep the payload's own end apart from the EOL
		sym.Assume(sym.And(x[3] != '\n', x[3] != '\r'))
		if end == "\r" {
			return
		}
	}
	d.Off[3] = len(d.B)
	d.Add("3 0 obj\n<< " + pre + "/Length " + length + " >>\nstream" + open)
	d.B = append(d.B, data...)
	d.Add(end + "endstream\nendobj\n")
	d.Obj(5, lib.Itoa(len(data)))
	d.Table([]int{0, 1, 2, 3, 4, 5}, "/Size 6 /Root 1 0 R")
	p, err := parse.OpenWithOptions(d.B, parse.ParseOptions{BytePerfect: true})
	sym.Assert(err == nil, "does not open")
	r, err := p.GetRawObject(3)
	sym.Assert(err == nil, "stream object missing")
	sym.Assert(r.IsStream, "stream not recognised")
	sym.Assert(sym.EqB(r.StreamData(), data), "payload differs")
	v, _ := lib.ParseVal(r.DictRaw, 0)
	sym.Assert(v != nil && v.Get("Length") != nil, "dictionary bounds wrong")
	q, err := parse.Open(d.B)
	sym.Assert(err == nil, "does not open")
	o, err := q.GetObject(3)
	sym.Assert(err == nil, "stream not readable")
	if !indirect {
		_, got, ok := lib.Stream(lib.Body(3, o))
		sym.Assert(ok, "returned stream object malformed")
		sym.Assert(sym.EqB(got, data), "payload differs")
		sym.Reach("direct")
	}
	five, err := q.GetObject(5)
	sym.Assert(err == nil && string(lib.Body(5, five)) == length || indirect, "following object differs")
}
