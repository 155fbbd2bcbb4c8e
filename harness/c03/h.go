// Package c03: cross-reference streams.
package c03

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/lib"
	"verif/harness/sym"
)

type entry struct {
	num     int
	typ     int64
	f2, f3  int64
	present bool
}

// check compares a parse result with reference entries; numbers not listed must be absent.
func check(r *parse.XRefResult, es []entry, limit int) {
	for n := 0; n < limit; n++ {
		var e entry
		for _, x := range es {
			if x.num == n {
				e = x
			}
		}
		off, ok := r.Objects[n]
		st, ok2 := r.ObjectStreams[n]
		if !e.present {
			sym.Assert(!ok && !ok2, "an object number outside /Index is listed")
			continue
		}
		switch {
		case e.typ == 1:
			if e.f2 == 0 {
				sym.Assert(!ok2, "type 1 entry taken as compressed")
				continue // offset 0 cannot hold an object: unspecified
			}
			sym.Assert(ok, "type 1 entry lost")
			sym.Assert(off == e.f2, "wrong byte offset")
			sym.Assert(!ok2, "type 1 entry also listed as compressed")
			sym.Reach("direct")
		case e.typ == 2:
			sym.Assert(ok2, "type 2 entry lost")
			sym.Assert(int64(st.StreamObjNum) == e.f2, "wrong object stream number")
			sym.Assert(int64(st.IndexInStream) == e.f3, "wrong index in object stream")
			sym.Assert(!ok, "type 2 entry also listed as direct")
			sym.Reach("compressed")
		default:
			sym.Assert(!ok && !ok2, "free or unknown entry listed as in use")
			sym.Reach("free")
		}
	}
	sym.Assert(len(r.Objects)+len(r.ObjectStreams) <= len(es), "more objects than entries")
}

func decode(row []byte, w [3]int) (t, f2, f3 int64) {
	t = 1 // default when the first width is zero (ISO 32000-1, table 17)
	if w[0] > 0 {
		t = lib.BE(row[:w[0]])
	}
	return t, lib.BE(row[w[0] : w[0]+w[1]]), lib.BE(row[w[0]+w[1] : w[0]+w[1]+w[2]])
}

// HWidths: one entry of every shape.
func HWidths() {
	sym.Bound("/W [0..2 0..4 0..3], one arbitrary entry, /Index at object 0, 1 or 7")
	w := [3]int{sym.Choice("w1", 3), sym.Choice("w2", 5), sym.Choice("w3", 4)}
	es := w[0] + w[1] + w[2]
	if es == 0 {
		return
	}
	row := sym.Bytes("row", es)
	if es == 9 {
		sym.Assume(row[0] < 3) // nine free bytes could spell endstream
	}
	first := []int{0, 1, 7}[sym.Choice("first", 3)]
	d := lib.NewDoc("1.5")
	at := d.XrefStream(9, "/Size 10 /W ["+lib.Itoa(w[0])+" "+lib.Itoa(w[1])+" "+lib.Itoa(w[2])+"] /Index ["+lib.Itoa(first)+" 1] /Root 1 0 R", lib.Zlib(row))
	r, err := parse.ParseXRefStreamFull(d.B, int64(at), false)
	sym.Assert(err == nil, "valid xref stream rejected")
	t, f2, f3 := decode(row, w)
	check(r, []entry{{first, t, f2, f3, true}}, 10)
}

// HIndex: several subsections, with or without /Index.
func HIndex() {
	sym.Bound("up to 4 entries with arbitrary type and offset bytes in 1..3 subsections, or no /Index, 0..1 surplus or missing entries")
	w := [3]int{1, 2, 1}
	plans := []struct {
		dict string
		nums []int
	}{
		{"", []int{0, 1, 2, 3}},
		{"/Index [0 4]", []int{0, 1, 2, 3}},
		{"/Index [2 2]", []int{2, 3}},
		{"/Index [0 1 5 2]", []int{0, 5, 6}},
		{"/Index [ 3 1  8 2 12 1 ]", []int{3, 8, 9, 12}},
		{"/Index [1 1 3 1 6 2]", []int{1, 3, 6, 7}},
		{"/Index[0 0 4 2]", []int{4, 5}},
	}
	p := plans[sym.Choice("plan", len(plans))]
	// rows: type and offset arbitrary in two of them, fixed in the others
	k := sym.Choice("k", 3)
	var es []entry
	var parts [][]byte
	missing := sym.Choice("missing", 2)
	for i, n := range p.nums {
		row := []byte{1, byte(i + 1), byte(17 * i), byte(i)}
		if i == k || i == k+1 {
			row = sym.Bytes("row", 4)
		}
		if i == len(p.nums)-missing {
			break
		}
		t, f2, f3 := decode(row, w)
		parts = append(parts, row)
		es = append(es, entry{n, t, f2, f3, true})
	}
	if missing == 0 && sym.Choice("surplus", 2) == 1 {
		parts = append(parts, []byte{1, 9, 9, 0})
	}
	d := lib.NewDoc("1.5")
	size := "/Size 14 "
	if p.dict == "" {
		size = "/Size 4 "
	}
	at := d.XrefStream(13, size+p.dict+" /W [1 2 1] /Root 1 0 R", lib.Zlib(parts...))
	r, err := parse.ParseXRefStreamFull(d.B, int64(at), false)
	sym.Assert(err == nil, "valid xref stream rejected")
	check(r, es, 14)
}

func paeth(a, b, c int) int {
	abs := func(x int) int { return sym.IteInt(x < 0, -x, x) }
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	return sym.IteInt(sym.And(pa <= pb, pa <= pc), a, sym.IteInt(pb <= pc, b, c))
}

// filtered runs the parser over rows filtered with the given types and compares it with the
// reference reconstruction. All columns are part of the offset, so every byte is observed.
func filtered(pred int, ft []int, rows [][]byte, dictOrder int) {
	const cols = 3
	prev := make([]int, cols)
	var parts [][]byte
	var es []entry
	for i := range rows {
		raw := rows[i]
		parts = append(parts, append([]byte{byte(ft[i])}, raw...))
		cur := make([]int, cols)
		for j := 0; j < cols; j++ {
			left, ul := 0, 0
			if j > 0 {
				left, ul = cur[j-1], prev[j-1]
			}
			v := int(raw[j])
			switch ft[i] {
			case 1:
				v += left
			case 2:
				v += prev[j]
			case 3:
				v += (left + prev[j]) / 2
			case 4:
				v += paeth(left, prev[j], ul)
			}
			cur[j] = v & 255
		}
		prev = cur
		es = append(es, entry{i, 1, int64(cur[0])<<16 | int64(cur[1])<<8 | int64(cur[2]), 0, true})
	}
	d := lib.NewDoc("1.5")
	dp := "/DecodeParms << /Columns 3 /Predictor " + lib.Itoa(pred) + " >>"
	if dictOrder == 1 {
		dp = "/DecodeParms<</Predictor " + lib.Itoa(pred) + "/Columns 3>>"
	}
	at := d.XrefStream(5, dp+" /Size "+lib.Itoa(len(rows))+" /W [0 3 0] /Root 1 0 R", lib.Zlib(parts...))
	r, err := parse.ParseXRefStreamFull(d.B, int64(at), false)
	sym.Assert(err == nil, "valid xref stream rejected")
	check(r, es, len(rows)+1)
}

// HPredictor: the linear PNG row filters undone as in the PNG specification.
func HPredictor() {
	sym.Bound("/Predictor 10..15, /Columns 3, 3 rows: filter types 0..3 on rows 1 and 2 with arbitrary bytes, then a filter-Up row with arbitrary bytes")
	f0, f1 := sym.Choice("f0", 4), sym.Choice("f1", 4)
	pred := 10 + sym.Choice("pred", 6)
	filtered(pred, []int{f0, f1, 2}, [][]byte{sym.Bytes("r0", 3), sym.Bytes("r1", 3), sym.Bytes("r2", 3)}, (f0+f1+pred)%2)
}

// HPaeth: the Paeth filter on the first and on later rows.
func HPaeth() {
	sym.Bound("/Predictor 12 or 15, /Columns 3, arbitrary previous row and arbitrary Paeth-filtered row (as row 1 and as row 2)")
	if sym.Choice("first", 2) == 1 {
		filtered(15, []int{4, 2}, [][]byte{sym.Bytes("r0", 3), {0, 0, 1}}, 0)
		return
	}
	filtered(12, []int{0, 4}, [][]byte{sym.Bytes("r0", 3), sym.Bytes("r1", 3)}, 1)
}

// HNoPredictor: predictor 1 and absent parameters leave the data alone.
func HNoPredictor() {
	sym.Bound("2 rows of 3 arbitrary bytes with /Predictor 1 or no /DecodeParms")
	r1, r2 := sym.Bytes("r1", 3), sym.Bytes("r2", 3)
	dp := []string{"", "/DecodeParms << /Predictor 1 /Columns 3 >>"}[sym.Choice("dp", 2)]
	d := lib.NewDoc("1.5")
	at := d.XrefStream(5, dp+" /Size 2 /W [1 1 1] /Root 1 0 R", lib.Zlib(r1, r2))
	r, err := parse.ParseXRefStreamFull(d.B, int64(at), false)
	sym.Assert(err == nil, "valid xref stream rejected")
	w := [3]int{1, 1, 1}
	t1, a1, b1 := decode(r1, w)
	t2, a2, b2 := decode(r2, w)
	check(r, []entry{{0, t1, a1, b1, true}, {1, t2, a2, b2, true}}, 3)
}

// HOpen: a whole file whose objects are listed by an xref stream.
func HOpen() {
	sym.Bound("file with 3 objects behind an xref stream of widths [1 2..4 0..2]; padding of 0..700 bytes before the second object; arbitrary name byte inside it")
	d := lib.NewDoc("1.5")
	d.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	pad := []int{0, 1, 200, 255, 256, 700}[sym.Choice("pad", 6)]
	d.Add("%")
	for i := 0; i < pad; i++ {
		d.Add("x")
	}
	d.Add("\n")
	c := sym.Byte("c")
	sym.Assume(sym.And(c > ' ', c < 127, c != '%', c != '(', c != ')', c != '<', c != '>', c != '[', c != ']', c != '{', c != '}', c != '/', c != '#'))
	d.ObjG(2, 0, []byte{'<', '<', '/', 'K', ' ', '/', c, ' ', '>', '>'})
	w2 := 2 + sym.Choice("w2", 3)
	w3 := sym.Choice("w3", 3)
	row := func(t, f2, f3 int) []byte {
		r := []byte{byte(t)}
		for i := w2 - 1; i >= 0; i-- {
			r = append(r, byte(f2>>(8*uint(i))))
		}
		for i := w3 - 1; i >= 0; i-- {
			r = append(r, byte(f3>>(8*uint(i))))
		}
		return r
	}
	at := len(d.B)
	d.XrefStream(3, "/Size 4 /W [1 "+lib.Itoa(w2)+" "+lib.Itoa(w3)+"] /Root 1 0 R", lib.Zlib(row(0, 0, 255), row(1, d.Off[1], 0), row(1, d.Off[2], 0), row(1, at, 0)))
	p, err := parse.Open(d.B)
	sym.Assert(err == nil, "file with an xref stream does not open")
	sym.Assert(p.HasObject(1) && p.HasObject(2) && !p.HasObject(4), "wrong object set")
	o, err := p.GetObject(2)
	sym.Assert(err == nil, "object not found")
	sym.Observe("obj", o)
	sym.Assert(sym.EqB(o, []byte("2 0 obj\n<</K /"+string([]byte{c})+" >>\nendobj")), "wrong object content")
	sym.Assert(p.Trailer() != nil && p.Trailer().RootRef == "1 0 R", "wrong root")
	sym.Reach("opened")
}

// HLongDict: a dictionary longer than a few hundred bytes is read in full.
func HLongDict() {
	sym.Bound("xref stream dictionary with 0..120 extra bytes before and 0..200 index pairs")
	d := lib.NewDoc("1.5")
	pairs := []int{1, 2, 40, 90, 200}[sym.Choice("pairs", 5)]
	idx := "/Index ["
	var parts [][]byte
	var es []entry
	for i := 0; i < pairs; i++ {
		idx += lib.Itoa(2*i+1) + " 1 "
		row := []byte{1, byte(i >> 8), byte(i + 1), 0}
		if i == pairs-1 {
			row = sym.Bytes("row", 4)
		}
		parts = append(parts, row)
		t, f2, f3 := decode(row, [3]int{1, 2, 1})
		es = append(es, entry{2*i + 1, t, f2, f3, true})
	}
	at := d.XrefStream(500, idx+"] /Size 501 /W [1 2 1] /Root 1 0 R", lib.Zlib(parts...))
	var r *parse.XRefResult
	var err error
	pan := lib.Try(func() { r, err = parse.ParseXRefStreamFull(d.B, int64(at), false) })
	sym.Assert(!pan, "panic on a long dictionary")
	sym.Assert(err == nil, "valid xref stream rejected")
	last := es[len(es)-1]
	if last.typ == 1 && last.f2 > 0 {
		sym.Assert(r.Objects[last.num] == last.f2, "last entry wrong")
	}
	sym.Assert(len(r.Objects)+len(r.ObjectStreams) >= pairs-1, "entries lost")
	sym.Reach("long")
}
