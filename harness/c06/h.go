// Package c06: objects inside object streams.
package c06

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/lib"
	"verif/harness/sym"
)

// objs returns k bodies of arbitrary bytes that neither begin nor end with white space.
func objs(k int, maxLen int) [][]byte {
	var r [][]byte
	for i := 0; i < k; i++ {
		b := sym.Bytes("o", 1+sym.Choice("len", maxLen))
		for _, c := range []byte{b[0], b[len(b)-1]} {
			sym.Assume(sym.And(c != ' ', c != '\n', c != '\r', c != '\t'))
		}
		r = append(r, b)
	}
	return r
}

type stm struct {
	nums   []int
	order  []int // order of the data relative to the header
	bodies [][]byte
	sep    string // between header tokens
	gap    string // between objects
	extra  string // dictionary text
	raw    bool   // no filter
}

func (s stm) add(d *lib.Doc, n int) {
	offs := make([]int, len(s.nums))
	var parts [][]byte
	at := 0
	for _, i := range s.order {
		offs[i] = at
		parts = append(parts, s.bodies[i], []byte(s.gap))
		at += len(s.bodies[i]) + len(s.gap)
	}
	head := ""
	for i := range s.nums {
		head += lib.Itoa(s.nums[i]) + s.sep + lib.Itoa(offs[i]) + s.sep
	}
	parts = append([][]byte{[]byte(head)}, parts...)
	dict := s.extra + " /Type /ObjStm /N " + lib.Itoa(len(s.nums)) + " /First " + lib.Itoa(len(head))
	if s.raw {
		var all []byte
		for _, p := range parts {
			all = append(all, p...)
		}
		d.Stream(n, dict, all)
		return
	}
	d.Stream(n, dict+" /Filter /FlateDecode", lib.Zlib(parts...))
}

// finish appends the xref stream listing the direct objects and the compressed ones.
func finish(d *lib.Doc, direct []int, comp map[int][2]int) {
	var es []lib.XE
	for n := 0; n < 40; n++ {
		for _, x := range direct {
			if x == n {
				es = append(es, lib.XE{Num: n, T: 1, F2: d.Off[n]})
			}
		}
		if c, ok := comp[n]; ok {
			es = append(es, lib.XE{Num: n, T: 2, F2: c[0], F3: c[1]})
		}
	}
	d.Entries(es, 40, "/Size 41 /Root 1 0 R")
}

func id(k int) []int {
	var r []int
	for i := 0; i < k; i++ {
		r = append(r, i)
	}
	return r
}

func expect(p *parse.PDF, n int, body []byte) {
	got, err := p.GetObject(n)
	sym.Assert(err == nil, "compressed object not readable")
	sym.Assert(sym.EqB(lib.Body(n, got), lib.Body(n, body)), "compressed object differs")
	sym.Reach("read")
}

// HLayout: numbers, offsets, separators and gaps of every kind.
func HLayout() {
	sym.Bound("1..3 objects of 1..3 arbitrary bytes, header separated by blanks, line ends or tabs, gaps of 1..2 white-space bytes, data in every order")
	k := 1 + sym.Choice("k", 3)
	d := lib.NewDoc("1.5")
	d.Obj(1, "<< /Type /Catalog >>")
	s := stm{nums: []int{12, 5, 30}[:k], bodies: objs(k, 3), order: id(k)}
	s.sep = []string{" ", "\n", "\r\n", "\t "}[sym.Choice("sep", 4)]
	s.gap = []string{" ", "\n", "\r\n"}[sym.Choice("gap", 3)]
	switch p := sym.Choice("perm", 3); {
	case p == 1 && k >= 2:
		s.order[0], s.order[1] = 1, 0
	case p == 2 && k == 3:
		s.order = []int{2, 0, 1}
	case p > 0:
		return
	}
	s.add(d, 3)
	comp := map[int][2]int{}
	for i, n := range s.nums {
		comp[n] = [2]int{3, i}
	}
	finish(d, []int{1, 3}, comp)
	p, err := parse.Open(d.B)
	sym.Assert(err == nil, "does not open")
	for i, n := range s.nums {
		expect(p, n, s.bodies[i])
		b, err := parse.GetObjectFromStream(d.B, n, 3, i, nil, false)
		sym.Assert(err == nil, "object not extracted")
		sym.Assert(sym.EqB(b, s.bodies[i]), "extracted object differs")
	}
	_, err = parse.GetObjectFromStream(d.B, 7, 3, 0, nil, false)
	sym.Assert(err != nil, "an object the stream does not hold is returned")
}

// HWhich: several object streams whose numbers end alike.
func HWhich() {
	sym.Bound("2 or 3 object streams numbered 6, 16, 26 in every order, with 2 objects of 2 arbitrary bytes each, the xref index right, swapped or out of range")
	d := lib.NewDoc("1.5")
	d.Obj(1, "<< /Type /Catalog >>")
	orders := [][]int{{6, 16, 26}, {16, 6, 26}, {26, 16, 6}, {16, 6}, {26, 6, 16}}
	order := orders[sym.Choice("order", len(orders))]
	shift := sym.Choice("index", 3)
	comp := map[int][2]int{}
	bodies := map[int][]byte{}
	direct := []int{1}
	for i, n := range order {
		s := stm{nums: []int{2 + 20*(i%2) + i, 8 + 3*i}, bodies: objs(2, 1), order: id(2), sep: " ", gap: " "}
		s.bodies[0] = append([]byte("<</A "), append(s.bodies[0], ">>"...)...)
		s.add(d, n)
		direct = append(direct, n)
		for j, m := range s.nums {
			comp[m] = [2]int{n, []int{j, 1 - j, j + 2}[shift]}
			bodies[m] = s.bodies[j]
		}
	}
	finish(d, direct, comp)
	p, err := parse.Open(d.B)
	sym.Assert(err == nil, "does not open")
	for m, b := range bodies {
		expect(p, m, b)
	}
}

// HDict: dictionaries of every shape, with and without a filter.
func HDict() {
	sym.Bound("object stream with nested dictionaries or references before /Length, with Flate or no filter, 2 objects of 3 arbitrary bytes plus keyword text")
	d := lib.NewDoc("1.5")
	d.Obj(1, "<< /Type /Catalog >>")
	s := stm{nums: []int{4, 5}, order: id(2), sep: " ", gap: "\n"}
	s.extra = []string{"", "/DecodeParms << /Predictor 1 >>", "/Extends 9 0 R", "/Note (>> stream)", "/K [1 2]"}[sym.Choice("extra", 5)]
	s.raw = sym.Choice("raw", 2) == 1
	b := objs(2, 2)
	kw := []string{"", "endobj ", "endstream ", "5 0 obj ", "stream ", "<< ", ">>"}[sym.Choice("kw", 7)]
	s.bodies = [][]byte{append([]byte(kw), b[0]...), b[1]}
	if kw != "" { // the text may end up next to other arbitrary bytes: keep it recognisable
		sym.Assume(b[0][0] != '(')
	}
	s.add(d, 3)
	finish(d, []int{1, 3}, map[int][2]int{4: {3, 0}, 5: {3, 1}})
	p, err := parse.Open(d.B)
	sym.Assert(err == nil, "does not open")
	expect(p, 4, s.bodies[0])
	expect(p, 5, s.bodies[1])
}

// HBad: damaged object streams give errors, not panics or wrong data.
func HBad() {
	sym.Bound("/First of 0, 1, 7, 500, 99999999999 or a huge overflowing number, offsets beyond the data, odd header tokens, an arbitrary header byte, a stream number that is not a stream")
	d := lib.NewDoc("1.5")
	d.Obj(1, "<< /Type /Catalog >>")
	body := sym.Bytes("o", 2)
	first := []string{"8", "0", "1", "7", "500", "99999999999", "99999999999999999999999"}[sym.Choice("first", 7)]
	head := []string{"4 0 5 2 ", "4 9 5 900 ", "4 0 5 ", "4 -9 5 99999999999999999999 "}[sym.Choice("head", 4)]
	hb := []byte(head)
	if sym.Choice("any", 2) == 1 {
		hb[2] = sym.Byte("hb")
	}
	d.Stream(3, "/Type /ObjStm /N 2 /First "+first+" /Filter /FlateDecode", lib.Zlib(hb, body))
	stmNum := 3 - 2*sym.Choice("stm", 2)
	d.Entries([]lib.XE{{1, 1, d.Off[1], 0}, {3, 1, d.Off[3], 0}, {4, 2, stmNum, 0}, {5, 2, stmNum, 1}}, 40, "/Size 41 /Root 1 0 R")
	p, err := parse.Open(d.B)
	sym.Assert(err == nil, "does not open")
	for n := 4; n <= 5; n++ {
		var got []byte
		var err error
		sym.Assert(!lib.Try(func() { got, err = p.GetObject(n) }), "panic on a damaged object stream")
		if stmNum == 1 {
			sym.Assert(err != nil, "object taken from something that is not a stream")
			sym.Reach("nostream")
		}
		if err == nil {
			sym.Assert(len(got) <= len(hb)+2, "more data than the stream holds")
			sym.Reach("data")
		} else {
			sym.Reach("error")
		}
	}
}
