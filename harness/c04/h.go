// Package c04: incremental updates.
package c04

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/lib"
	"verif/harness/sym"
)

// verify opens the file and compares every object with the newest revision's definition.
func verify(f *lib.File, limit int) {
	p, err := parse.Open(f.D.B)
	sym.Assert(err == nil, "updated file does not open")
	sym.Assert(p.Trailer() != nil && p.Trailer().RootRef == f.Root, "root is not the newest revision's")
	for n := 1; n < limit; n++ {
		c, ok := f.Now[n]
		sym.Assert(p.HasObject(n) == ok, "object presence differs from the newest revision")
		got, err := p.GetObject(n)
		if !ok {
			sym.Assert(err != nil, "a deleted or unknown object is returned")
			sym.Reach("absent")
			continue
		}
		if c.Body == nil {
			continue
		}
		sym.Assert(err == nil, "object not readable")
		if !c.Direct {
			sym.Reach("compressed")
		}
		sym.Assert(sym.EqB(lib.Body(n, got), c.Body), "object Content is not the newest revision's")
		sym.Reach("read")
	}
	sym.Assert(p.ObjectCount() == len(f.Now), "object count differs")
}

// HTwo: two revisions of any kind.
func HTwo() {
	sym.Bound("2 revisions, each with a table or an xref stream (5 objects, objects 4 and 5 possibly compressed); the second updates, frees, adds, moves into or out of an object stream, or changes the root; arbitrary 2-letter (A-Z) Contents; LF or CR LF")
	f := lib.NewFile(sym.Choice("crlf", 2) == 1)
	f.Base(sym.Choice("s1", 2) == 1)
	f.Update(sym.Choice("op", 8), sym.Choice("s2", 2) == 1, 0)
	verify(f, 18)
}

// HThree: three revisions.
func HThree() {
	sym.Bound("3 revisions, tables and xref streams in every combination, 8 x 8 update combinations, arbitrary 2-letter (A-Z) Contents")
	f := lib.NewFile(false)
	kinds := sym.Choice("kinds", 8)
	f.Base(kinds&1 != 0)
	f.Update(sym.Choice("op1", 8), kinds&2 != 0, 0)
	f.Update(sym.Choice("op2", 8), kinds&4 != 0, 1)
	verify(f, 18)
}

// HEmpty: a very short last revision (its startxref lies close to the previous one).
func HEmpty() {
	sym.Bound("base revision of either kind followed by 1 or 2 revisions that change nothing or only free one object")
	f := lib.NewFile(false)
	f.Base(sym.Choice("s1", 2) == 1)
	if sym.Choice("n", 2) == 1 {
		f.End(0)
	}
	if sym.Choice("free", 2) == 1 {
		f.Free(2)
	} else if sym.Choice("zero", 2) == 1 {
		f.Put(lib.XE{Num: 0, T: 0, F2: 0, F3: 255})
	}
	f.End(0)
	verify(f, 10)
}

// HChain: a long chain of updates of one object.
func HChain() {
	sym.Bound("chain of 2..12, 20 and 40 (thorough 100) revisions of one object, alternating tables and xref streams")
	f := lib.NewFile(false)
	f.Base(false)
	n := 1 + sym.Choice("n", 13)
	if n == 12 {
		n = 19
	} else if n == 13 {
		n = lib.Max(39, 99)
	}
	for i := 0; i < n; i++ {
		f.Direct(2, lib.VDict("u"))
		s := 0
		if i%2 == 1 {
			s = 30 + i
		}
		f.End(s)
	}
	verify(f, 10)
}

// HForward: a newest section stored before the one it continues (linearized files).
func HForward() {
	sym.Bound("2 or 3 table sections stored in any order in the file, chained by /Prev, each defining one object with arbitrary 2-letter Content and the shared object 9")
	n := 2 + sym.Choice("n", 2)
	d := lib.NewDoc("1.4")
	d.Obj(1, "<< /Type /Catalog >>")
	rank := []int{0, 1, 2}[:n] // rank of the section at each place; 0 is the newest
	perm := sym.Choice("perm", n)
	for i := range rank {
		rank[i] = (i + perm) % n
	}
	if sym.Choice("swap", 2) == 1 {
		rank[0], rank[n-1] = rank[n-1], rank[0]
	}
	body := make([][]byte, n)
	shared := make([][]byte, n)
	at := make([]int, n)
	hole := make([]int, n)
	for _, r := range rank {
		body[r], shared[r] = lib.VDict("v"), lib.VDict("w")
		d.ObjG(2+r, 0, body[r])
		d.ObjG(9, 0, shared[r])
		at[r] = len(d.B)
		d.Add("xref\n0 2\n0000000000 65535 f \n" + lib.Pad10(d.Off[1]) + " 00000 n \n" +
			lib.Itoa(2+r) + " 1\n" + lib.Pad10(d.Off[2+r]) + " 00000 n \n9 1\n" + lib.Pad10(d.Off[9]) + " 00000 n \ntrailer\n<< /Size 10 /Root 1 0 R ")
		if r < n-1 {
			d.Add("/Prev ")
			hole[r] = len(d.B)
			d.Add("          ")
		}
		d.Add(">>\n")
	}
	for r := 0; r < n-1; r++ {
		copy(d.B[hole[r]:], lib.Itoa(at[r+1]))
	}
	d.Add("startxref\n" + lib.Itoa(at[0]) + "\n%%EOF\n")
	p, err := parse.Open(d.B)
	sym.Assert(err == nil, "does not open")
	for r := range body {
		o, err := p.GetObject(2 + r)
		sym.Assert(err == nil, "object of a section is missing")
		sym.Assert(sym.EqB(lib.Body(2+r, o), body[r]), "object differs")
	}
	o, err := p.GetObject(9)
	sym.Assert(err == nil && sym.EqB(lib.Body(9, o), shared[0]), "shared object is not the newest section's")
	sym.Reach("forward")
}

// HBig: tables longer than any window.
func HBig() {
	sym.Bound("table of 20, 480, 510, 700 (thorough: 3000) entries in the base or in the update; the last entry's object has arbitrary Content")
	sizes := []int{20, 480, 510, 700}
	if sym.Thorough() {
		sizes = append(sizes, 3000)
	}
	n := sizes[sym.Choice("size", len(sizes))]
	f := lib.NewFile(sym.Choice("crlf", 2) == 1)
	big := func() {
		for i := 10; i < 10+n-1; i++ {
			f.Put(lib.XE{Num: i, T: 0, F2: 0, F3: 1})
		}
		f.Direct(9+n, lib.VDict("big"))
	}
	late := sym.Choice("late", 2)
	if late == 0 {
		f.Direct(1, []byte("<< /Type /Catalog >>"))
		big()
		f.End(0)
		f.Direct(2, lib.VDict("u"))
		f.End(0)
	} else {
		f.Base(false)
		big()
		f.End(0)
	}
	p, err := parse.Open(f.D.B)
	sym.Assert(err == nil, "does not open")
	sym.Assert(p.ObjectCount() == len(f.Now), "object count differs")
	got, err := p.GetObject(9 + n)
	sym.Assert(err == nil, "object at the end of a long table not found")
	sym.Assert(sym.EqB(lib.Body(9+n, got), f.Now[9+n].Body), "wrong Content")
	sym.Reach("big")
}

// HDirectLookup: the lookup used by the form code sees the newest revision as well.
func HDirectLookup() {
	sym.Bound("2 or 3 revisions as in HThree (op1 in update/move/compress), lookup by object number without an opened document")
	f := lib.NewFile(false)
	kinds := sym.Choice("kinds", 8)
	f.Base(kinds&1 != 0)
	f.Update([]int{0, 2, 4, 6}[sym.Choice("op1", 4)], kinds&2 != 0, 0)
	if sym.Choice("third", 2) == 1 {
		f.Update([]int{0, 2, 4, 6}[sym.Choice("op2", 4)], kinds&4 != 0, 1)
	} else if kinds&4 != 0 {
		return
	}
	for n := 2; n <= 5; n++ {
		c := f.Now[n]
		got, err := parse.GetObject(f.D.B, n, nil, false)
		sym.Assert(err == nil, "object not found")
		sym.Assert(sym.EqB(lib.Body(n, got), c.Body), "lookup does not return the newest revision")
		sym.Reach("lookup")
	}
}

// HPrevLoop: whatever /Prev says, opening terminates and the newest section still wins.
func HPrevLoop() {
	sym.Bound("/Prev of the newest section in 10 positions (own, previous, off by one, 0, end of file, beyond, overflowing), the older section's /Prev absent, itself, the newer one or beyond the file; tables and xref streams; arbitrary 2-letter Content")
	f := lib.NewFile(false)
	s := sym.Choice("stream", 2)
	f.Direct(1, []byte("<< /Type /Catalog >>"))
	f.Direct(2, []byte("<< /V 1 >>"))
	f.Put(lib.XE{Num: 0, T: 0, F2: 0, F3: 255})
	at1 := len(f.D.B)
	tr := "/Size 5 /Root 1 0 R"
	back := sym.Choice("back", 4)
	if back > 0 {
		tr += " /Prev 0000000999"
	}
	f.D.Entries(f.Cur, 7*s, tr)
	f.Cur = nil
	f.Direct(2, lib.VDict("u"))
	at2 := len(f.D.B)
	if back > 0 {
		i := lib.Index(string(f.D.B), "/Prev 0000000999")
		copy(f.D.B[i+6:], lib.Pad10([]int{0, at1, at2, 99999}[back]))
	}
	where := sym.Choice("where", 10)
	prev := lib.Itoa([]int{at2, at1, at1 + 1, at1 - 1, 0, at2 - 1, at2 + 60, at2 + 100000, 2000000000, 1}[where])
	if where == 8 {
		prev = "99999999999999999999999"
	}
	f.D.Entries(f.Cur, 8*s, "/Size 5 /Root 1 0 R /Prev "+prev)
	var p *parse.PDF
	var err error
	sym.Assert(!lib.Try(func() { p, err = parse.Open(f.D.B) }), "panic while following /Prev")
	sym.Assert(err == nil, "does not open")
	got, err := p.GetObject(2)
	sym.Assert(err == nil, "newest object lost")
	sym.Assert(sym.EqB(lib.Body(2, got), f.Now[2].Body), "newest definition lost")
	if where == 1 {
		sym.Assert(p.HasObject(1), "previous section not followed")
		sym.Reach("followed")
	} else if where == 0 {
		sym.Reach("self")
	}
}
