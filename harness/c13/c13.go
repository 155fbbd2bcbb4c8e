// Package c13: bookmarks written with SetBookmarks form a correct outline and read back.
package c13

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

func ascii(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

// text returns an arbitrary title of 0 to 2 ASCII bytes or with one other character.
func text(name string) string {
	k := sym.Choice(name+"kind", 6)
	if k < 3 {
		return ascii(name, k)
	}
	c := uint32(sym.Uint16(name + "r"))
	var r []byte
	switch k {
	case 3:
		sym.Assume(sym.And(c >= 0x80, c < 0x800))
		r = []byte{byte(0xC0 | c>>6), byte(0x80 | c&63)}
	case 4:
		sym.Assume(sym.And(c >= 0x800, sym.Or(c < 0xD800, c >= 0xE000)))
		r = []byte{byte(0xE0 | c>>12), byte(0x80 | c>>6&63), byte(0x80 | c&63)}
	case 5:
		c |= 0x10000
		r = []byte{byte(0xF0 | c>>18), byte(0x80 | c>>12&63), byte(0x80 | c>>6&63), byte(0x80 | c&63)}
	}
	return "(" + string(r) + ascii(name, 1)
}

// tree makes a tree of n nodes from choices; every node's title ends with an arbitrary letter.
func tree(n int) []types.Bookmark {
	depth := []int{0}
	for i := 1; i < n; i++ {
		depth = append(depth, sym.Choice("depth", depth[i-1]+2))
	}
	i := 0
	var build func(d int) []types.Bookmark
	build = func(d int) []types.Bookmark {
		var r []types.Bookmark
		for i < n && depth[i] == d {
			b := types.Bookmark{Title: "T" + string(lib.Upper("t"+lib.Itoa(i), 1))}
			i++
			b.Children = build(d + 1)
			r = append(r, b)
		}
		return r
	}
	return build(0)
}

// flat lists the bookmarks in preorder.
func flat(bs []types.Bookmark) []*types.Bookmark {
	var r []*types.Bookmark
	for i := range bs {
		r = append(r, &bs[i])
		r = append(r, flat(bs[i].Children)...)
	}
	return r
}

func read(pdf []byte) []types.Bookmark {
	p, err := parse.Open(pdf)
	sym.Assert(err == nil, "does not open")
	bs, err := extract.ExtractBookmarks(pdf, p, false)
	sym.Assert(err == nil, "bookmarks not extracted")
	return bs
}

// equal compares trees; get is what extraction gave.
func equal(get, want []types.Bookmark) {
	sym.Assert(len(get) == len(want), "number of bookmarks on a level differs")
	for i := range want {
		g, w := get[i], want[i]
		sym.Assert(sym.EqS(g.Title, w.Title), "title differs")
		sym.Assert(sym.EqS(g.URI, w.URI), "URI differs")
		sym.Assert(g.PageNumber == w.PageNumber, "page differs")
		if w.PageNumber == 0 {
			sym.Assert(sym.EqS(g.Destination, w.Destination), "destination differs")
		}
		equal(g.Children, w.Children)
	}
}

// items checks the links of the items on one level and returns the number of open items in it.
func items(s *lib.Strict, node *lib.Val, parent int, want []types.Bookmark) int {
	total, prev := 0, -1
	n := node.Get("First").Ref()
	for i := range want {
		v := s.Val(n)
		sym.Assert(v != nil && v.Get("Parent").Ref() == parent, "wrong or missing /Parent")
		if i > 0 {
			sym.Assert(v.Get("Prev").Ref() == prev, "wrong /Prev")
		} else {
			sym.Assert(v.Get("Prev") == nil, "first item has /Prev")
		}
		sym.Assert(v.Count("Title") == 1 && v.Count("Next") <= 1 && v.Get("Title").Kind == 's', "title missing")
		c := 0
		if len(want[i].Children) > 0 {
			c = items(s, v, n, want[i].Children)
			sym.Assert(v.Get("Count").Int() == c, "wrong /Count")
		} else {
			sym.Assert(v.Get("First") == nil && v.Get("Count") == nil, "leaf has children")
		}
		total += 1 + c
		prev = n
		n = v.Get("Next").Ref()
	}
	sym.Assert(n == -1 && node.Get("Last").Ref() == prev, "wrong /Next or /Last")
	return total
}

// HTree: every tree, written in every mode, has correct links and reads back.
func HTree() {
	n := 1 + sym.Choice("nodes", lib.Max(4, 6))
	sym.Bound("every tree of 1 to 4 (thorough 6) bookmarks, in tables, xref streams and object streams")
	want := tree(n)
	b := write.NewSimplePDFBuilder()
	mode := sym.Choice("mode", 3)
	b.Writer().UseXRefStream(mode == 1)
	b.Writer().UseObjectStream(mode == 2)
	for i := 0; i < 2; i++ {
		b.FinalizePage(b.AddPage(write.PageSizeA4))
	}
	for i, x := range flat(want) {
		x.PageNumber = i % 3
	}
	sym.Assert(b.SetBookmarks(want) == nil, "not set")
	out, err := b.Bytes()
	sym.Assert(err == nil, "not built")
	equal(read(out), want)
	if mode == 0 {
		s := lib.ReadTable(out)
		sym.Assert(s != nil, "file malformed")
		cat := s.Val(s.Trailer.Get("Root").Ref())
		o := cat.Get("Outlines").Ref()
		root := s.Val(o)
		sym.Assert(root != nil && root.Get("Type").Is("Outlines"), "no outlines")
		sym.Assert(items(s, root, o, want) == n && root.Get("Count").Int() == n, "wrong /Count of the outlines")
	}
	sym.Reach("tree")
}

// HItem: every title and destination.
func HItem() {
	sym.Bound("titles of 0 to 2 ASCII bytes or with an arbitrary character of plane 0 or 1 after a parenthesis; destinations: page, missing page, named by 1 to 2 ASCII bytes, literal array, URI of 1 to 3 ASCII bytes, page and URI; on the first, middle or last of three nested or sibling items")
	at := sym.Choice("at", 3)
	dest := sym.Choice("dest", 6)
	var it types.Bookmark
	if dest < 2 {
		it.Title = text("t")
	} else {
		it.Title = "/Title)x R"
	}
	b := write.NewSimplePDFBuilder()
	for i := 0; i < 3; i++ {
		b.FinalizePage(b.AddPage(write.PageSizeA4))
	}
	switch dest {
	case 1:
		it.PageNumber = 1 + sym.Choice("page", 3)
	case 2:
		it.Destination = ascii("d", 1+sym.Choice("n", 2))
		sym.Assume(sym.And(it.Destination[0] != '[', it.Destination[0] != '/', it.Destination[0] != '(', it.Destination[0] != '<'))
	case 3:
		it.Destination = "[" + lib.Itoa(b.Pages()[2]) + " 0 R /FitH 20]"
	case 4:
		it.URI = ascii("u", 1+sym.Choice("n", 3))
	case 5:
		it.URI = "http://x/(a)?b=\\c"
		it.Title = "R"
	}
	it.Children = nil
	other := func(t string) types.Bookmark { return types.Bookmark{Title: t, PageNumber: 2} }
	var bs []types.Bookmark
	switch at {
	case 0:
		bs = []types.Bookmark{it, other("B"), other("C")}
	case 1:
		a := other("A")
		a.Children = []types.Bookmark{it, other("C")}
		bs = []types.Bookmark{a}
	case 2:
		it.Children = []types.Bookmark{other("B"), other("C")}
		bs = []types.Bookmark{other("A"), it}
	}
	sym.Assert(b.SetBookmarks(bs) == nil, "not set")
	out, err := b.Bytes()
	sym.Assert(err == nil, "not built")
	if dest == 3 {
		for _, x := range flat(bs) {
			if x.Destination != "" {
				x.PageNumber = 3
			}
		}
	}
	equal(read(out), bs)
	sym.Reach("item")
}

// HCatalog: adding an outline keeps everything else in the catalog.
func HCatalog() {
	sym.Bound("catalogs with nested dictionaries, strings, arrays, names and /Outlines of their own, in four orders, made with AddObject or SetObject before or after the bookmarks")
	val := []string{"<</Outlines(x)/A[<<>>]>>", "(/Outlines >> 1 0 R)", "[/Outlines null]", "/Outlines", "<2F4F>", "null", "true", "9 0 R"}[sym.Choice("val", 8)]
	x := string(lib.Upper("x", 1))
	cats := []string{
		"<</Type/Catalog/Pages 2 0 R/Extra " + val + "/Lang(" + x + ")>>",
		"<< /Extra " + val + "\n/Lang (" + x + ") /Pages 2 0 R /Type /Catalog >>",
		"<< /Outlines 77 0 R /Lang <" + lib.Hex([]byte(x))[1:] + " /Type /Catalog /Extra " + val + " /Pages 2 0 R>>",
		"<</Lang(" + x + ")/Extra" + " " + val + "/Outlines null /Type/Catalog/Pages 2 0 R>>",
	}
	cat := cats[sym.Choice("cat", len(cats))]
	w := write.NewPDFWriter()
	late := sym.Choice("late", 2) == 1
	if !late {
		w.SetObject(1, []byte(cat))
	}
	w.SetObject(2, []byte("<</Type/Pages/Kids[3 0 R]/Count 1>>"))
	w.SetObject(3, []byte("<</Type/Page/Parent 2 0 R/MediaBox[0 0 10 10]>>"))
	want := []types.Bookmark{{Title: "A", PageNumber: 1, Children: []types.Bookmark{{Title: "B"}}}}
	o, err := w.SetBookmarks(want, map[int]int{1: 3})
	sym.Assert(err == nil && o > 0, "not set")
	if late {
		w.SetObject(1, []byte(cat))
	}
	w.SetRoot(1)
	out, err := w.Bytes()
	sym.Assert(err == nil, "not built")
	s := lib.ReadTable(out)
	sym.Assert(s != nil, "file malformed")
	v, exp := s.Val(1), lib.ParseAll([]byte(cat))
	sym.Assert(v.Get("Outlines").Ref() == o && v.Count("Outlines") == 1, "catalog without the outlines")
	n := 0
	for i, k := range exp.Keys {
		if k == "Outlines" {
			continue
		}
		n++
		sym.Assert(v.Count(k) == 1 && same(v.Get(k), exp.Vals[i]), "catalog entry changed")
	}
	sym.Assert(len(v.Keys) == n+1, "catalog entries appeared")
	equal(read(out), want)
	sym.Reach("catalog")
}

func same(a, b *lib.Val) bool {
	if a == nil || b == nil || a.Kind != b.Kind || len(a.Vals) != len(b.Vals) || a.Num != b.Num || !sym.EqB(a.S, b.S) {
		return false
	}
	for i := range a.Vals {
		if !same(a.Vals[i], b.Vals[i]) || a.Kind == 'd' && a.Keys[i] != b.Keys[i] {
			return false
		}
	}
	return true
}

// HForeign: outlines of other producers.
func HForeign() {
	sym.Bound("outlines of three items with titles of 0 to 2 ASCII bytes as literal or hexadecimal strings; destinations as array, name, string, GoTo action (in the item or an object of its own) or URI action; closed items; comments and white space; next and first links to any item or to a missing object (with titles below 2 bytes)")
	t := []byte(ascii("t", sym.Choice("n", 3)))
	how := sym.Choice("how", 4)
	title := lib.Hex(t)
	if how < 3 {
		title = lib.Lit(t, how)
	}
	var want types.Bookmark
	want.Title = string(t)
	var dest string
	switch sym.Choice("dest", 8) {
	case 0:
		dest = "/Dest[4 0 R/Fit]"
		want.PageNumber = 2
	case 1:
		dest = "/Dest /Chap1"
		want.Destination = "/Chap1"
	case 2:
		dest = "/Dest (a\\)b)"
		want.Destination = "a)b"
	case 3:
		dest = "/A<</S/GoTo/D[ 3 0 R /XYZ null null 0]>>"
		want.PageNumber = 1
	case 4:
		dest = "/A 9 0 R"
		want.PageNumber = 2
	case 5:
		dest = "/A<</S/URI/URI(http://a/\\(b\\))>>"
		want.URI = "http://a/(b)"
	case 6:
		dest = "/A\n10 0 R % x\n"
		want.URI = "u"
	case 7:
		dest = "/C[1 0 0]/F 2/SE 3 0 R"
	}
	d := lib.NewDoc("1.4")
	d.Obj(1, "<</Type/Catalog/Outlines 5 0 R/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[3 0 R 4 0 R]/Count 2>>")
	d.Obj(3, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 10 10]>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 10 10]>>")
	d.Obj(5, "<</Type/Outlines/First 6 0 R/Last 7 0 R/Count 2>>")
	link := func(name string) (string, int) {
		k := 0
		if how == 0 && len(t) < 2 {
			k = sym.Choice(name, 5)
		}
		if k == 0 {
			return "", 0
		}
		return "/" + name + " " + []string{"6 0 R", "7 0 R", "8 0 R", "99 0 R"}[k-1], []int{6, 7, 8, 99}[k-1]
	}
	// item 6 has the arbitrary content; links from 6, 7 and 8 are arbitrary
	next6, n6 := link("Next")
	first6, f6 := link("First")
	d.Obj(6, "<</Title"+title+"/Count -1"+dest+next6+first6+"/Parent 5 0 R>>")
	next7, n7 := "", 0
	if how == 0 && len(t) < 2 && sym.Choice("back", 2) == 1 {
		next7, n7 = "/Next 6 0 R", 6
	}
	d.Obj(7, "<</Parent 5 0 R\n/Title % /Title (no)\n(B)"+next7+">>")
	d.Obj(8, "<</Title(C)/Parent 6 0 R/First 8 0 R>>")
	d.Obj(9, "<< /Type /Action /S /GoTo /D [4 0 R /Fit] >>")
	d.Obj(10, "<< /S /URI /URI (u) >>")
	d.Table([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, "/Root 1 0 R")
	bs := read(d.B)
	// reference: depth first
	seen := map[int]bool{99: true, 0: true}
	cyclic := false
	var list func(n int) []types.Bookmark
	list = func(n int) []types.Bookmark {
		var r []types.Bookmark
		if seen[n] {
			cyclic = cyclic || n != 0 && n != 99
			return nil
		}
		seen[n] = true
		switch n {
		case 6:
			x := want
			x.Children = list(f6)
			return append(append(r, x), list(n6)...)
		case 7:
			return append(append(r, types.Bookmark{Title: "B"}), list(n7)...)
		}
		return append(r, types.Bookmark{Title: "C"})
	}
	exp := list(6)
	if cyclic {
		// the outline is malformed: it is enough that extraction returns
		sym.Reach("cyclic")
		return
	}
	equal(bs, exp)
	sym.Reach("foreign")
}
