// Package c15: comparing documents reports what differs, and nothing else.
package c15

import (
	"strings"

	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/lib"
	"verif/harness/sym"
)

type text struct {
	b          []byte
	x, y       int
	font, size int
}

type box struct{ x, y, w, h int }

type annot struct {
	box
	contents, uri []byte
}

type page struct {
	w, h, rot int
	texts     []text
	rects     []box
	color     string
	images    []box
	imageName string
	annots    []annot
}

// doc is what the compared files show.
type doc struct {
	pages []page
	info  []string // key, value, ...
	marks [][]byte
	form  [][]byte // name, value, ...
	image []byte   // data of the 2x1 gray image
	gray  string
}

func (d doc) copy() doc {
	ps := append([]page{}, d.pages...)
	for i := range ps {
		ps[i].texts = append([]text{}, ps[i].texts...)
		ps[i].rects = append([]box{}, ps[i].rects...)
		ps[i].images = append([]box{}, ps[i].images...)
		ps[i].annots = append([]annot{}, ps[i].annots...)
	}
	d.pages = ps
	d.info = append([]string{}, d.info...)
	d.marks = append([][]byte{}, d.marks...)
	d.form = append([][]byte{}, d.form...)
	return d
}

func (b box) str() string {
	return lib.Itoa(b.x) + " " + lib.Itoa(b.y) + " " + lib.Itoa(b.w) + " " + lib.Itoa(b.h)
}

func (b box) rect() string {
	return "[" + lib.Itoa(b.x) + " " + lib.Itoa(b.y) + " " + lib.Itoa(b.x+b.w) + " " + lib.Itoa(b.y+b.h) + "]"
}

func lit(b []byte, style int) string {
	if style == 1 {
		return lib.Hex(b)
	}
	if style == 2 {
		return "(" + string(b) + ")"
	}
	return lib.Lit(b, 0)
}

// file writes the document. The styles differ in object numbers, string syntax and stream encoding.
func (d doc) file(style int) []byte {
	f := lib.NewDoc("1.5")
	var nums []int
	last := 0
	id := func() int {
		last++
		n := last
		if style == 1 {
			n = 61 - last
		}
		nums = append(nums, n)
		return n
	}
	ref := func(n int) string { return lib.Itoa(n) + " 0 R" }
	cat, tree, f1, f2 := id(), id(), id(), id()
	f.Obj(f1, "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
	f.Obj(f2, "<< /Type /Font /Subtype /Type1 /BaseFont /Courier >>")
	im := id()
	if style == 1 {
		f.Stream(im, "/Type /XObject /Subtype /Image /Width 2 /Height 1 /ColorSpace /DeviceGray /BitsPerComponent 8 /Filter /FlateDecode", lib.Zlib(d.image))
	} else {
		f.Stream(im, "/Type /XObject /Subtype /Image /Width 2 /Height 1 /ColorSpace /DeviceGray /BitsPerComponent 8 /Filter [/FlateDecode]", lib.Zlib(d.image))
	}
	kids := ""
	first := 0
	for _, p := range d.pages {
		c := ""
		if p.color != "" {
			c = p.color + " rg "
		}
		for _, r := range p.rects {
			c += r.str() + " re f\n"
		}
		for _, t := range p.texts {
			c += "BT /F" + lib.Itoa(1+t.font) + " " + lib.Itoa(t.size) + " Tf " + lib.Itoa(t.x) + " " + lib.Itoa(t.y) + " Td " + lit(t.b, style) + " Tj ET\n"
		}
		for _, m := range p.images {
			c += "q " + lib.Itoa(m.w) + " 0 0 " + lib.Itoa(m.h) + " " + lib.Itoa(m.x) + " " + lib.Itoa(m.y) + " cm /" + p.imageName + " Do Q\n"
		}
		cn, pn := id(), id()
		if first == 0 {
			first = pn
		}
		if style == 1 {
			f.Stream(cn, "/Filter /FlateDecode", lib.Zlib([]byte(c)))
		} else {
			f.Stream(cn, "", []byte(c))
		}
		an := ""
		for _, a := range p.annots {
			n := id()
			s := "<< /Type /Annot /Subtype /Link /Rect " + a.rect() + " /Contents " + lit(a.contents, style)
			if a.uri != nil {
				s += " /A << /S /URI /URI " + lit(a.uri, style) + " >>"
			}
			f.Obj(n, s+" >>")
			an += ref(n) + " "
		}
		s := "<< /Type /Page /Parent " + ref(tree) + " /MediaBox [0 0 " + lib.Itoa(p.w) + " " + lib.Itoa(p.h) + "] /Contents " + ref(cn)
		if p.rot != 0 {
			s += " /Rotate " + lib.Itoa(p.rot)
		}
		if an != "" {
			s += " /Annots [" + an + "]"
		}
		s += " /Resources << /Font << /F1 " + ref(f1) + " /F2 " + ref(f2) + " >>"
		if p.imageName != "" {
			s += " /XObject << /" + p.imageName + " " + ref(im) + " >>"
		}
		f.Obj(pn, s+" >> >>")
		kids += ref(pn) + " "
	}
	f.Obj(tree, "<< /Type /Pages /Kids ["+kids+"] /Count "+lib.Itoa(len(d.pages))+" >>")
	root := "<< /Type /Catalog /Pages " + ref(tree)
	if len(d.marks) > 0 {
		o := id()
		var ns []int
		for range d.marks {
			ns = append(ns, id())
		}
		for i, m := range d.marks {
			s := "<< /Title " + lit(m, style) + " /Parent " + ref(o) + " /Dest [" + ref(first) + " /Fit]"
			if i > 0 {
				s += " /Prev " + ref(ns[i-1])
			}
			if i+1 < len(ns) {
				s += " /Next " + ref(ns[i+1])
			}
			f.Obj(ns[i], s+" >>")
		}
		f.Obj(o, "<< /Type /Outlines /First "+ref(ns[0])+" /Last "+ref(ns[len(ns)-1])+" /Count "+lib.Itoa(len(ns))+" >>")
		root += " /Outlines " + ref(o)
	}
	if len(d.form) > 0 {
		fs := ""
		for i := 0; i < len(d.form); i += 2 {
			n := id()
			f.Obj(n, "<< /FT /Tx /T "+lit(d.form[i], style)+" /V "+lit(d.form[i+1], style)+" >>")
			fs += ref(n) + " "
		}
		a := id()
		f.Obj(a, "<< /Fields ["+fs+"] >>")
		root += " /AcroForm " + ref(a)
	}
	f.Obj(cat, root+" >>")
	in := id()
	s := "<<"
	for i := 0; i < len(d.info); i += 2 {
		s += " /" + d.info[i] + " " + lit([]byte(d.info[i+1]), style)
	}
	f.Obj(in, s+" >>")
	f.Table(nums, "/Root "+ref(cat)+" /Info "+ref(in))
	return f.B
}

// base is a document with two of everything, duplicates included.
func base() doc {
	link := annot{box{1, 2, 30, 40}, []byte("NOTE"), []byte("http://a.b")}
	return doc{
		pages: []page{
			{w: 200, h: 300, texts: []text{{[]byte("Abc"), 10, 200, 0, 12}, {[]byte("Abc"), 10, 200, 0, 12}, {[]byte("d e"), 10, 100, 1, 9}},
				rects: []box{{1, 2, 30, 40}, {1, 2, 30, 40}, {50, 60, 7, 8}}, color: "1 0 0",
				images: []box{{5, 6, 20, 10}, {5, 6, 20, 10}, {90, 60, 20, 10}}, imageName: "Im1",
				annots: []annot{link, link}},
			{w: 300, h: 200, rot: 90, texts: []text{{[]byte("second page"), 20, 20, 0, 12}}, images: []box{{5, 6, 20, 10}}, imageName: "Im1"},
		},
		info:  []string{"Title", "T", "Author", "A", "Subject", "S", "Keywords", "K", "Creator", "C", "Producer", "P", "CreationDate", "D:20200101000000Z", "ModDate", "D:20200102000000Z"},
		marks: [][]byte{[]byte("ONE"), []byte("TWO")},
		form:  [][]byte{[]byte("name"), []byte("VALUE"), []byte("other"), []byte("X")},
		image: []byte{7, 9},
	}
}

func options() compare.CompareOptions {
	o := compare.DefaultCompareOptions()
	switch sym.Choice("tolerance", 3) {
	case 1:
		o.TextTolerance, o.GraphicTolerance = 0, 0
	case 2:
		o = compare.CompareOptions{}
		o.IgnoreMetadata = true
	}
	modes(&o)
	return o
}

func modes(o *compare.CompareOptions) {
	o.TextGranularity = []compare.TextGranularity{"", compare.GranularityElement, compare.GranularityWord, compare.GranularityChar}[sym.Choice("granularity", 4)]
	switch sym.Choice("mode", 5) {
	case 1:
		o.DetectMoves = true
		o.DiffSensitivity = compare.SensitivityStrict
	case 2:
		o.IgnoreCase = true
	case 3:
		o.IgnoreWhitespace = true
	case 4:
		o.IgnoreCase, o.IgnoreWhitespace, o.DetectMoves = true, true, true
		o.DiffSensitivity = compare.SensitivityNormal
	}
}

func run(a, b []byte, o compare.CompareOptions) *compare.ComparisonResult {
	r, err := compare.ComparePDFsWithOptions(a, b, nil, nil, o)
	sym.Assert(err == nil && r != nil, "comparison fails")
	sym.Assert(r.Identical == (r.Summary.TotalDifferences == 0), "Identical and the number of differences disagree")
	rep := compare.GenerateReport(r)
	sym.Assert(strings.Contains(rep, "IDENTICAL") == r.Identical, "report says otherwise")
	return r
}

func nothing(r *compare.ComparisonResult) {
	sym.Assert(r.Identical, "same content, not identical")
	sym.Assert(len(r.Differences) == 0 && len(r.PageDiffs) == 0 && r.MetadataDiff == nil && r.StructureDiff == nil && r.FormDiff == nil, "identical with differences")
	s := r.Summary
	sym.Assert(!s.MetadataChanged && !s.PagesChanged && !s.StructureChanged && !s.ContentChanged, "identical with changes in the summary")
}

// HSelf: a document against itself, and against the same content written differently.
func HSelf() {
	sym.Bound("a two-page document with duplicate texts, rectangles, images, links, bookmarks, form values and every Info entry; 2 text bytes, 1 image byte and 1 form value byte arbitrary (ASCII letters); 60 option sets; compared with itself and with the same content in other object numbers, string syntax and stream encodings")
	d := base()
	d.pages[0].texts[2].b = lib.Upper("t", 2)
	d.form[1] = lib.Upper("v", 1)
	d.image[0] = sym.Byte("i")
	o := options()
	a, b := 0, 0
	switch sym.Choice("styles", 3) {
	case 1:
		a, b = 1, 1
	case 2:
		b = 1
	}
	nothing(run(d.file(a), d.file(b), o))
	sym.Reach("self")
}

// HChange: one aspect with an old and a new value: identical exactly if they are equal.
func HChange() {
	sym.Bound("the same document with one of 24 aspects changed, its old and new value differing in one arbitrary byte or being concretely different; default and zero tolerances")
	d := base()
	d.pages[0].texts = append([]text{}, d.pages[0].texts...)
	e := d.copy()
	x, y := lib.Upper("x", 1), lib.Upper("y", 1)
	same := sym.EqB(x, y)
	w := sym.Choice("aspect", 24)
	o := compare.DefaultCompareOptions()
	o.IgnoreProducer, o.IgnoreDates = false, false
	if sym.Choice("tolerance", 2) == 1 {
		o.TextTolerance, o.GraphicTolerance = 0, 0
	}
	pageNo, where := 0, ""
	q := &e.pages[0]
	switch {
	case w < 6: // Title ... Producer
		d.info[2*w+1], e.info[2*w+1] = "v"+string(x), "v"+string(y)
		where = d.info[2*w]
	case w == 6:
		d.marks[1], e.marks[1] = x, y
	case w == 7:
		d.form[1], e.form[1] = x, y
		where = "form"
	case w == 8:
		d.pages[0].texts[2].b, q.texts[2].b = x, y
		pageNo = 1
	case w == 9:
		d.pages[0].annots[1].contents, q.annots[1].contents = x, y
		pageNo = 1
	case w == 10:
		d.pages[0].annots[1].uri, q.annots[1].uri = append([]byte("http://"), x...), append([]byte("http://"), y...)
		pageNo = 1
	case w == 11:
		d.image, e.image = []byte{x[0], 0}, []byte{y[0], 0}
		pageNo = 1
	case w == 12:
		d.pages[1].texts[0].b, e.pages[1].texts[0].b = x, y
		pageNo = 2
	default:
		same = false
		pageNo = 1
		switch w {
		case 13:
			q.rot = 180
		case 14:
			q.w = 201
		case 15:
			e.pages = e.pages[:1]
			pageNo = 2
		case 16:
			q.texts[2].font = 0
		case 17:
			q.texts[2].size = 10
		case 18:
			q.texts[2].x += 6
		case 19:
			q.texts = q.texts[:2]
		case 20:
			q.rects = q.rects[:1]
		case 21:
			q.color = "0 1 0"
		case 22:
			q.images[2].w = 30
		case 23:
			q.annots = q.annots[:1]
		}
	}
	swap := sym.Choice("swap", 2) == 1
	if swap {
		d, e = e, d
	}
	r := run(d.file(0), e.file(0), o)
	if same {
		nothing(r)
		sym.Reach("equal")
		return
	}
	sym.Assert(!r.Identical, "a difference was not found")
	m := r.MetadataDiff
	if w < 6 {
		sym.Assert(m != nil, "metadata difference missing")
		fd := []*compare.FieldDiff{m.Title, m.Author, m.Subject, m.Keywords, m.Creator, m.Producer}[w]
		sym.Assert(fd != nil, "difference of "+where+" missing")
		sym.Assert(sym.EqS(fd.OldValue.(string), d.info[2*w+1]) && sym.EqS(fd.NewValue.(string), e.info[2*w+1]), "old and new value of "+where+" differ")
		n := 0
		for _, x := range []*compare.FieldDiff{m.Title, m.Author, m.Subject, m.Keywords, m.Creator, m.Producer, m.CreationDate, m.ModDate, m.PDFVersion, m.PageCount, m.Encrypted} {
			if x != nil {
				n++
			}
		}
		sym.Assert(n == 1, "other metadata reported")
	} else {
		sym.Assert(m == nil || w == 15, "metadata reported")
	}
	if where == "form" {
		sym.Assert(r.FormDiff != nil && len(r.FormDiff.Modified) == 1 && len(r.FormDiff.Added) == 0 && len(r.FormDiff.Removed) == 0, "form difference wrong")
		c := r.FormDiff.Modified[0]
		sym.Assert(c.FieldName == "name" && sym.EqS(c.OldValue.(string), string(d.form[1])) && sym.EqS(c.NewValue.(string), string(e.form[1])), "form value difference wrong")
	} else {
		sym.Assert(r.FormDiff == nil, "form reported")
	}
	if w == 11 { // the image is on both pages
		sym.Assert(len(r.PageDiffs) == 2, "image difference missing on a page")
	} else if pageNo == 0 {
		sym.Assert(len(r.PageDiffs) == 0, "pages reported")
	} else {
		sym.Assert(len(r.PageDiffs) == 1 && r.PageDiffs[0].PageNumber == pageNo, "page of the difference wrong")
	}
	sym.Reach("different")
}

// fold is the text as the options see it.
func fold(b []byte, o compare.CompareOptions) []byte {
	var out []byte
	for _, c := range b {
		if o.IgnoreWhitespace && c == ' ' {
			continue
		}
		if o.IgnoreCase {
			c = sym.IteByte(c >= 'A' && c <= 'Z', c+32, c)
		}
		out = append(out, c)
	}
	return out
}

func near(a, b text, tol int) bool {
	dx, dy := a.x-b.x, a.y-b.y
	return dx <= tol && -dx <= tol && dy <= tol && -dy <= tol
}

// HText: identical exactly if the texts of the two pages can be paired up.
func HText() {
	sym.Bound("pages with 0 to 2 texts of an arbitrary ASCII letter (and a second letter or space where white space is ignored) in 12 arrangements of equal, near and far positions, fonts and sizes; 20 option sets and tolerance 5 or 0 for single texts, 2 for more")
	cases := [][2][]text{
		{{{nil, 10, 200, 0, 12}}, {{nil, 10, 200, 0, 12}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 14, 204, 0, 12}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 15, 200, 0, 12}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 10, 206, 0, 12}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 10, 200, 1, 12}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 10, 200, 0, 13}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 90, 20, 0, 12}}},
		{{}, {{nil, 10, 200, 0, 12}}},
		{{{nil, 10, 200, 0, 12}}, {{nil, 10, 200, 0, 12}, {nil, 10, 200, 0, 12}}},
		{{{nil, 10, 200, 0, 12}, {nil, 10, 100, 0, 12}}, {{nil, 10, 200, 0, 12}, {nil, 10, 100, 0, 12}}},
		{{{nil, 10, 200, 0, 12}, {nil, 10, 100, 0, 12}}, {{nil, 10, 100, 0, 12}, {nil, 10, 200, 0, 12}}},
		{{{nil, 10, 200, 0, 12}, {nil, 10, 200, 0, 12}}, {{nil, 10, 200, 0, 12}, {nil, 10, 200, 0, 12}}},
	}
	c := cases[sym.Choice("case", len(cases))]
	o := compare.DefaultCompareOptions()
	switch len(c[0]) + len(c[1]) {
	case 1, 2:
		modes(&o)
		if sym.Choice("tolerance", 2) == 1 {
			o.TextTolerance = 0
		}
	default:
		o.DetectMoves = true
		o.TextGranularity = []compare.TextGranularity{compare.GranularityElement, compare.GranularityWord}[sym.Choice("granularity", 2)]
	}
	tol := int(o.TextTolerance)
	n := 1
	if o.IgnoreWhitespace && !o.IgnoreCase && len(c[0])+len(c[1]) == 2 {
		n = 2
	}
	var ds [2]doc
	for i := range ds {
		d := doc{pages: []page{{w: 200, h: 300}}, image: []byte{1, 2}}
		for j, t := range c[i] {
			t.b = sym.Bytes("t"+lib.Itoa(i)+lib.Itoa(j), n)
			for k, ch := range t.b {
				sym.Assume(sym.Or(sym.And(ch >= 'A', ch <= 'Z'), sym.And(ch >= 'a', ch <= 'z')))
				if k > 0 && o.IgnoreWhitespace && sym.Choice("space"+lib.Itoa(i), 2) == 1 {
					t.b[k] = ' '
				}
			}
			d.pages[0].texts = append(d.pages[0].texts, t)
		}
		ds[i] = d
	}
	p, q := ds[0].pages[0].texts, ds[1].pages[0].texts
	eq := func(i, j int) bool {
		return sym.And(near(p[i], q[j], tol) && p[i].font == q[j].font && p[i].size == q[j].size, sym.EqB(fold(p[i].b, o), fold(q[j].b, o)))
	}
	want := false
	if len(p) == len(q) {
		switch len(p) {
		case 1:
			want = eq(0, 0)
		case 2:
			want = sym.Or(sym.And(eq(0, 0), eq(1, 1)), sym.And(eq(0, 1), eq(1, 0)))
		}
	}
	r := run(ds[0].file(2), ds[1].file(2), o)
	sym.Assert(r.Identical == want, "identical differs from the texts")
	if !r.Identical {
		sym.Assert(len(r.PageDiffs) == 1 && r.PageDiffs[0].TextDiff != nil, "text difference missing")
		t := r.PageDiffs[0].TextDiff
		sym.Assert(len(p)-len(t.Removed) == len(q)-len(t.Added), "texts unaccounted for")
		sym.Assert(len(t.Removed)+len(t.Modified) <= len(p) && len(t.Added)+len(t.Modified) <= len(q), "more changes than texts")
		b := run(ds[1].file(2), ds[0].file(2), o)
		sym.Assert(!b.Identical, "not symmetric")
		u := b.PageDiffs[0].TextDiff
		sym.Assert(len(t.Added) == len(u.Removed) && len(t.Removed) == len(u.Added) && len(t.Modified) == len(u.Modified), "swapping does not swap added and removed")
		sym.Reach("different")
	} else {
		sym.Reach("equal")
	}
}

// HImages: images that share their name on different pages, in plain and encrypted documents.
func HImages() {
	sym.RandConcrete()
	sym.Bound("two pages whose image /Im1 is a different object on each, 1 arbitrary byte of the second changed; plain and encrypted (RC4 128) documents")
	x, y := sym.Byte("x"), sym.Byte("y")
	enc := sym.Choice("encrypted", 2) == 1
	mk := func(b byte) []byte {
		w := write.NewPDFWriter()
		w.SetVersion("1.5")
		tree := w.NextObjectNumber() + 6
		kids := ""
		for i, data := range [][]byte{{1, 2}, {3, b}} {
			im := w.AddStreamObject(write.Dictionary{"/Type": "/XObject", "/Subtype": "/Image", "/Width": 2, "/Height": 1, "/ColorSpace": "/DeviceGray", "/BitsPerComponent": 8}, data, false)
			c := w.AddStreamObject(write.Dictionary{}, []byte("q 20 0 0 10 5 6 cm /Im1 Do Q"), false)
			p := w.AddObject([]byte("<< /Type /Page /Parent " + lib.Itoa(tree) + " 0 R /MediaBox [0 0 10 10] /Contents " + lib.Itoa(c) + " 0 R /Resources << /XObject << /Im1 " + lib.Itoa(im) + " 0 R >> >> >>"))
			kids += lib.Itoa(p) + " 0 R "
			_ = i
		}
		w.SetObject(tree, []byte("<< /Type /Pages /Kids ["+kids+"] /Count 2 >>"))
		root := w.AddObject([]byte("<< /Type /Catalog /Pages " + lib.Itoa(tree) + " 0 R >>"))
		w.SetRoot(root)
		if enc {
			_, err := w.SetupEncryptionWithPasswords([]byte("user"), []byte("owner"), -4, true)
			sym.Assert(err == nil, "encryption setup fails")
		}
		out, err := w.Bytes()
		sym.Assert(err == nil, "not written")
		if enc {
			lib.Calm(out)
		}
		return out
	}
	var pw []byte
	if enc {
		pw = []byte("user")
	}
	r, err := compare.ComparePDFsWithOptions(mk(x), mk(y), pw, pw, compare.DefaultCompareOptions())
	sym.Assert(err == nil, "comparison fails")
	sym.Assert(r.Identical == (x == y), "identical differs from the images")
	if !r.Identical {
		sym.Assert(len(r.PageDiffs) == 1 && r.PageDiffs[0].PageNumber == 2, "page of the image wrong")
		sym.Reach("different")
	} else {
		sym.Reach("equal")
	}
}
