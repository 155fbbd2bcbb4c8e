// Package c14: page operations (rotate, delete, insert, extract, split, merge) do exactly what they say.
package c14

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/lib"
	"verif/harness/sym"
)

// page is what the model knows of a page.
type page struct {
	text []byte // shown on the page, unique
	rot  int    // effective rotation
	box  []byte // the last two numbers of the effective MediaBox
}

// source is a document and the model of it.
type source struct {
	pdf     []byte
	pages   []page
	n       int    // highest object number
	info    []byte // title in the Info dictionary
	form    []byte // data of the XObject stream
	num     []int  // object numbers of the pages
	content int    // content stream of the first page
}

// noise is a private entry that text searches would take for the page's own entries.
const noise = "/PieceInfo << /Count 77 /Kids [ 77 0 R ] /Rotate 45 /Parent 77 0 R /Type /Other /Note (9 0 R /Rotate 5 >>) >> "

// shapes are page trees: letters are pages, brackets inner nodes.
var shapes = []string{"(aaa)", "((aa)a)", "(a(aa))", "((a)(a)a)", "(((a)a)a)", "(a((a)(a)))", "((aaa))", "(a)", "(aa)"}

// make builds a document with the given page tree. k distinguishes the texts of several documents,
// style selects numbering, spelling and where attributes are inherited from.
func build(k string, shape string, style int) *source {
	s := &source{}
	d := lib.NewDoc("1.6")
	next := 4
	if style&1 == 1 {
		next = 11
	}
	ids := map[int]int{} // object numbers in order of use, descending in pairs so that files are out of order
	alloc := func() int {
		i := len(ids)
		n := next + (i ^ 1)
		ids[i] = n
		if n > s.n {
			s.n = n
		}
		return n
	}
	type obj struct {
		n    int
		body string
	}
	var objs []obj
	gen := map[int]int{}
	ref := func(n int) string { return lib.Itoa(n) + " " + lib.Itoa(gen[n]) + " R" }
	s.form = append([]byte("q 1 0 R (2 0 R) "), lib.Upper(k+"f", 2)...)
	s.info = lib.Upper(k+"i", 2)
	font, form, annot := alloc(), alloc(), alloc()
	i := 0
	var node func(parent, rot int, box []byte) (int, int)
	node = func(parent, rot int, box []byte) (int, int) {
		n := alloc()
		c := shape[i]
		i++
		attrs := ""
		if parent != 0 {
			attrs = "/Parent " + ref(parent) + " "
		}
		if c == 'a' {
			if style&1 == 1 && len(s.pages) == 1 {
				gen[n] = 3
			}
			idx := lib.Itoa(len(s.pages))
			p := page{text: append([]byte(k+idx), lib.Upper(k+"t"+idx, 2)...), rot: rot, box: box}
			if style&2 == 2 && len(s.pages)%2 == 0 {
				p.rot = []int{-270, 270}[len(s.pages)/2%2]
				attrs += "/Rotate " + lib.Itoa(p.rot) + " "
			}
			if style&2 == 2 || len(s.pages) == 1 {
				p.box = []byte("3" + idx + " 400")
				attrs += "/MediaBox [ 0 0 " + string(p.box) + " ] "
			}
			if style&4 == 4 {
				attrs = noise + attrs
			}
			content := alloc()
			s.num = append(s.num, n)
			if s.content == 0 {
				s.content = content
			}
			s.pages = append(s.pages, p)
			objs = append(objs, obj{content, "<< /Length " + lib.Itoa(len(p.text)+20) + " >>\nstream\nBT /F1 9 Tf (" + string(p.text) + ") Tj ET\nendstream"})
			if style&1 == 1 {
				attrs = "/Annots [ " + ref(annot) + " ] " + attrs
			}
			objs = append(objs, obj{n, "<< /Type /Page /Contents " + ref(content) + " " + attrs + ">>"})
			return n, 1
		}
		if parent == 0 {
			box = []byte("200 300")
			attrs += "/MediaBox [ 0 0 200 300 ] /Resources << /Font << /F1 " + ref(font) + " >> /XObject << /X " + ref(form) + " >> >> "
			if style&1 == 1 {
				rot = 180
				attrs += "/Rotate 180 "
			}
		} else if style&2 == 2 {
			rot = 90
			attrs += "/Rotate 90 "
		}
		kids, count := "", 0
		for shape[i] != ')' {
			kid, c := node(n, rot, box)
			kids += ref(kid) + " "
			count += c
		}
		i++
		if style&4 == 4 {
			attrs = noise + attrs
		}
		objs = append(objs, obj{n, "<< /Type /Pages " + attrs + "/Count " + lib.Itoa(count) + " /Kids [ " + kids + "] >>"})
		return n, count
	}
	root, _ := node(0, 0, nil)
	for len(ids)%2 == 1 { // the highest number is used
		alloc()
	}
	objs = append(objs, obj{font, "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>"})
	objs = append(objs, obj{form, "<< /Type /XObject /Subtype /Form /BBox [ 0 0 1 1 ] /Length " + lib.Itoa(len(s.form)) + " >>\nstream\n" + string(s.form) + "\nendstream"})
	objs = append(objs, obj{annot, "<< /Type /Annot /Subtype /Link /P " + ref(s.num[0]) + " /Dest [ " + ref(s.num[len(s.num)-1]) + " /Fit ] /Contents (8 0 R) >>"})
	objs = append(objs, obj{1, "<< /Type /Catalog /Lang (" + k + ") /Pages " + ref(root) + " >>"}, obj{2, "<< /Title (" + string(s.info) + ") >>"})
	for _, o := range objs {
		body := o.body
		if style&4 == 4 && body[0] == '<' { // without white space where it is not needed
			body = squeeze(body)
		}
		d.ObjG(o.n, gen[o.n], []byte(body))
	}
	nums := []int{0}
	for j := 1; j <= s.n; j++ {
		nums = append(nums, j)
	}
	d.Table(nums, "/Root 1 0 R /Info 2 0 R /Size "+lib.Itoa(s.n+1))
	s.pdf = d.B
	return s
}

// cases are pairs of shape and style; the thorough tier takes all.
var cases = [][2]int{{0, 0}, {1, 7}, {2, 3}, {3, 1}, {4, 6}, {5, 2}, {6, 5}, {4, 3}, {0, 7}}

func source1(k string, quick int) *source {
	if sym.Thorough() {
		return build(k, shapes[sym.Choice("shape", 9)], sym.Choice("style", 8))
	}
	c := cases[sym.Choice("case", quick)]
	return build(k, shapes[c[0]], c[1])
}

// squeeze removes optional blanks of a dictionary, leaving stream data alone.
func squeeze(b string) string {
	r, end := "", lib.Index(b, "stream")
	if end < 0 {
		end = len(b)
	}
	for i := 0; i < end; i++ {
		if b[i] == ' ' && i+1 < end && i > 0 && (lib.Index("<>[]/(", b[i+1:i+2]) >= 0 || lib.Index("<>[])", b[i-1:i]) >= 0) {
			continue
		}
		r += b[i : i+1]
	}
	return r + b[end:]
}

func norm(r int) int { return ((r % 360) + 360) % 360 }

// check reads a file strictly and compares its pages with the model.
func check(out []byte, want []page, forms [][]byte) *lib.Strict {
	s := lib.ReadTable(out)
	sym.Assert(s != nil, "file malformed")
	cat := s.Val(s.Trailer.Get("Root").Ref())
	sym.Assert(cat != nil && cat.Get("Type").Is("Catalog"), "no catalog")
	var got []int
	seen := map[int]bool{}
	var walk func(n, parent int, inh map[string]*lib.Val) int
	walk = func(n, parent int, inh map[string]*lib.Val) int {
		sym.Assert(!seen[n], "page tree node used twice")
		seen[n] = true
		v := s.Val(n)
		sym.Assert(v != nil && v.Kind == 'd', "page tree node missing")
		if parent != 0 {
			sym.Assert(v.Count("Parent") == 1 && v.Get("Parent").Ref() == parent, "wrong /Parent")
		}
		mine := map[string]*lib.Val{}
		for _, k := range []string{"MediaBox", "Rotate", "Resources"} {
			mine[k] = inh[k]
			if x := v.Get(k); x != nil {
				sym.Assert(v.Count(k) == 1, "attribute given twice")
				mine[k] = x
			}
		}
		if v.Get("Type").Is("Page") {
			i := len(got)
			got = append(got, n)
			sym.Assert(i < len(want), "too many pages")
			rot := 0
			if mine["Rotate"] != nil {
				rot = mine["Rotate"].Int()
			}
			sym.Assert(norm(rot) == norm(want[i].rot), "wrong rotation")
			sym.Assert(sym.EqB(num(mine["MediaBox"]), want[i].box), "wrong MediaBox")
			_, data, ok := s.StreamData(v.Get("Contents").Ref())
			sym.Assert(ok && sym.EqB(data, append(append([]byte("BT /F1 9 Tf ("), want[i].text...), ") Tj ET"...)), "wrong content")
			res := mine["Resources"]
			sym.Assert(s.Val(res.Get("Font").Get("F1").Ref()).Get("BaseFont").Is("Helvetica"), "font lost")
			_, data, ok = s.StreamData(res.Get("XObject").Get("X").Ref())
			sym.Assert(ok && sym.EqB(data, forms[i]), "form XObject lost or changed")
			if a := v.Get("Annots"); a != nil {
				x := s.Val(a.Vals[0].Ref())
				sym.Assert(x != nil && x.Get("Type").Is("Annot") && sym.EqB(x.Get("Contents").S, []byte("8 0 R")), "annotation lost or changed")
			}
			return 1
		}
		sym.Assert(v.Get("Type").Is("Pages") && v.Count("Kids") == 1 && v.Count("Count") == 1, "not a Pages object")
		c := 0
		for _, k := range v.Get("Kids").Vals {
			c += walk(k.Ref(), n, mine)
		}
		sym.Assert(v.Get("Count").Int() == c, "wrong /Count")
		return c
	}
	c := walk(cat.Get("Pages").Ref(), 0, map[string]*lib.Val{})
	sym.Assert(c == len(want), "wrong number of pages")
	sym.Reach("checked")
	return s
}

func num(v *lib.Val) []byte {
	if v == nil || len(v.Vals) != 4 {
		return nil
	}
	return append(append(append([]byte{}, v.Vals[2].S...), ' '), v.Vals[3].S...)
}

// opens checks that the library reads the pages of out.
func opens(out []byte, want []page) {
	p, err := parse.Open(out)
	sym.Assert(err == nil, "result does not open")
	ps, err := extract.ExtractPages(out, p, false)
	sym.Assert(err == nil && len(ps) == len(want), "result has other pages")
	for i, w := range want {
		sym.Assert(norm(ps[i].Rotation) == norm(w.rot), "extracted rotation differs")
		sym.Assert(len(ps[i].Text) == 1 && sym.EqS(ps[i].Text[0].Text, string(w.text)), "extracted text differs")
	}
}

// rest checks that everything else is as in the source.
func rest(s *lib.Strict, src *source) {
	cat := s.Val(s.Trailer.Get("Root").Ref())
	sym.Assert(cat.Get("Lang") != nil, "catalog changed")
	sym.Assert(sym.EqB(s.Val(s.Trailer.Get("Info").Ref()).Get("Title").S, src.info), "Info changed")
}

func forms(src *source, n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, src.form)
	}
	return r
}

func open(pdf []byte) *manipulate.PDFManipulator {
	m, err := manipulate.NewPDFManipulator(pdf, nil, false)
	sym.Assert(err == nil, "source does not open")
	return m
}

// pick is an arbitrary page number, in or out of range: the value, and the index if it is in range.
func pick(name string, n int) (int, int) {
	c := sym.Choice(name+"page", n+1)
	if c < n {
		return c + 1, c
	}
	k := sym.Int(name+"out", -1<<40, 1<<40)
	sym.Assume(sym.Or(k < 1, k > n))
	return k, -1
}

func step(m *manipulate.PDFManipulator, src *source, pages []page, added *int) []page {
	switch sym.Choice("op", 4) {
	case 0:
		k, i := pick("rot", len(pages))
		a := sym.Int("angle", -1<<40, 1<<40)
		if sym.Choice("anglekind", 2) == 0 {
			a = 90 * (1 + sym.Choice("quarter", 3))
		} else {
			sym.Assume(sym.And(a != 90, a != 180, a != 270))
			sym.Assert(m.RotatePage(k, a) != nil, "angle accepted")
			return pages
		}
		err := m.RotatePage(k, a)
		sym.Assert((err == nil) == (i >= 0), "wrong verdict on page number")
		if i >= 0 {
			pages = append([]page{}, pages...)
			pages[i].rot += a
		}
	case 1:
		a := 90 * (1 + sym.Choice("quarter", 3))
		sym.Assert(m.RotateAllPages(a) == nil, "not rotated")
		pages = append([]page{}, pages...)
		for i := range pages {
			pages[i].rot += a
		}
	case 2:
		k, i := pick("del", len(pages))
		err := m.DeletePage(k)
		sym.Assert((err == nil) == (i >= 0 && len(pages) > 1), "wrong verdict on deletion")
		if err == nil {
			pages = append(append([]page{}, pages[:i]...), pages[i+1:]...)
		}
	case 3:
		n := len(pages) + 1
		k, i := pick("ins", n)
		if sym.Choice("end", 2) == 1 {
			k, i = 0, n-1
		}
		*added++
		p := page{text: src.pages[0].text, box: []byte("50 60"), rot: 90}
		content := "<< /Type /Page /Parent 3 0 R /MediaBox [ 0 0 50 60 ] /Rotate 90 /Contents " + lib.Itoa(src.content) + " 0 R >>"
		if i < 0 {
			sym.Assume(k != 0)
		}
		err := m.InsertPage(k, src.n+2**added, []byte(content))
		sym.Assert((err == nil) == (i >= 0), "wrong verdict on insertion")
		if err == nil {
			pages = append(append(append([]page{}, pages[:i]...), p), pages[i:]...)
		}
	}
	return pages
}

// HOps: every sequence of operations leaves exactly the pages expected.
func HOps() {
	src := source1("A", 9)
	sym.Bound("page trees of 1 to 4 pages and up to 4 levels in 9 shapes and 8 spellings and numberings; sequences of 1 (thorough 2) operations with any page number and angle")
	m := open(src.pdf)
	pages, added := src.pages, 0
	for i := lib.Max(1, 2); i > 0; i-- {
		pages = step(m, src, pages, &added)
	}
	finish(m, src, pages)
}

func finish(m *manipulate.PDFManipulator, src *source, pages []page) {
	out, err := m.Rebuild()
	sym.Assert(err == nil, "not rebuilt")
	s := check(out, pages, forms(src, len(pages)))
	rest(s, src)
	opens(out, pages)
}

// HSequence: longer sequences on fewer trees.
func HSequence() {
	shape := shapes[[]int{7, 8, 4, 5}[sym.Choice("shape", lib.Max(2, 4))]]
	src := build("A", shape, []int{0, 7}[sym.Choice("style", 2)])
	sym.Bound("page trees of 1 or 2 (thorough also nested ones with 3) pages, sequences of 2 (thorough 3) operations")
	m := open(src.pdf)
	pages, added := src.pages, 0
	for i := lib.Max(2, 3); i > 0; i-- {
		pages = step(m, src, pages, &added)
	}
	finish(m, src, pages)
}

// HDeleteSet: DeletePages with any numbers in any order.
func HDeleteSet() {
	src := source1("A", 4)
	sym.Bound("0 to 3 (thorough 4) page numbers, any order, repeated, in and out of range")
	m := open(src.pdf)
	n := len(src.pages)
	gone := make([]bool, n)
	var ks []int
	good := true
	for i := sym.Choice("count", lib.Max(4, 5)); i > 0; i-- {
		k, at := pick("k", n)
		ks = append(ks, k)
		if at < 0 {
			good = false
		} else {
			gone[at] = true
		}
	}
	var left []page
	for i, p := range src.pages {
		if !gone[i] {
			left = append(left, p)
		}
	}
	given := append([]int{}, ks...)
	err := m.DeletePages(ks)
	for i := range ks {
		sym.Assert(ks[i] == given[i], "argument changed")
	}
	sym.Assert((err == nil) == (good && len(left) > 0), "wrong verdict")
	if err != nil {
		left = src.pages
	}
	finish(m, src, left)
}

// HExtract: ExtractPages gives exactly the chosen pages.
func HExtract() {
	src := source1("A", 9)
	sym.Bound("1 to 2 (thorough 3) page numbers, any order, repeated, in and out of range")
	var ks []int
	var want []page
	good := true
	for i := 1 + sym.Choice("count", lib.Max(2, 3)); i > 0; i-- {
		k, at := pick("k", len(src.pages))
		ks = append(ks, k)
		if at < 0 {
			good = false
		} else {
			want = append(want, src.pages[at])
		}
	}
	out, err := manipulate.ExtractPages(src.pdf, ks, nil, false)
	sym.Assert((err == nil) == good, "wrong verdict")
	if err != nil {
		return
	}
	check(out, want, forms(src, len(want)))
	opens(out, want)
}

// HMerge: MergePDFs gives the pages of all documents in order.
func HMerge() {
	n := 1 + sym.Choice("docs", lib.Max(2, 3))
	sym.Bound("1 or 2 (thorough 3) documents of 1 to 4 pages with overlapping numbers")
	var pdfs [][]byte
	var want []page
	var fs [][]byte
	for i := 0; i < n; i++ {
		c := cases[sym.Choice("case", 9)]
		src := build(string([]byte{'A' + byte(i)}), shapes[c[0]], c[1])
		pdfs = append(pdfs, src.pdf)
		want = append(want, src.pages...)
		fs = append(fs, forms(src, len(src.pages))...)
	}
	out, err := manipulate.MergePDFs(pdfs, nil, false)
	sym.Assert(err == nil, "not merged")
	check(out, want, fs)
	opens(out, want)
}

// HSplit: splitting by ranges and by page count.
func HSplit() {
	src := source1("A", 4)
	n := len(src.pages)
	sym.Bound("1 or 2 ranges with any bounds; any page count per part")
	var outs [][]byte
	var err error
	var want [][]page
	good := true
	if sym.Choice("by", 2) == 0 {
		var rs []manipulate.PageRange
		for i := 1 + sym.Choice("ranges", 2); i > 0; i-- {
			a, ai := pick("a", n)
			b, bi := pick("b", n)
			rs = append(rs, manipulate.PageRange{Start: a, End: b})
			if ai < 0 || bi < 0 || bi < ai {
				good = false
			} else {
				want = append(want, src.pages[ai:bi+1])
			}
		}
		outs, err = manipulate.SplitPDF(src.pdf, rs, nil, false)
	} else {
		per := sym.Int("per", -1<<63, 1<<63-1)
		good = per >= 1
		for i := 0; good && i < n; {
			j := n
			if per < n-i {
				j = i + per
			}
			want = append(want, src.pages[i:j])
			i = j
		}
		outs, err = manipulate.SplitPDFByPageCount(src.pdf, per, nil, false)
	}
	sym.Assert((err == nil) == good, "wrong verdict")
	if err != nil {
		return
	}
	sym.Assert(len(outs) == len(want), "wrong number of parts")
	for i, out := range outs {
		check(out, want[i], forms(src, len(want[i])))
		opens(out, want[i])
	}
}

// HEncrypted: operations on encrypted documents.
func HEncrypted() {
	e := &lib.Std{Meta: true, ID: []byte("0123456789abcdef"), P: 0xfffffffc, V: 2, R: 3, Len: 16}
	switch sym.Choice("config", 4) {
	case 1:
		e.V, e.R, e.RC4 = 4, 4, true
	case 2:
		e.V, e.R, e.Len = 1, 2, 5
	case 3:
		e.V, e.R = 4, 4
	}
	sym.RandConcrete()
	e.Setup([]byte("user"), []byte("owner"))
	pw := []byte([]string{"user", "owner"}[sym.Choice("pw", 2)])
	sym.Bound("RC4 with 40 and 128 bits, V4 with RC4 or AES-128, fixed passwords and IDs; 2 pages")
	d := lib.NewDoc("1.6")
	iv := []byte("ABCDEFGHIJKLMNOP")
	var want []page
	info := lib.Upper("info", 2)
	d.Obj(1, "<< /Type /Catalog /Pages 2 0 R /Lang "+lib.Lit(e.Encrypt(1, 0, iv, []byte("en")), 1)+" >>")
	d.Obj(2, "<< /Type /Pages /Count 2 /Kids [ 4 0 R 6 0 R ] /Resources << /Font << /F1 8 0 R >> /XObject << /X 9 0 R >> >> /MediaBox [ 0 0 20 30 ] >>")
	d.Obj(3, "<< /Title "+lib.Hex(e.Encrypt(3, 0, iv, info))+" >>")
	for i := 0; i < 2; i++ {
		p := page{text: []byte("AB" + lib.Itoa(i)), box: []byte("20 30")}
		want = append(want, p)
		d.Obj(4+2*i, "<< /Type /Page /Parent 2 0 R /Contents "+lib.Itoa(5+2*i)+" 0 R >>")
		d.Stream(5+2*i, "", e.Encrypt(5+2*i, 0, iv, append(append([]byte("BT /F1 9 Tf ("), p.text...), ") Tj ET"...)))
	}
	form := []byte("q 1 0 R")
	d.Obj(8, "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
	d.Stream(9, "/Type /XObject /Subtype /Form", e.Encrypt(9, 0, iv, form))
	cf := ""
	if e.V == 4 {
		cf = " /StmF /S /StrF /S /CF << /S << /CFM /AESV2 /Length 16 >> >>"
		if e.RC4 {
			cf = " /StmF /S /StrF /S /CF << /S << /CFM /V2 /Length 16 >> >>"
		}
	}
	d.Obj(10, "<< /Filter /Standard /V "+lib.Itoa(e.V)+" /R "+lib.Itoa(e.R)+" /Length "+lib.Itoa(8*e.Len)+" /P -4 /O "+lib.Hex(e.O)+" /U "+lib.Hex(e.U)+""+cf+" >>")
	d.Table([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, "/Root 1 0 R /Info 3 0 R /Encrypt 10 0 R /Size 11 /ID [ "+lib.Hex(e.ID)+" "+lib.Hex(e.ID)+" ]")
	fs := [][]byte{form, form}
	switch sym.Choice("op", 3) {
	case 0:
		out, err := manipulate.ExtractPages(d.B, []int{2, 1}, pw, false)
		sym.Assert(err == nil, "not extracted")
		check(out, []page{want[1], want[0]}, fs)
	case 1:
		out, err := manipulate.MergePDFs([][]byte{d.B, d.B}, [][]byte{pw, []byte("user")}, false)
		sym.Assert(err == nil, "not merged")
		check(out, append(want, want...), append(fs, fs...))
	case 2:
		m, err := manipulate.NewPDFManipulator(d.B, pw, false)
		sym.Assert(err == nil && m.RotatePage(1, 90) == nil, "not rotated")
		out, err := m.Rebuild()
		sym.Assert(err == nil, "not rebuilt")
		s := lib.ReadTable(out)
		sym.Assert(s != nil && s.Trailer.Get("Encrypt").Ref() == 10 && sym.EqB(lib.ReadID(out), e.ID), "encryption lost")
		sym.Assert(sym.EqB(s.Val(10).Get("O").S, e.O) && sym.EqB(s.Val(10).Get("U").S, e.U), "encryption dictionary changed")
		for _, key := range []string{"user", "owner"} {
			p, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte(key)})
			sym.Assert(err == nil, "result does not open")
			ps, err := extract.ExtractPages(out, p, false)
			sym.Assert(err == nil && len(ps) == 2 && ps[0].Rotation == 90 && ps[1].Rotation == 0, "result has other pages")
			for i, w := range want {
				sym.Assert(len(ps[i].Text) == 1 && sym.EqS(ps[i].Text[0].Text, string(w.text)), "extracted text differs")
			}
			md, err := extract.ExtractMetadata(out, p, false)
			sym.Assert(err == nil && sym.EqS(md.Title, string(info)), "Info changed")
		}
		_, err = parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte("other")})
		sym.Assert(err != nil, "opens with another password")
	}
}

// HCyclic: malformed page trees give a result or an error.
func HCyclic() {
	kids := []string{"2 0 R", "3 0 R 3 0 R", "4 0 R 2 0 R", "3 0 R 5 0 R", "9 0 R", "null 4 0 R", "6 0 R 4 0 R"}
	d := lib.NewDoc("1.4")
	k1, k2, k3 := kids[sym.Choice("a", len(kids))], kids[sym.Choice("b", len(kids))], kids[sym.Choice("c", 3)]
	sym.Bound("page trees with cycles, repetitions and missing nodes")
	d.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	d.Obj(2, "<< /Type /Pages /Count 2 /Kids [ "+k1+" ] >>")
	d.Obj(3, "<< /Type /Pages /Parent 2 0 R /Kids [ "+k2+" ] >>")
	d.Obj(4, "<< /Type /Page /Parent 3 0 R /X [ 2 0 R 4 0 R 8 0 R ] >>")
	d.Obj(5, "<< /Type /Pages /Parent 3 0 R /Kids [ "+k3+" ] >>")
	d.Obj(6, "<< /Parent 5 0 R /Kids 7 0 R >>")
	d.Obj(7, "[ 5 0 R ]")
	d.Table([]int{0, 1, 2, 3, 4, 5, 6, 7}, "/Root 1 0 R /Size 8")
	op := sym.Choice("op", 5)
	sym.Assert(!lib.Try(func() {
		if op == 0 {
			manipulate.ExtractPages(d.B, []int{1}, nil, false)
			return
		} else if op == 1 {
			manipulate.MergePDFs([][]byte{d.B, d.B}, nil, false)
			return
		}
		m, err := manipulate.NewPDFManipulator(d.B, nil, false)
		if err != nil {
			return
		}
		switch op {
		case 2:
			m.DeletePage(1)
		case 3:
			m.InsertPage(1, 20, []byte("<< /Type /Page >>"))
		case 4:
			m.RotateAllPages(90)
		}
		m.Rebuild()
	}), "panics")
	sym.Reach("returned")
}
