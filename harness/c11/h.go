// Package c11: what a page shows is what extraction reports.
package c11

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// ascii returns n arbitrary ASCII bytes.
func ascii(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return b
}

func pages(pdf []byte) []types.Page {
	p, err := parse.Open(pdf)
	sym.Assert(err == nil, "does not open")
	ps, err := extract.ExtractPages(pdf, p, false)
	sym.Assert(err == nil, "pages not extracted")
	return ps
}

func finish(b *write.SimplePDFBuilder) []types.Page {
	out, err := b.Bytes()
	sym.Assert(err == nil, "not built")
	return pages(out)
}

// HText: every ASCII text through every operator that shows text.
func HText() {
	fonts := []string{"Helvetica", "Times-Roman", "Courier-Bold"}
	n := sym.Choice("len", lib.Max(4, 6))
	sym.Bound("texts of 0 to 3 (thorough 5) arbitrary ASCII bytes, shown with Tj, ', TJ (split at every place) and as hex digits, in three standard fonts")
	t := ascii("t", n)
	via := sym.Choice("via", 5)
	b := write.NewSimplePDFBuilder()
	if via == 4 {
		b.Writer().UseObjectStream(true)
	}
	pg := b.AddPage(write.PageSizeA4)
	f := pg.AddStandardFont(fonts[sym.Choice("font", 3)])
	c := pg.Content()
	c.BeginText().SetFont(f, 10).SetTextPosition(5, 7).ShowText("first")
	switch via {
	case 0, 4:
		c.ShowText(string(t))
	case 1:
		c.ShowTextNextLine(string(t))
	case 2:
		k := 0
		if n > 0 {
			k = sym.Choice("split", n+1)
		}
		c.ShowTextArray([]interface{}{string(t[:k]), -50, 2.5, string(t[k:])})
	case 3:
		h := lib.Hex(t)
		c.ShowTextHex(h[1 : len(h)-1])
	}
	c.ShowText("last").EndText()
	b.FinalizePage(pg)
	ps := finish(b)
	sym.Assert(len(ps) == 1 && len(ps[0].Text) == 3, "number of texts differs")
	x := ps[0].Text
	sym.Assert(x[0].Text == "first" && x[2].Text == "last", "neighbouring texts differ")
	sym.Assert(sym.EqS(x[1].Text, string(t)), "text differs")
	sym.Assert(x[1].FontName == f && x[1].FontSize == 10 && x[1].X == 5 && x[1].Y == 7, "font or position differs")
	sym.Reach("text")
}

// ref is the text state of ISO 32000-1, 9.3 and 9.4.
type ref struct {
	tm                     [6]float64 // text line matrix
	font                   string
	size, tc, tw, ts, lead float64
	fill, stroke           [3]float64
	lw                     float64
	ctm                    [6]float64
}

func mul(m, n [6]float64) [6]float64 {
	return [6]float64{
		m[0]*n[0] + m[1]*n[2], m[0]*n[1] + m[1]*n[3],
		m[2]*n[0] + m[3]*n[2], m[2]*n[1] + m[3]*n[3],
		m[4]*n[0] + m[5]*n[2] + n[4], m[4]*n[1] + m[5]*n[3] + n[5],
	}
}

var unit = [6]float64{1, 0, 0, 1, 0, 0}

func (r *ref) td(x, y float64) { r.tm = mul([6]float64{1, 0, 0, 1, x, y}, r.tm) }

func same(a, b float64) bool {
	d := a - b
	return d < 0.001 && d > -0.001
}

// step performs one operation on the page and in the reference; true if it shows text.
func step(op int, v float64, c *write.ContentStream, r *ref, f2 string) bool {
	switch op {
	case 0:
		c.SetTextPosition(v, -3)
		r.td(v, -3)
	case 1:
		c.MoveTextPosition(2, v)
		r.lead = -v
		r.td(2, v)
	case 2:
		c.NextLine()
		r.td(0, -r.lead)
	case 3:
		c.SetTextLeading(v)
		r.lead = v
	case 4:
		c.SetTextMatrix(2, 0, 0.5, 3, v, 9)
		r.tm = [6]float64{2, 0, 0.5, 3, v, 9}
	case 5:
		c.EndText().BeginText()
		r.tm = unit
	case 6:
		c.SetFont(f2, 8.5)
		r.font, r.size = f2, 8.5
	case 7:
		c.SetCharSpacing(v).SetWordSpacing(4).SetTextRise(-1.5)
		r.tc, r.tw, r.ts = v, 4, -1.5
	case 8:
		c.ShowTextNextLine("n")
		r.td(0, -r.lead)
		return true
	}
	return false
}

// HPosition: every sequence of positioning operators.
func HPosition() {
	k := lib.Max(3, 4)
	sym.Bound("every sequence of 3 (thorough 4) of: Td, TD, T*, TL, Tm, a new text object, Tf, spacing and rise, '; then Tj. Operands from fixed values")
	vals := []float64{12.25, -100}
	b := write.NewSimplePDFBuilder()
	pg := b.AddPage(write.PageSize{Width: 595.28, Height: 841.89})
	f := pg.AddStandardFont("Helvetica")
	f2 := pg.AddStandardFont("Courier")
	sym.Assert(f != f2 && pg.AddStandardFont("Helvetica") == f, "resource names of standard fonts")
	c := pg.Content()
	r := &ref{tm: unit}
	c.BeginText().SetFont(f, 12).SetTextPosition(72, 700)
	r.td(72, 700)
	r.font, r.size = f, 12
	var want []ref
	for i := 0; i < k; i++ {
		if step(sym.Choice("op", 9), vals[i%2], c, r, f2) {
			want = append(want, *r)
		}
	}
	c.ShowText("x").EndText()
	want = append(want, *r)
	b.FinalizePage(pg)
	ps := finish(b)
	sym.Assert(len(ps) == 1 && len(ps[0].Text) == len(want), "number of texts differs")
	sym.Assert(ps[0].Width == 595.28 && ps[0].Height == 841.89 && ps[0].MediaBox != nil, "page size differs")
	for i, e := range ps[0].Text {
		w := want[i]
		sym.Assert(same(e.X, w.tm[4]) && same(e.Y, w.tm[5]), "position differs")
		sym.Assert(e.FontName == w.font && e.FontSize == w.size, "font differs")
		sym.Assert(e.CharSpacing == w.tc && e.WordSpacing == w.tw && e.TextRise == w.ts, "spacing differs")
		for j := 0; j < 4; j++ {
			sym.Assert(e.TextMatrix[j] == w.tm[j], "text matrix differs")
		}
	}
	sym.Reach("position")
}

// HGraphics: rectangles with the colours and widths in force, images under nested transformations.
func HGraphics() {
	k := lib.Max(3, 4)
	sym.Bound("every sequence of 3 (thorough 4) of: q, Q, cm, fill and stroke colours (RGB and gray), line width, font; then a rectangle, an image and a text")
	b := write.NewSimplePDFBuilder()
	pg := b.AddPage(write.PageSizeLetter)
	f := pg.AddStandardFont("Helvetica")
	c := pg.Content()
	r := ref{lw: 1, ctm: unit}
	var stack []ref
	for i := 0; i < k; i++ {
		switch sym.Choice("op", 8) {
		case 0:
			c.SaveState()
			stack = append(stack, r)
		case 1:
			c.RestoreState()
			if n := len(stack); n > 0 {
				r, stack = stack[n-1], stack[:n-1]
			}
		case 2:
			m := [6]float64{2, 0, 0, 3, 10.5, -20}
			c.SetMatrix(2, 0, 0, 3, 10.5, -20)
			r.ctm = mul(m, r.ctm)
		case 3:
			c.Translate(7, 0.25)
			r.ctm = mul([6]float64{1, 0, 0, 1, 7, 0.25}, r.ctm)
		case 4:
			c.SetFillColorRGB(0.25, 0.5, 1).SetLineWidth(2.5)
			r.fill, r.lw = [3]float64{0.25, 0.5, 1}, 2.5
		case 5:
			c.SetStrokeColorRGB(1, 0, 0.75)
			r.stroke = [3]float64{1, 0, 0.75}
		case 6:
			c.SetFillColorGray(0.5).SetStrokeColorGray(0.125)
			r.fill, r.stroke = [3]float64{0.5, 0.5, 0.5}, [3]float64{0.125, 0.125, 0.125}
		case 7:
			c.SetFont(f, 9)
			r.font, r.size = f, 9
		}
	}
	c.Rectangle(1.5, -2, 30, 40).FillStroke()
	c.DrawImageAt("/Im1", 100, 200, 50, 25)
	c.BeginText().ShowText("t").EndText()
	b.FinalizePage(pg)
	ps := finish(b)
	p := ps[0]
	sym.Assert(len(p.Graphics) == 1 && len(p.Images) == 1 && len(p.Text) == 1, "number of items differs")
	g := p.Graphics[0]
	sym.Assert(g.Type == types.GraphicTypeRectangle && *g.BoundingBox == types.Rectangle{LowerX: 1.5, LowerY: -2, UpperX: 31.5, UpperY: 38}, "rectangle differs")
	sym.Assert([3]float64{g.FillColor.R, g.FillColor.G, g.FillColor.B} == r.fill, "fill colour differs")
	sym.Assert([3]float64{g.StrokeColor.R, g.StrokeColor.G, g.StrokeColor.B} == r.stroke, "stroke colour differs")
	sym.Assert(g.LineWidth == r.lw, "line width differs")
	im := p.Images[0]
	m := mul([6]float64{50, 0, 0, 25, 100, 200}, r.ctm)
	sym.Assert(im.ImageID == "/Im1", "image name differs")
	for j := 0; j < 6; j++ {
		sym.Assert(same(im.Transform[j], m[j]), "image transformation differs")
	}
	sym.Assert(same(im.X, m[4]) && same(im.Y, m[5]) && same(im.Width, m[0]) && same(im.Height, m[3]), "image position differs")
	sym.Assert(p.Text[0].FontName == r.font && p.Text[0].FontSize == r.size, "font differs")
	sym.Reach("graphics")
}

// HPages: every page of a document, in order.
func HPages() {
	n := 1 + sym.Choice("n", lib.Max(3, 5))
	sym.Bound("1 to 3 (thorough 5) pages of different sizes, with 0 to 2 texts of 2 arbitrary ASCII letters each")
	sizes := []write.PageSize{write.PageSizeA4, {Width: 200.5, Height: 0.75}, write.PageSizeLegal}
	b := write.NewSimplePDFBuilder()
	var texts [][]string
	for i := 0; i < n; i++ {
		pg := b.AddPage(sizes[i%3])
		f := pg.AddStandardFont("Helvetica")
		k := sym.Choice("texts", 3)
		var ts []string
		for j := 0; j < k; j++ {
			t := string(lib.Upper("t", 2))
			pg.Content().BeginText().SetFont(f, 10).SetTextPosition(float64(10*i), float64(j)).ShowText(t).EndText()
			ts = append(ts, t)
		}
		texts = append(texts, ts)
		b.FinalizePage(pg)
	}
	ps := finish(b)
	sym.Assert(len(ps) == n, "number of pages differs")
	for i, p := range ps {
		sz := sizes[i%3]
		sym.Assert(p.PageNumber == i+1 && p.Width == sz.Width && p.Height == sz.Height, "page number or size differs")
		sym.Assert(len(p.Text) == len(texts[i]), "number of texts differs")
		for j, e := range p.Text {
			sym.Assert(sym.EqS(e.Text, texts[i][j]) && e.X == float64(10*i) && e.Y == float64(j), "text or position differs")
		}
	}
	sym.Reach("pages")
}

// lit spells a string: literal with the i-th kind of escapes or hexadecimal.
func spell(b []byte, how int) string {
	if how == 0 {
		h := lib.Hex(b)
		return h[:1] + " " + h[1:2] + "\n" + h[2:]
	}
	return lib.Lit(b, how-1)
}

// HForeign: content of other producers: layout, string spellings, filters, splitting.
func HForeign() {
	seps := []string{" ", "\n", "\r\n", " % (a) comment\r", "\t\x00\f"}
	sym.Bound("a text of 1 (thorough 2) arbitrary ASCII bytes in 4 spellings (hex, literal with 3 kinds of escapes), every kind of white space and comment between tokens, no space where none is needed, content in 1 to 3 streams split between tokens, plain, Flate, ASCIIHex and chained filters")
	how, show, nparts, filter := 1, 0, 1, 0
	if sym.Choice("vary", 2) == 0 {
		how, show = sym.Choice("spelling", 4), sym.Choice("show", 4)
	} else {
		nparts, filter = 1+sym.Choice("parts", 3), sym.Choice("filter", 4)
	}
	t := ascii("t", lib.Max(1, 2))
	str := spell(t, how)
	sep := seps[sym.Choice("sep", len(seps))]
	tok := []string{"q", "1 0 0 1 3 4 cm", "/Im7 Do", "Q", "BT", "/F1 12 Tf", "14 TL", "+72.5 -.5 Td"}
	y := -0.5
	switch show {
	case 0:
		tok = append(tok, str+"Tj")
	case 1:
		tok = append(tok, "[(]"+") -20.5"+str+"33<2e>]TJ")
	case 2:
		tok = append(tok, str, "'")
		y -= 14
	case 3:
		tok = append(tok, "1 2"+str+"\"")
		y -= 14
	}
	tok = append(tok, "ET", "1 0 0 RG", "BI /W 1 /H 1 ID (ET EIx EI", "0 0 5 5 re f")
	parts := nparts
	var streams []string
	cur := ""
	for i, x := range tok {
		cur += x
		if parts > 1 && i == 5 || parts > 2 && i == 7 {
			streams = append(streams, cur)
			cur = ""
		} else {
			cur += sep
		}
	}
	streams = append(streams, cur)
	d := lib.NewDoc("1.7")
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids [ 3 0 R ]/Count 1>>")
	refs := ""
	for i, s := range streams {
		n := 5 + i
		refs += lib.Itoa(n) + " 0 R "
		data := []byte(s)
		switch filter {
		case 0:
			d.Stream(n, "/DL 3", data)
		case 1:
			d.Stream(n, "/Filter/FlateDecode", lib.Zlib(data))
		case 2:
			d.Stream(n, "/Filter /ASCIIHexDecode", parse.EncodeASCIIHex(data))
		case 3:
			d.Stream(n, "/Filter [ /ASCIIHexDecode/FlateDecode ]", parse.EncodeASCIIHex(lib.Zlib(data)))
		}
	}
	contents := "[ " + refs + "]"
	if parts == 1 && sym.Choice("array", 2) == 0 {
		contents = "5 0 R"
	}
	d.Obj(3, "<</Contents "+contents+"/Type /Page/Parent 2 0 R/MediaBox [0 0 100 50]/Resources << /Font << /F1 4 0 R >> >>>>")
	d.Obj(4, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding/WinAnsiEncoding>>")
	nums := []int{1, 2, 3, 4}
	for i := range streams {
		nums = append(nums, 5+i)
	}
	d.Table(nums, "/Root 1 0 R")
	ps := pages(d.B)
	sym.Assert(len(ps) == 1 && ps[0].Width == 100 && ps[0].Height == 50, "page differs")
	p := ps[0]
	sym.Assert(len(p.Text) == 1 && len(p.Images) == 1 && len(p.Graphics) == 1, "number of items differs")
	want := string(t)
	if show == 1 {
		want = "]" + want + "."
	}
	sym.Assert(sym.EqS(p.Text[0].Text, want), "text differs")
	sym.Assert(p.Text[0].X == 72.5 && p.Text[0].Y == y && p.Text[0].FontName == "/F1" && p.Text[0].FontSize == 12, "position or font differs")
	sym.Assert(p.Images[0].X == 3 && p.Images[0].Y == 4 && p.Images[0].ImageID == "/Im7", "image differs")
	sym.Assert(p.Graphics[0].StrokeColor.R == 1 && p.Graphics[0].BoundingBox.UpperX == 5, "graphic differs")
	sym.Reach("foreign")
}

// HTree: page trees of every shape, with inherited attributes; cyclic trees return.
func HTree() {
	sym.Bound("page trees of 3 pages over 2 levels: every placement of /MediaBox and /Rotate on page, inner node or root, kids arrays in 3 spellings, a cycle or a missing kid")
	sp := sym.Choice("spelling", 3)
	kids := func(refs ...string) string {
		s := ""
		for _, r := range refs {
			s += r + " 0 R" + []string{" ", "\n", "  "}[sp]
		}
		return []string{"/Kids[", "/Kids [", "/Kids\n[ "}[sp] + s + "]"
	}
	bad := sym.Choice("bad", 4)
	boxAt := sym.Choice("box", 3)
	rotAt := sym.Choice("rotate", 4)
	attr := func(level int) string {
		s := ""
		if level >= boxAt {
			s += "/MediaBox [0 0 " + lib.Itoa(100+level) + " 50]"
		}
		if level == rotAt {
			s += " /Rotate 90"
		}
		return s
	}
	d := lib.NewDoc("1.7")
	d.Obj(1, "<</Type/Catalog /Pages 2 0 R>>")
	extra := []string{"", "2", "77", "5"}[bad]
	refs := []string{"4"}
	if extra != "" {
		refs = append(refs, extra)
	}
	refs = append(refs, "6")
	d.Obj(2, "<</Count 3 /Type /Pages"+attr(0)+kids("3", "7")+">>")
	d.Obj(3, "<<"+kids("5")+"/Type/Pages /Parent 2 0 R"+attr(1)+">>")
	d.Obj(5, "<<"+kids(refs...)+"/Type/Pages /Parent 3 0 R"+">>")
	d.Obj(4, "<</Type/Page /PageNo 1 /Parent 5 0 R"+attr(2)+">>")
	d.Obj(6, "<</Parent 5 0 R /Type /Page/Annots[]"+attr(2)+">>")
	d.Obj(7, "<</Type /Page /Parent 2 0 R /MediaBox [ 0 0 7 8 ]>>")
	d.Table([]int{1, 2, 3, 4, 5, 6, 7}, "/Root 1 0 R")
	ps := pages(d.B)
	sym.Assert(len(ps) == 3, "number of pages differs")
	for i, p := range ps[:2] {
		sym.Assert(p.PageNumber == i+1 && p.MediaBox != nil && p.Height == 50 && p.Width == 102, "page size differs")
		rot := 0
		if rotAt < 3 {
			rot = 90
		}
		sym.Assert(p.Rotation == rot, "rotation differs")
	}
	sym.Assert(ps[2].Width == 7 && ps[2].Height == 8, "last page differs")
	sym.Assert(rotAt == 0 && ps[2].Rotation == 90 || rotAt != 0 && ps[2].Rotation == 0, "last rotation differs")
	sym.Reach("tree")
}
