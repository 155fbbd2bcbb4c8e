package c25

import (
	"math"

	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/lib"
	"verif/harness/sym"
)

// HNames: every name a page gives out stands for what it was given for.
func HNames() {
	names := []string{"Im1", "/Im1", "", "Im2", "Logo", "a b(1)"}
	n := 3
	sym.MapOrders(3)
	sym.Bound("three images on a page, two of them also on a second page in the other order, their names from six spellings (with and without slash, empty, equal, with characters names have to escape) in every combination, one added twice; two standard fonts, one of them asked for twice; any order of Go's maps")
	bld := write.NewSimplePDFBuilder()
	data := sym.Bytes("data", n)
	var infos []*write.ImageInfo
	for i := 0; i < n; i++ {
		info, err := bld.Writer().AddJPEGImage(jpeg(0, 0xC0, 3, 5+i, 7, nil, data[i:i+1]), names[sym.Choice("name", len(names))])
		sym.Assert(err == nil, "JPEG file rejected")
		infos = append(infos, info)
	}
	pg := bld.AddPage(write.PageSizeA4)
	var used []string
	c := pg.Content()
	for _, info := range infos {
		used = append(used, pg.AddImage(info))
		c.DrawImage(used[len(used)-1])
	}
	c.DrawImage(pg.AddImage(infos[0]))
	f1, f2 := pg.AddStandardFont("Helvetica"), pg.AddStandardFont("Symbol")
	sym.Assert(f1 != f2 && pg.AddStandardFont("Helvetica") == f1, "names of fonts")
	c.BeginText().SetFont(f2, 9).ShowText("x").SetFont(f1, 8).ShowText("y").EndText()
	bld.FinalizePage(pg)
	p2 := bld.AddPage(write.PageSizeA4)
	for _, i := range []int{1, 0} {
		p2.Content().DrawImage(p2.AddImage(infos[i]))
	}
	bld.FinalizePage(p2)
	d := read(bld.Bytes())
	sym.Assert(len(d.pages) == 2, "number of pages")
	object := func(page int, kind string, v *lib.Val) int {
		sym.Assert(v.Kind == 'n', "resource name expected")
		cat := d.pages[page].Get("Resources").Get(kind)
		sym.Assert(cat.Count(string(v.S)) == 1, "resource name missing or not unique")
		return cat.Get(string(v.S)).Ref()
	}
	got := d.ops(0)
	sym.Assert(len(got) == 2*n+14, "number of tokens in the content differs")
	for j, info := range append(infos, infos[0]) {
		i := j % n
		sym.Assert(got[2*j+1].Is("Do") && object(0, "XObject", got[2*j]) == info.ObjectNum, "another image is drawn")
		dict, b := d.stream(info.ObjectNum)
		sym.Assert(dict.Get("Width").Int() == 5+i && b[len(b)-3] == data[i], "image data differs")
	}
	for i, base := range []string{"Symbol", "Helvetica"} {
		v := got[2*n+3+5*i : 2*n+8+5*i]
		f := d.s.Val(object(0, "Font", v[0]))
		sym.Assert(v[2].Is("Tf") && v[4].Is("Tj") && f.Get("Type").Is("Font") && f.Get("Subtype").Is("Type1") && f.Get("BaseFont").Is(base), "another font is set")
	}
	got = d.ops(1)
	sym.Assert(len(got) == 4 && object(1, "XObject", got[0]) == infos[1].ObjectNum && object(1, "XObject", got[2]) == infos[0].ObjectNum, "another image is drawn on the second page")
	sym.Reach("names")
}

// state is the graphics state that matters for a watermark.
type state struct {
	m     [6]float64
	fill  [3]float64
	alpha float64
}

// HWatermark: a watermark draws its text or image where and how the options say, and nothing else changes.
func HWatermark() {
	what := sym.Choice("what", 7)
	pos := sym.Choice("position", 3)
	angle := []float64{45, 0, -30, 90}[sym.Choice("angle", 4)]
	alpha := []float64{1, 0.3, 0.75}[sym.Choice("opacity", 3)]
	col := sym.Choice("color", 2)
	text := sym.Bytes("text", 1+sym.Choice("length", 2))
	sym.Bound("watermarks of 1 or 2 arbitrary bytes of text or of an image (named with or without slash, with a name that has to be escaped, or missing), without font, size and color or with them, with no text; three positions, four angles, three opacities; drawn between other content and twice on a page; the graphics state in force at the text or image computed by an independent interpreter")
	lib.Calm(text)
	bld := write.NewSimplePDFBuilder()
	size := write.PageSize{Width: 400, Height: 600}
	pg := bld.AddPage(size)
	im, err := bld.Writer().AddJPEGImage(jpeg(0, 0xC0, 1, 4, 4, nil, nil), []string{"Im1", "/Im1", "a b"}[what%3])
	sym.Assert(err == nil, "JPEG file rejected")
	imName := pg.AddImage(im)
	o := &write.WatermarkOptions{Text: string(text), Angle: angle, Opacity: alpha}
	font, fsize := "Helvetica-Bold", 48.0
	image, bad := false, false
	switch what {
	case 0: // defaults
	case 1:
		o.FontName, o.FontSize = "Courier", 20
		font, fsize = "Courier", 20
	case 2:
		o.ImageName, image = imName, true
	case 3:
		o.ImageName, image = "Im1", true
	case 4:
		o.ImageName, image = "/Im1", true
	case 5:
		o.ImageName, bad = "Im9", true
	case 6:
		o.Text, bad = "", true
	}
	fill := [3]float64{0.5, 0.5, 0.5}
	if col == 1 {
		fill = [3]float64{0.25, 1, 0}
		o.Color = &write.Color{R: fill[0], G: fill[1], B: fill[2]}
	}
	x, y := size.Width/2, size.Height/2
	if pos == 1 {
		x, y = 120, 50.5
	} else if pos == 2 {
		x, y = 0, 80
	}
	if pos > 0 {
		o.X, o.Y = x, y
	}
	c := pg.Content()
	c.SetFillColorRGB(0.125, 0, 0).Rectangle(1, 2, 3, 4).Fill()
	err = pg.AddWatermark(o)
	sym.Assert((err != nil) == bad, "an error for possible options, or none for others")
	second := ""
	if what < 2 {
		sym.Assert(pg.AddTextWatermark("again", 0, 0) == nil, "second watermark rejected")
		second = "again"
	}
	c.Rectangle(5, 6, 7, 8).Fill()
	bld.FinalizePage(pg)
	d := read(bld.Bytes())
	res := d.pages[0].Get("Resources")
	cur := state{m: [6]float64{1, 0, 0, 1, 0, 0}, alpha: 1}
	var stack []state
	var args []*lib.Val
	var fontRes string
	var fontSize float64
	marks, rects := 0, 0
	for _, v := range d.ops(0) {
		if v.Kind != 'k' {
			args = append(args, v)
			continue
		}
		num := func(i int) float64 { return f64(args[i]) }
		count := func(n int) { sym.Assert(len(args) == n, "number of operands") }
		switch op := string(v.S); op {
		case "q":
			stack = append(stack, cur)
		case "Q":
			sym.Assert(len(stack) > 0, "Q without q")
			cur, stack = stack[len(stack)-1], stack[:len(stack)-1]
		case "cm":
			count(6)
			n := [6]float64{num(0), num(1), num(2), num(3), num(4), num(5)}
			m := cur.m
			cur.m = [6]float64{n[0]*m[0] + n[1]*m[2], n[0]*m[1] + n[1]*m[3], n[2]*m[0] + n[3]*m[2], n[2]*m[1] + n[3]*m[3], n[4]*m[0] + n[5]*m[2] + m[4], n[4]*m[1] + n[5]*m[3] + m[5]}
		case "rg":
			count(3)
			cur.fill = [3]float64{num(0), num(1), num(2)}
		case "gs":
			count(1)
			g := res.Get("ExtGState").Get(string(args[0].S))
			if r := g; r != nil && r.Ref() >= 0 {
				g = d.s.Val(r.Ref())
			}
			sym.Assert(g != nil && g.Kind == 'd', "graphics state missing")
			cur.alpha = f64(g.Get("ca"))
		case "re":
			count(4)
			rects++
			sym.Assert(num(0) == float64(4*rects-3) && cur.fill == [3]float64{0.125, 0, 0} && cur.alpha == 1 && cur.m == [6]float64{1, 0, 0, 1, 0, 0} && len(stack) == 0, "content beside the watermark is drawn differently")
		case "f", "BT", "ET", "Td":
		case "Tf":
			count(2)
			fontRes, fontSize = string(args[0].S), num(1)
		case "Tj", "Do":
			marks++
			count(1)
			wx, wy, wa, wal, wf, wt, wfont, wsize := x, y, angle, alpha, fill, text, font, fsize
			if marks == 2 {
				wx, wy, wa, wal, wf, wt, wfont, wsize = size.Width/2, size.Height/2, 45, 0.3, [3]float64{0.5, 0.5, 0.5}, []byte(second), "Helvetica-Bold", 48.0
			}
			s, co := math.Sin(wa*math.Pi/180), math.Cos(wa*math.Pi/180)
			sym.Assert(near(cur.alpha, wal), "opacity differs")
			e := cur.m
			if op == "Tj" {
				sym.Assert(!image || marks == 2, "text instead of an image")
				sym.Assert(near(cur.fill[0], wf[0]) && near(cur.fill[1], wf[1]) && near(cur.fill[2], wf[2]), "color differs")
				sym.Assert(sym.EqB(args[0].S, wt), "text differs")
				f := d.s.Val(res.Get("Font").Get(fontRes).Ref())
				sym.Assert(f.Get("BaseFont").Is(wfont) && fontSize == wsize, "font differs")
				sym.Assert(near(e[0], co) && near(e[1], s) && near(e[2], -s) && near(e[3], co) && near(e[4], wx) && near(e[5], wy), "text is not at the place and angle asked for")
			} else {
				sym.Assert(image && marks == 1, "image instead of text")
				sym.Assert(res.Get("XObject").Get(string(args[0].S)).Ref() == im.ObjectNum, "another image is drawn")
				far := func(a, b float64) bool { d := a - b; return d < 0.1 && d > -0.1 }
				// the middle of the unit square is the middle of the watermark
				sym.Assert(far((e[0]+e[2])/2+e[4], wx) && far((e[1]+e[3])/2+e[5], wy), "image is not at the place asked for")
				sym.Assert(far(e[0], size.Width/2*co) && far(e[1], size.Width/2*s) && far(e[2], -size.Height/2*s) && far(e[3], size.Height/2*co), "image is not at the angle asked for")
			}
		default:
			sym.Fail("unexpected operator")
		}
		args = nil
	}
	wantMarks := 1
	if bad {
		wantMarks = 0
	} else if second != "" {
		wantMarks = 2
	}
	sym.Assert(len(stack) == 0 && rects == 2 && marks == wantMarks, "content differs")
	sym.Reach("watermark")
}

// build makes a document of n pages from the same calls.
func build(n int, order int, texts []byte, sizes []write.PageSize) (*write.SimplePDFBuilder, []byte, error) {
	b := write.NewSimplePDFBuilder()
	var ps []*write.PageBuilder
	for i := 0; i < n; i++ {
		pg := b.AddPage(sizes[i])
		for _, f := range []string{"Courier", "Helvetica", "Times-Roman"}[:1+i] {
			pg.Content().BeginText().SetFont(pg.AddStandardFont(f), 10).ShowText(string(texts[i : i+1])).EndText()
		}
		ps = append(ps, pg)
	}
	for i := range ps {
		if order == 1 {
			i = n - 1 - i
		}
		b.FinalizePage(ps[i])
	}
	out, err := b.Bytes()
	return b, out, err
}

// HPages: the document has the pages in the order they were finished, with their sizes, and the same calls give the same bytes.
func HPages() {
	n := sym.Choice("pages", 4)
	order := sym.Choice("order", 2)
	first := order * 3
	texts := lib.Upper("texts", 3)
	sym.MapOrders(3)
	sym.Bound("documents of 0 to 3 pages with one to three fonts and an arbitrary letter of text each, of six sizes, made at the same time and finished in order or in reverse; built twice with any order of Go's maps: the same bytes")
	all := []write.PageSize{write.PageSizeA4, {Width: 100.5, Height: 200.25}, write.PageSizeLetter, {Width: 1, Height: 14400}, write.PageSizeA3, write.PageSizeLegal}
	sizes := all[first : first+3]
	b, out, err := build(n, order, texts, sizes)
	d := read(out, err)
	sym.Assert(len(d.pages) == n && len(b.Pages()) == n, "number of pages differs")
	for i, p := range d.pages {
		j := i
		if order == 1 {
			j = n - 1 - i
		}
		box := p.Get("MediaBox")
		sym.Assert(box != nil && len(box.Vals) == 4 && f64(box.Vals[0]) == 0 && f64(box.Vals[1]) == 0 && f64(box.Vals[2]) == sizes[j].Width && f64(box.Vals[3]) == sizes[j].Height, "page size differs")
		ops := d.ops(i)
		sym.Assert(len(ops) == 7*(j+1), "content of a page differs")
		for k, f := range []string{"Courier", "Helvetica", "Times-Roman"}[:1+j] {
			v := ops[7*k : 7*k+7]
			font := d.s.Val(p.Get("Resources").Get("Font").Get(string(v[1].S)).Ref())
			sym.Assert(font.Get("BaseFont").Is(f) && v[4].Kind == 's' && sym.EqB(v[4].S, texts[j:j+1]), "text or font differs")
		}
		sym.Assert(b.Pages()[i] == tree(d, i), "page object numbers differ")
	}
	_, again, err := build(n, order, texts, sizes)
	sym.Assert(err == nil && sym.EqB(out, again), "the same calls give other bytes")
	sym.Reach("pages")
}

func tree(d doc, i int) int {
	root := d.s.Val(d.s.Trailer.Get("Root").Ref())
	return d.s.Val(root.Get("Pages").Ref()).Get("Kids").Vals[i].Ref()
}
