// Package c25: what is put on pages with the page builder is what the document says.
package c25

import (
	"bytes"
	"compress/zlib"
	"io"
	"strconv"

	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/lib"
	"verif/harness/sym"
)

// doc is a document read by an independent parser.
type doc struct {
	s     *lib.Strict
	pages []*lib.Val
}

func read(b []byte, err error) doc {
	sym.Assert(err == nil, "document not written")
	s := lib.ReadTable(b)
	sym.Assert(s != nil, "file structure wrong")
	root := s.Val(s.Trailer.Get("Root").Ref())
	tree := s.Val(root.Get("Pages").Ref())
	sym.Assert(root.Get("Type").Is("Catalog") && tree.Get("Type").Is("Pages"), "catalog or page tree missing")
	d := doc{s: s}
	for _, k := range tree.Get("Kids").Vals {
		p := s.Val(k.Ref())
		sym.Assert(p.Get("Type").Is("Page") && p.Get("Parent").Ref() == root.Get("Pages").Ref(), "page object wrong")
		d.pages = append(d.pages, p)
	}
	sym.Assert(tree.Get("Count").Int() == len(d.pages), "page count wrong")
	return d
}

func (d doc) stream(n int) (*lib.Val, []byte) {
	dict, data, ok := d.s.StreamData(n)
	sym.Assert(ok, "stream missing")
	if f := dict.Get("Filter"); f.Is("FlateDecode") {
		r, err := zlib.NewReader(bytes.NewReader(data))
		sym.Assert(err == nil, "stream cannot be decoded")
		data, err = io.ReadAll(r)
		sym.Assert(err == nil, "stream cannot be decoded")
	} else {
		sym.Assert(f == nil || f.Is("DCTDecode"), "unexpected filter")
	}
	return dict, data
}

// ops are the tokens of a page's content.
func (d doc) ops(page int) []*lib.Val {
	_, b := d.stream(d.pages[page].Get("Contents").Ref())
	var r []*lib.Val
	for i := 0; ; {
		for i < len(b) && (b[i] == ' ' || b[i] == '\n') {
			i++
		}
		if i == len(b) {
			return r
		}
		v, j := lib.ParseVal(b, i)
		sym.Assert(v != nil && j > i, "content is no sequence of tokens")
		r = append(r, v)
		i = j
	}
}

func f64(v *lib.Val) float64 {
	if v == nil || v.Kind != 'i' {
		sym.Fail("number expected")
	}
	f, err := strconv.ParseFloat(string(v.S), 64)
	if err != nil {
		sym.Fail("number expected")
	}
	return f
}

func near(a, b float64) bool {
	d := a - b
	return d < 0.000051 && d > -0.000051
}

// tok is an expected token: a number, a name ("/F1"), a string ("(x"), an array or an operator.
type tok any

func same(v *lib.Val, t tok) bool {
	switch x := t.(type) {
	case float64:
		return v.Kind == 'i' && near(f64(v), x)
	case int:
		return v.Kind == 'i' && f64(v) == float64(x)
	case []tok:
		if v.Kind != 'a' || len(v.Vals) != len(x) {
			return false
		}
		for i := range x {
			if !same(v.Vals[i], x[i]) {
				return false
			}
		}
		return true
	case []byte:
		return v.Kind == 's' && sym.EqB(v.S, x)
	case string:
		if x[0] == '/' {
			return v.Is(x[1:]) && v.Kind == 'n'
		}
		return v.Is(x) && v.Kind == 'k'
	}
	return false
}

func expect(got []*lib.Val, want []tok) {
	sym.Assert(len(got) == len(want), "number of tokens in the content differs")
	for i := range want {
		sym.Assert(same(got[i], want[i]), "content differs")
	}
}

// step performs one call and returns the operands and operators ISO 32000-1 has for it.
func step(op int, n []float64, text []byte, c *write.ContentStream) []tok {
	s := string(text)
	switch op {
	case 0:
		c.SaveState()
		return []tok{"q"}
	case 1:
		c.RestoreState()
		return []tok{"Q"}
	case 2:
		c.SetMatrix(n[0], n[1], n[2], n[3], n[4], n[5])
		return []tok{n[0], n[1], n[2], n[3], n[4], n[5], "cm"}
	case 3:
		c.Translate(n[0], n[1])
		return []tok{1, 0, 0, 1, n[0], n[1], "cm"}
	case 4:
		c.Scale(n[0], n[1])
		return []tok{n[0], 0, 0, n[1], 0, 0, "cm"}
	case 5:
		c.SetFillColorRGB(n[0], n[1], n[2])
		return []tok{n[0], n[1], n[2], "rg"}
	case 6:
		c.SetStrokeColorRGB(n[0], n[1], n[2])
		return []tok{n[0], n[1], n[2], "RG"}
	case 7:
		c.SetFillColorGray(n[0])
		return []tok{n[0], "g"}
	case 8:
		c.SetStrokeColorGray(n[0])
		return []tok{n[0], "G"}
	case 9:
		c.MoveTo(n[0], n[1])
		return []tok{n[0], n[1], "m"}
	case 10:
		c.LineTo(n[0], n[1])
		return []tok{n[0], n[1], "l"}
	case 11:
		c.Rectangle(n[0], n[1], n[2], n[3])
		return []tok{n[0], n[1], n[2], n[3], "re"}
	case 12:
		c.Stroke().Fill().FillStroke().ClosePath().ClosePathStroke()
		return []tok{"S", "f", "B", "h", "s"}
	case 13:
		c.SetLineWidth(n[0])
		return []tok{n[0], "w"}
	case 14:
		c.CurveTo(n[0], n[1], n[2], n[3], n[4], n[5])
		return []tok{n[0], n[1], n[2], n[3], n[4], n[5], "c"}
	case 15:
		c.CurveToV(n[0], n[1], n[2], n[3]).CurveToY(n[3], n[2], n[1], n[0])
		return []tok{n[0], n[1], n[2], n[3], "v", n[3], n[2], n[1], n[0], "y"}
	case 16:
		d := len(s) * 3 / 2 // 0, 1 or 3
		c.SetLineDash(n[:d], n[3])
		a := []tok{}
		for _, x := range n[:d] {
			a = append(a, x)
		}
		return []tok{a, n[3], "d"}
	case 17:
		c.DrawImageAt("/Im1", n[0], n[1], n[2], n[3])
		return []tok{"q", n[2], 0, 0, n[3], n[0], n[1], "cm", "/Im1", "Do", "Q"}
	case 18:
		c.BeginText().EndText()
		return []tok{"BT", "ET"}
	case 19:
		c.SetFont("/F2", n[0])
		return []tok{"/F2", n[0], "Tf"}
	case 20:
		c.SetTextPosition(n[0], n[1]).MoveTextPosition(n[1], n[0]).NextLine()
		return []tok{n[0], n[1], "Td", n[1], n[0], "TD", "T*"}
	case 21:
		c.SetTextMatrix(n[0], n[1], n[2], n[3], n[4], n[5])
		return []tok{n[0], n[1], n[2], n[3], n[4], n[5], "Tm"}
	case 22:
		c.ShowText(s)
		return []tok{text, "Tj"}
	case 23:
		c.ShowTextNextLine(s)
		return []tok{text, "'"}
	case 24:
		c.ShowTextArray([]interface{}{s, n[0], -120, s, n[2], n[5], s})
		return []tok{[]tok{text, n[0], -120, text, n[2], n[5], text}, "TJ"}
	case 25:
		h := lib.Hex(text)
		c.ShowTextHex(h[1 : len(h)-1])
		return []tok{text, "Tj"}
	case 26:
		m := len(s) + 3
		c.SetTextRenderMode(m)
		return []tok{m, "Tr"}
	case 27:
		c.SetTextLeading(n[0]).SetCharSpacing(n[1]).SetWordSpacing(n[2]).SetTextRise(n[3])
		return []tok{n[0], "TL", n[1], "Tc", n[2], "Tw", n[3], "Ts"}
	case 28:
		c.Raw("/GS1 gs")
		return []tok{"/GS1", "gs"}
	}
	c.Raw("")
	return nil
}

// HOperators: the calls of the content stream, on a page.
func HOperators() {
	a, b := sym.Choice("first", 30), sym.Choice("second", 30)
	nums := [][]float64{{0.5, 12.25, -100, 3, 7.125, 1000}, {99999.5, 1, 0.00012, 0, -0.75, 2}}
	if sym.Choice("operands", 2) == 1 {
		nums = [][]float64{{0.25, 0.0625, -0.001, 0.5, 0.9, -123456.7}, {-1234.5678, 0, 0.03125, 1, 0.1, 10}}
	}
	k := sym.Choice("length", 3)
	t := sym.Bytes("text", k)
	sym.Bound("every two calls (30 kinds: state, matrices, colors, paths, curves, dashes, images, fonts, text positions and spacing, text shown in four ways with 0 to 2 arbitrary bytes, raw) with operands from four fixed sets, read back as tokens by an independent parser: numbers within 0.00005")
	if a != 25 && b != 25 {
		lib.Calm(t)
	}
	bld := write.NewSimplePDFBuilder()
	pg := bld.AddPage(write.PageSizeA4)
	c := pg.Content()
	want := step(a, nums[0], t, c)
	want = append(want, step(b, nums[1], t, c)...)
	bld.FinalizePage(pg)
	d := read(bld.Bytes())
	sym.Assert(len(d.pages) == 1, "number of pages")
	expect(d.ops(0), want)
	sym.Reach("operators")
}

// jpeg is a JPEG file: segments before the frame header, then the frame.
func jpeg(how, sof, comps, w, h int, app, data []byte) []byte {
	b := []byte{0xFF, 0xD8}
	seg := func(m byte, p []byte) {
		b = append(b, 0xFF, m, byte((len(p)+2)>>8), byte(len(p)+2))
		b = append(b, p...)
	}
	switch how {
	case 0:
		seg(0xE0, append([]byte("JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00"), app...))
	case 1:
		seg(0xE1, app)
		seg(0xFE, []byte{0xFF, 0xC0, 0, 11, 8, 0, 9, 0, 9})
	case 2: // fill bytes before markers
		b = append(b, 0xFF)
		seg(0xE0, app)
		b = append(b, 0xFF, 0xFF)
	case 3:
		seg(0xDB, append(app, 0xFF))
		seg(0xC4, []byte{0, 1, 0xFF, 0xC2})
	}
	f := []byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), byte(comps)}
	for i := 0; i < comps; i++ {
		f = append(f, byte(i+1), 0x11, 0)
	}
	seg(byte(sof), f)
	seg(0xDA, []byte{1, 1, 0, 0, 63, 0})
	b = append(b, data...)
	return append(b, 0xFF, 0xD9)
}

// HJpeg: a JPEG file becomes an image with its size, colors and bytes.
func HJpeg() {
	how := sym.Choice("how", 5)
	frame := sym.Choice("frame", 3)
	comps := []int{1, 3, 4}[sym.Choice("components", 3)]
	w := []int{1, 255, 256, 65535}[sym.Choice("width", 4)]
	h := []int{640, 1, 0x1C0}[frame]
	app := sym.Bytes("app", lib.Max(2, 4))
	data := sym.Bytes("data", 2)
	sym.Bound("JPEG files with application, comment, quantisation and Huffman segments or fill bytes before a baseline, extended or progressive frame header, with 2 (thorough 4) arbitrary bytes in a segment and 2 in the scan; 1, 3 or 4 components, twelve sizes; the image object, its bytes and its use on a page read back by an independent parser")
	file := jpeg(how, 0xC0+frame, comps, w, h, app, data)
	lib.Calm(data)
	bld := write.NewSimplePDFBuilder()
	info, err := bld.Writer().AddJPEGImage(file, "Photo")
	sym.Assert(err == nil, "JPEG file rejected")
	space := map[int]string{1: "/DeviceGray", 3: "/DeviceRGB", 4: "/DeviceCMYK"}[comps]
	sym.Assert(info.Width == w && info.Height == h && info.ColorSpace == space, "size or color space of the image differs")
	pg := bld.AddPage(write.PageSizeA4)
	name := pg.AddImage(info)
	pg.Content().DrawImageAt(name, 1, 2, 3, 4)
	bld.FinalizePage(pg)
	d := read(bld.Bytes())
	x := d.pages[0].Get("Resources").Get("XObject").Get(name[1:])
	sym.Assert(x.Ref() == info.ObjectNum, "image missing in the page's resources")
	dict, got := d.stream(x.Ref())
	sym.Assert(dict.Get("Type").Is("XObject") && dict.Get("Subtype").Is("Image") && dict.Get("Filter").Is("DCTDecode"), "image dictionary")
	sym.Assert(dict.Get("Width").Int() == w && dict.Get("Height").Int() == h, "image size differs")
	sym.Assert(dict.Get("ColorSpace").Is(space[1:]) && dict.Get("BitsPerComponent").Int() == 8, "image colors differ")
	sym.Assert(sym.EqB(got, file), "image data differs")
	expect(d.ops(0), []tok{"q", 3, 0, 0, 4, 1, 2, "cm", name, "Do", "Q"})
	sym.Reach("jpeg")
}

// HRaster: a PNG picture becomes an image with its pixels and its transparency.
func HRaster() {
	kind := sym.Choice("kind", 10)
	k := lib.Max(2, 3)
	sym.Bound("PNG pictures of 2 (thorough 3) pixels, in one row or one column, in ten kinds: gray of 8, 1 and 16 bits, RGB of 8 and 16 bits, gray with alpha, RGB with alpha, with 16 bits and alpha from three values, with a palette, with a palette and transparency; all sample values arbitrary; the colors as the picture has them (16 bits: the upper byte, with alpha within one), the alpha as a soft mask")
	bytesPer := []int{1, 0, 2, 3, 6, 2, 4, 8, 0, 0}[kind]
	color := []int{0, 0, 0, 2, 2, 4, 6, 6, 3, 3}[kind]
	depth := []int{8, 1, 16, 8, 16, 8, 8, 16, 8, 8}[kind]
	w, h := k, 1
	if sym.Choice("column", 2) == 1 && kind != 1 {
		w, h = 1, k
	}
	var want, alpha []byte
	var pix, extra []byte
	row := w * bytesPer
	switch kind {
	case 1:
		pix = []byte{byte(sym.Choice("bits", 1<<k)) << (8 - k)}
		row = 1
		for i := 0; i < k; i++ {
			want = append(want, (pix[0]>>(7-i)&1)*255)
			alpha = append(alpha, 255)
		}
	case 8, 9:
		row = w
		pal := sym.Bytes("palette", 6)
		extra = chunk("PLTE", pal)
		tr := []byte{255, 255}
		if kind == 9 {
			tr = sym.Bytes("transparency", 2)
			extra = append(extra, chunk("tRNS", tr)...)
		}
		pick := sym.Choice("indices", 1<<k)
		for i := 0; i < k; i++ {
			j := pick >> i & 1
			pix = append(pix, byte(j))
			want = append(want, pal[j*3:j*3+3]...)
			alpha = append(alpha, tr[j])
		}
	default:
		pix = sym.Bytes("pixels", k*bytesPer)
		for i := 0; i < k; i++ {
			p := pix[i*bytesPer : (i+1)*bytesPer]
			a := byte(255)
			switch kind {
			case 0:
				want = append(want, p[0])
			case 2:
				want = append(want, p[0])
			case 3:
				want = append(want, p...)
			case 4:
				want = append(want, p[0], p[2], p[4])
			case 5:
				want = append(want, p[0], p[0], p[0])
				a = p[1]
			case 6:
				want = append(want, p[:3]...)
				a = p[3]
			case 7:
				q := []int{0, 0x8000, 0xFFFF}[sym.Choice("alpha", 3)]
				p[6], p[7] = byte(q>>8), byte(q)
				want = append(want, p[0], p[2], p[4])
				a = p[6]
			}
			alpha = append(alpha, a)
		}
	}
	file := pngFile(w, h, depth, color, row, pix, extra)
	bld := write.NewSimplePDFBuilder()
	info, err := bld.Writer().AddImage(file, "Im1")
	if err != nil {
		sym.Fail("PNG picture rejected")
	}
	space := "/DeviceRGB"
	if color == 0 {
		space = "/DeviceGray"
	}
	sym.Assert(info.Width == w && info.Height == h && info.ColorSpace == space, "size or color space of the image differs")
	pg := bld.AddPage(write.PageSizeA4)
	name := pg.AddImage(info)
	pg.Content().DrawImage(name)
	bld.FinalizePage(pg)
	d := read(bld.Bytes())
	dict, got := d.stream(d.pages[0].Get("Resources").Get("XObject").Get(name[1:]).Ref())
	sym.Assert(dict.Get("Type").Is("XObject") && dict.Get("Subtype").Is("Image") && dict.Get("Filter").Is("FlateDecode"), "image dictionary")
	sym.Assert(dict.Get("Width").Int() == w && dict.Get("Height").Int() == h, "image size differs")
	sym.Assert(dict.Get("ColorSpace").Is(space[1:]) && dict.Get("BitsPerComponent").Int() == 8, "image colors differ")
	sym.Assert(len(got) == len(want), "number of samples differs")
	m := make([]byte, k)
	for i := range m {
		m[i] = 255
	}
	if x := dict.Get("SMask"); x != nil {
		md, mask := d.stream(x.Ref())
		sym.Assert(md.Get("Subtype").Is("Image") && md.Get("Width").Int() == w && md.Get("Height").Int() == h && md.Get("ColorSpace").Is("DeviceGray") && md.Get("BitsPerComponent").Int() == 8, "soft mask")
		sym.Assert(len(mask) == k, "number of samples in the soft mask")
		m = mask
	}
	sym.Assert(sym.EqB(m, alpha), "transparency differs")
	per := len(want) / k
	for i := range want {
		ok := got[i] == want[i]
		if kind == 7 {
			ok = int(got[i])-int(want[i]) <= 1 && int(want[i])-int(got[i]) <= 1
		}
		sym.Assert(sym.Or(ok, alpha[i/per] == 0), "colors differ")
	}
	sym.Reach("raster")
}
