exec(open('/verif/tools/bugs/common.py').read())
IM='core/write/image.go'; WM='core/write/watermark.go'; CO='core/write/content.go'
PRE='''package demo

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"image"
	"image/color"
	"image/png"
	"io"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/benedoc-inc/pdfer/core/write"
)

var _ = []any{zlib.NewReader, binary.BigEndian, image.NewGray, color.White, png.Encode, io.ReadAll, regexp.MustCompile, strconv.Itoa, strings.Index}

// streams are the decoded streams of a file that are compressed.
func streams(b []byte) []string {
	var r []string
	for {
		i := bytes.Index(b, []byte("stream\\n"))
		if i < 0 {
			return r
		}
		b = b[i+7:]
		j := bytes.Index(b, []byte("endstream"))
		if z, err := zlib.NewReader(bytes.NewReader(b[:j])); err == nil {
			if x, err := io.ReadAll(z); err == nil {
				r = append(r, string(x))
			}
		}
		b = b[j+9:]
	}
}

func content(t *testing.T, draw func(*write.PageBuilder)) string {
	b := write.NewSimplePDFBuilder()
	pg := b.AddPage(write.PageSize{Width: 400, Height: 600})
	draw(pg)
	b.FinalizePage(pg)
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	s := streams(out)
	if len(s) != 1 {
		t.Fatal("streams", len(s))
	}
	return strings.Join(strings.Fields(s[0]), " ")
}
'''
BUGS=[
dict(id="C25-huffman-first", property="C25", edits=[(IM,"marker >= 0xC0 && marker <= 0xC3","marker >= 0xC0 && marker <= 0xC7")],
 needs="a JPEG file with its Huffman table before the frame header", breaks="the size is read from the Huffman table",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	f := []byte{0xFF, 0xD8, 0xFF, 0xC4, 0, 21, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
	f = append(f, 0xFF, 0xC0, 0, 11, 8, 0, 30, 0, 40, 1, 1, 0x11, 0, 0xFF, 0xD9)
	i, err := write.NewPDFWriter().AddJPEGImage(f, "Im1")
	if err != nil || i.Width != 40 || i.Height != 30 || i.ColorSpace != "/DeviceGray" {
		t.Fatal(i, err)
	}
}
'''),
dict(id="C25-gray-rows", property="C25", edits=[(IM,"rawData[y*width+x] = gray.Y","rawData[y*height+x] = gray.Y")],
 needs="a gray picture that is wider than high and has more than one row, or is higher than wide by less", breaks="rows overlap",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	for _, s := range [][2]int{{3, 2}, {2, 1}, {1, 3}, {2, 2}} {
		g := image.NewGray(image.Rect(0, 0, s[0], s[1]))
		for i := range g.Pix {
			g.Pix[i] = byte(10 + i)
		}
		var p bytes.Buffer
		png.Encode(&p, g)
		var out []byte
		func() {
			defer func() {
				if recover() != nil {
					t.Fatal("panic")
				}
			}()
			b := write.NewSimplePDFBuilder()
			info, err := b.Writer().AddImage(p.Bytes(), "Im1")
			if err != nil {
				t.Fatal(err)
			}
			pg := b.AddPage(write.PageSizeA4)
			pg.Content().DrawImage(pg.AddImage(info))
			b.FinalizePage(pg)
			out, _ = b.Bytes()
		}()
		ok := false
		for _, x := range streams(out) {
			ok = ok || x == string(g.Pix)
		}
		if !ok {
			t.Fatal("pixels differ", s)
		}
	}
}
'''),
dict(id="C25-edge-center", property="C25", edits=[(WM,"if centerX == 0 && centerY == 0 {","if centerX == 0 || centerY == 0 {")],
 needs="a watermark at the left or lower edge (one coordinate 0)", breaks="it is drawn in the middle of the page",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	s := content(t, func(pg *write.PageBuilder) {
		o := write.DefaultWatermarkOptions()
		o.Text, o.Y, o.Angle = "x", 80, 0
		if err := pg.AddWatermark(o); err != nil {
			t.Fatal(err)
		}
	})
	m := regexp.MustCompile(`1\S* 0\S* 0\S* 1\S* (\S+) (\S+) cm`).FindStringSubmatch(s)
	if m == nil {
		t.Fatal(s)
	}
	x, _ := strconv.ParseFloat(m[1], 64)
	y, _ := strconv.ParseFloat(m[2], 64)
	if x != 0 || y != 80 {
		t.Fatal(x, y)
	}
}
'''),
dict(id="C25-dash-gap", property="C25", edits=[(CO,"	for i, dash := range dashArray {\n		if i > 0 {","	for i, dash := range dashArray {\n		if i > 0 && dash >= 0.5 {")],
 needs="a dash pattern with a length below 0.5 that is not the first", breaks="two numbers of the pattern run together",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	s := content(t, func(pg *write.PageBuilder) { pg.Content().SetLineDash([]float64{3, 0.25, 1, 0}, 0) })
	m := regexp.MustCompile(`^\[([^\]]*)\]`).FindStringSubmatch(s)
	if m == nil || len(strings.Fields(m[1])) != 4 {
		t.Fatal(s)
	}
}
'''),
dict(id="C25-quote-escape", property="C25", edits=[(CO,'''(%s) '\\n", escapePDFString(text)))''','''(%s) '\\n", strings.NewReplacer("(", "\\\\(", ")", "\\\\)").Replace(text)))'''),(CO,'''	"fmt"\n''','''	"fmt"\n	"strings"\n''')],
 needs="text with a backslash shown on the next line", breaks="the backslash is taken as the start of an escape sequence",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	for _, x := range []string{`a\b`, `\`, "a)b", "\\("} {
		s := content(t, func(pg *write.PageBuilder) {
			pg.Content().BeginText().SetFont(pg.AddStandardFont("Courier"), 9).ShowTextNextLine(x).EndText()
		})
		i, j := strings.Index(s, "("), strings.LastIndex(s, ")")
		if i < 0 || j < i {
			t.Fatal(s)
		}
		got := ""
		for k := i + 1; k < j; k++ {
			if s[k] == '\\' {
				k++
			} else if s[k] == '(' || s[k] == ')' {
				t.Fatal(s)
			}
			got += s[k : k+1]
		}
		if got != x {
			t.Fatal(got, x)
		}
	}
}
'''),
dict(id="C25-kerning", property="C25", edits=[(CO,'''			cs.buf.WriteString(fmt.Sprintf("%.4f", v))\n		}\n	}\n	cs.buf.WriteString("] TJ''','''			cs.buf.WriteString(fmt.Sprintf("%.4g", v))\n		}\n	}\n	cs.buf.WriteString("] TJ''')],
 needs="an adjustment of 10000 or more, below 0.0001, or with more than four digits", breaks="the adjustment is rounded or written with an exponent",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	for _, x := range []float64{0.5, -1234.5, 123456, 0.0002} {
		s := content(t, func(pg *write.PageBuilder) { pg.Content().ShowTextArray([]interface{}{"a", x, "b"}) })
		m := regexp.MustCompile(`\[\(a\) ?(-?[0-9.]+) ?\(b\)\]`).FindStringSubmatch(s)
		if m == nil {
			t.Fatal(s)
		}
		if v, err := strconv.ParseFloat(m[1], 64); err != nil || v-x > 0.0001 || x-v > 0.0001 {
			t.Fatal(v, x)
		}
	}
}
'''),
]
