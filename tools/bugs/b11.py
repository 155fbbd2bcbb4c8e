exec(open('/verif/tools/bugs/common.py').read())
EN='content/extract/encoding.go'; AN='content/extract/annotations.go'; PG='content/extract/pages.go'; IM='content/extract/images.go'
DOC='package demo\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/content/extract"\n\t"github.com/benedoc-inc/pdfer/core/parse"\n\t"github.com/benedoc-inc/pdfer/types"\n)\n'+r'''
var _ = extract.ExtractAllImages

func build(objs ...string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n")
	var off []int
	for i, o := range objs {
		off = append(off, b.Len())
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	at := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range off {
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, at)
	return b.Bytes()
}

func stream(s string) string { return fmt.Sprintf("<< /Length %d >>\nstream\n%s\nendstream", len(s), s) }

func page(t *testing.T, b []byte) types.Page {
	p, err := parse.Open(b)
	if err != nil {
		t.Fatal(err)
	}
	ps, err := extract.ExtractPages(b, p, false)
	if err != nil || len(ps) != 1 {
		t.Fatal(err)
	}
	return ps[0]
}
'''
GUARD='''
// ends runs f, which must return.
func ends(t *testing.T, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatal(r)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no end")
	}
}
'''
BUGS=[
dict(id="C23-shared-encoding", property="C23", edits=[(EN,"		fd.differences[code] = unicode\n","		fd.baseEncoding[code] = unicode\n")],
 needs="two fonts with the same base encoding, one of them with differences", breaks="the differences of one font change the text of the other",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	p := page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Contents 4 0 R /Resources << /Font << /F1 5 0 R /F2 6 0 R >> >> >>",
		stream("BT /F1 9 Tf (B) Tj /F2 9 Tf (B) Tj ET"),
		"<< /Type /Font /Subtype /Type1 /BaseFont /Abc /Encoding /WinAnsiEncoding >>",
		"<< /Type /Font /Subtype /Type1 /BaseFont /Abc /Encoding << /BaseEncoding /WinAnsiEncoding /Differences [66 /odieresis] >> >>"))
	if len(p.Text) != 2 || p.Text[0].Text != "B" || p.Text[1].Text != "ö" {
		t.Fatalf("%+v", p.Text)
	}
}
'''),
dict(id="C23-range-blocks", property="C23", edits=[(EN,"beginbfrange\\s*([\\s\\S]*?)\\s*endbfrange","beginbfrange\\s*([\\s\\S]*)\\s*endbfrange")],
 needs="a ToUnicode map with a bfchar block between two bfrange blocks", breaks="the characters of the later range are wrong",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	p := page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Contents 4 0 R /Resources << /Font << /F1 5 0 R >> >> >>",
		stream("BT /F1 9 Tf <02> Tj ET"),
		"<< /Type /Font /Subtype /TrueType /BaseFont /Abc /ToUnicode 6 0 R >>",
		stream("1 beginbfrange <09> <09> <0058> endbfrange 1 beginbfchar <08> <0059> endbfchar 1 beginbfrange <01> <04> <0061> endbfrange")))
	if len(p.Text) != 1 || p.Text[0].Text != "b" {
		t.Fatalf("%+v", p.Text)
	}
}
'''),
dict(id="C23-ring", property="C23", edits=[(EN,"	202: '\\u02DA', // ring\n	203: '\\u00B8', // cedilla\n	205: '\\u02DD', // hungarumlaut\n	206: '\\u02DB', // ogonek\n","	202: '\\u02DA', // ring\n	203: '\\u00B8', // cedilla\n	204: '\\u02DD', // hungarumlaut\n	205: '\\u02DB', // ogonek\n")],
 needs="a font in StandardEncoding that shows a Hungarian umlaut or ogonek accent", breaks="the accent is another",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	p := page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Contents 4 0 R /Resources << /Font << /F1 5 0 R >> >> >>",
		stream("BT /F1 9 Tf <CDCE> Tj ET"),
		"<< /Type /Font /Subtype /Type1 /BaseFont /Abc /Encoding /StandardEncoding >>"))
	if len(p.Text) != 1 || p.Text[0].Text != "\u02DD\u02DB" {
		t.Fatalf("%+v", p.Text)
	}
}
'''),
dict(id="C24-jpeg-chain", property="C24", edits=[(IM,"		if filter == \"/DCTDecode\" || strings.Contains(filter, \"DCTDecode\") {","		if filter == \"/DCTDecode\" || strings.HasPrefix(filter, \"[/DCTDecode\") {")],
 needs="a JPEG image that is compressed again", breaks="its format is given as another",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	b := build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources << /XObject << /I 4 0 R >> >> >>",
		"<< /Subtype /Image /Width 1 /Height 1 /Filter [/ASCIIHexDecode /DCTDecode] /Length 5 >>\nstream\nFFD8>\nendstream")
	im, err := extract.ExtractAllImages(b, nil, false)
	if err != nil || len(im) != 1 || im[0].Format != "jpeg" || len(im[0].Data) != 2 {
		t.Fatalf("%+v", im)
	}
}
'''),
dict(id="C24-rotate", property="C24", edits=[(PG,"strconv.Atoi(rotationStr); err == nil {","strconv.Atoi(rotationStr); err == nil && rot >= 0 {")],
 needs="a page with a negative rotation", breaks="the page is given as not rotated",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	p := page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Rotate -90 >>"))
	if p.Rotation != -90 {
		t.Fatal(p.Rotation)
	}
}
'''),
dict(id="C24-cmyk", property="C24", edits=[(AN,"			annotation.Color.K = color[3]\n","			annotation.Color.K = color[len(color)-4]\n")],
 needs="an annotation with a CMYK color", breaks="its black is that of its cyan",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	p := page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Annots [4 0 R] >>",
		"<< /Type /Annot /Subtype /Square /Rect [0 0 1 1] /C [0 1 0 0.5] >>"))
	if len(p.Annotations) != 1 || p.Annotations[0].Color == nil || p.Annotations[0].Color.K != 0.5 {
		t.Fatalf("%+v", p.Annotations)
	}
}
'''),
dict(id="C24-inherited", property="C24", edits=[(PG,"		page.Width = mediaBox[2] - mediaBox[0]\n","		page.Width = mediaBox[2]\n")],
 needs="a page whose media box does not begin at the left axis", breaks="its width is wrong",
 demo=DOC+r'''
func TestDemo(t *testing.T) {
	p := page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [10 0 19 9] >>"))
	if p.Width != 9 {
		t.Fatal(p.Width)
	}
}
'''),
dict(id="C21-short-box", property="C21", edits=[(PG,"	if len(mediaBox) >= 4 {","	if len(mediaBox) > 2 {")],
 needs="a page with a media box of which one number is damaged", breaks="extraction panics",
 demo=DOC.replace('\t"testing"\n','\t"testing"\n\t"time"\n')+GUARD+r'''
func TestDemo(t *testing.T) {
	ends(t, func() {
		page(t, build("<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 >>", "<< /Type /Page /Parent 2 0 R /MediaBox [0 x 9 9] >>"))
	})
}
'''),
]
