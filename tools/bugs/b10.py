exec(open('/verif/tools/bugs/common.py').read())
FT='resources/font/font.go'
IMPT='package demo\n\nimport (\n\t"fmt"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/resources/font"\n)\n'+r'''
func be(v ...int) []byte {
	var r []byte
	for _, x := range v {
		r = append(r, byte(x>>8), byte(x))
	}
	return r
}

// ttf makes a font of the given character map.
func ttf(cmap []byte) []byte {
	head := make([]byte, 54)
	copy(head[18:], be(1000))
	hhea := make([]byte, 36)
	copy(hhea[34:], be(1))
	post := make([]byte, 32)
	tables := []struct {
		tag  string
		data []byte
	}{{"cmap", cmap}, {"head", head}, {"hhea", hhea}, {"hmtx", be(500, 0)}, {"maxp", be(1, 0, 9)}, {"name", be(0, 0, 6)}, {"post", post}}
	dir := be(1, 0, len(tables), 0, 0, 0)
	var body []byte
	for _, x := range tables {
		dir = append(append(dir, x.tag...), be(0, 0, 0, 12+16*len(tables)+len(body), 0, len(x.data))...)
		body = append(body, x.data...)
	}
	return append(dir, body...)
}

func glyphs(t *testing.T, cmap []byte, text string) string {
	f, err := font.NewFont("X", ttf(cmap))
	if err != nil {
		t.Fatal(err)
	}
	f.AddString(text)
	g, err := f.GetSubsetGlyphs()
	if err != nil {
		t.Fatal(err)
	}
	return fmt.Sprint(g)
}
'''
BUGS=[
dict(id="C22-listed-delta", property="C22", edits=[(FT,"					if glyphID != 0 {\n						glyphID = uint16(int16(glyphID) + idDelta)\n					}\n","")],
 needs="a character map of format 4 whose segment has both a list of glyphs and a delta", breaks="the characters have other glyphs and widths",
 demo=IMPT+r'''
func TestDemo(t *testing.T) {
	m := be(0, 1, 3, 1, 0, 12, 4, 34, 0, 4, 0, 0, 0, 0x41, 0xFFFF, 0, 0x41, 0xFFFF, 5, 1, 4, 0, 2)
	if g := glyphs(t, m, "A"); g != "[0 7]" {
		t.Fatal(g)
	}
}
'''),
dict(id="C22-full-map", property="C22", edits=[(FT,"			if bestTable == nil || encodingID == 10 {","			if bestTable == nil || encodingID == 10 && len(data) < int(bestOffset) {")],
 needs="a font with a map of the basic plane and a full one, and a character outside the basic plane", breaks="that character has no glyph",
 demo=IMPT+r'''
func TestDemo(t *testing.T) {
	m := be(0, 2, 3, 1, 0, 20, 3, 10, 0, 44, 4, 24, 0, 2, 0, 0, 0, 0xFFFF, 0, 0xFFFF, 1, 0)
	m = append(m, be(12, 0, 0, 28, 0, 0, 0, 1, 1, 0xF600, 1, 0xF600, 0, 8)...)
	if g := glyphs(t, m, "😀"); g != "[0 8]" {
		t.Fatal(g)
	}
}
'''),
dict(id="C22-group-end", property="C22", edits=[(FT,"		for code := startCharCode; code <= endCharCode; code++ {","		for code := startCharCode; code < endCharCode || code == startCharCode; code++ {")],
 needs="a full character map and the last character of a group of several", breaks="that character has no glyph",
 demo=IMPT+r'''
func TestDemo(t *testing.T) {
	m := be(0, 1, 3, 10, 0, 12, 12, 0, 0, 28, 0, 0, 0, 1, 0, 0x41, 0, 0x43, 0, 5)
	if g := glyphs(t, m, "C"); g != "[0 7]" {
		t.Fatal(g)
	}
}
'''),
]
