// Package c23: text is decoded as its font says.
package c23

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// page extracts the only page of a file whose fonts are the given entry of its resources.
func page(f *lib.Doc, fonts, content string) types.Page {
	f.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	f.Obj(2, "<< /Type /Pages /Kids [3 0 R] /Count 1 >>")
	f.Obj(3, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 200 200] /Contents 4 0 R /Resources << /Font "+fonts+" >> >>")
	f.Stream(4, "", []byte(content))
	return finish(f)
}

func finish(f *lib.Doc) types.Page {
	nums := []int{}
	for n := 1; n < 40; n++ {
		if _, ok := f.Off[n]; ok {
			nums = append(nums, n)
		}
	}
	f.Table(nums, "/Root 1 0 R")
	p, err := parse.Open(f.B)
	sym.Assert(err == nil, "does not open")
	ps, err := extract.ExtractPages(f.B, p, false)
	sym.Assert(err == nil && len(ps) == 1, "page not extracted")
	return ps[0]
}

// dig is a hexadecimal digit.
func dig(v byte, lower bool) byte {
	if lower {
		return sym.IteByte(v < 10, '0'+v, 'a'+v-10)
	}
	return sym.IteByte(v < 10, '0'+v, 'A'+v-10)
}

func hex(b []byte, lower bool) string {
	out := []byte{}
	for _, c := range b {
		out = append(out, dig(c>>4, lower), dig(c&15, lower))
	}
	return string(out)
}

// spellings of a string in a content stream
const spellings = 4

func spell(b []byte, how int) string {
	switch how {
	case 0:
		return "<" + hex(b, false) + ">"
	case 1: // octal escapes
		out := []byte{'('}
		for _, c := range b {
			out = append(out, '\\', '0'+c>>6, '0'+c>>3&7, '0'+c&7)
		}
		return string(append(out, ')'))
	case 2: // white space between the digits
		h := hex(b, true)
		out := "<"
		for i := 0; i < len(h); i++ {
			out += h[i:i+1] + "\n "[i%2:i%2+1]
		}
		return out + ">"
	}
	out := []byte{'('}
	for _, c := range b {
		sym.Assume(c != '(' && c != ')' && c != '\\' && c != '\r' && c != '\n')
		out = append(out, c)
	}
	return string(append(out, ')'))
}

// show is an operator that shows a string
func show(s string, op int) string {
	switch op {
	case 0:
		return s + " Tj"
	case 1:
		return "[" + s + "] TJ"
	}
	return s + " '"
}

// texts returns the texts that the page shows, and that there are n of them.
func texts(p types.Page, n int) []string {
	var out []string
	for _, t := range p.Text {
		out = append(out, t.Text)
	}
	sym.Assert(len(out) == n, "number of texts differs")
	return out
}

// HBase: every code of the base encodings.
func HBase() {
	enc := sym.Choice("encoding", 6)
	where := sym.Choice("where", 4)
	sym.Bound("one text of an arbitrary defined code and a letter, hexadecimal (with and without white space, both cases), in octal and as it is; WinAnsi, MacRoman and Standard encodings named by the font, in an object of their own, or as base of an encoding dictionary (inline or an object); Type1 and TrueType fonts without encoding or with a dictionary without a base")
	name := []string{"/WinAnsiEncoding", "/MacRomanEncoding", "/StandardEncoding"}
	var table *[256]rune
	switch enc % 3 {
	case 0:
		table = &winAnsi
	case 1:
		table = &macRoman
	default:
		table = &standard
	}
	f := lib.NewDoc("1.4")
	font := "<< /Type /Font /Subtype " + []string{"/Type1", "/TrueType"}[enc/3] + " /BaseFont /Abcdef"
	e := name[enc%3]
	switch where {
	case 0:
		font += " /Encoding " + e
	case 1:
		f.Obj(6, e)
		font += " /Encoding 6 0 R"
	case 2:
		font += "/Encoding<</Type/Encoding/BaseEncoding" + e + ">>"
	case 3:
		f.Obj(6, "<< /BaseEncoding "+e+" /Differences [] >>")
		font += " /Encoding 6 0 R"
	}
	if enc%3 == 2 && where == 0 { // the default
		font = font[:len(font)-len("/Encoding "+e)]
	} else if enc%3 == 2 && where == 2 {
		font = font[:len(font)-len("/BaseEncoding"+e)-2] + ">>"
	}
	f.Obj(5, font+" >>")
	c := sym.Byte("code")
	want := table[c]
	sym.Assume(want != 0)
	s := spell([]byte{c, 'A'}, sym.Choice("spelling", spellings))
	got := texts(page(f, "<< /F1 5 0 R >>", "BT /F1 12 Tf "+show(s, enc%3)+" ET"), 1)
	sym.Assert(sym.EqS(got[0], string(want)+"A"), "text differs")
	sym.Reach("base")
}

// glyphs and the characters they stand for
var glyphs = []struct {
	name string
	char string
}{{"A", "A"}, {"eacute", "é"}, {"Euro", "€"}, {"fi", "ﬁ"}, {"Lslash", "Ł"}, {"one", "1"}, {"period", "."}, {"germandbls", "ß"}}

// HDifferences: differences replace codes of the base encoding.
func HDifferences() {
	sep := sym.Choice("separators", 3)
	where := sym.Choice("where", 3)
	sym.Bound("differences of three codes in two runs: the first of three arbitrary digits, the second fixed (before, inside or after the first run); glyph names from the Adobe glyph list, uniXXXX and uXXXXX with two arbitrary digits; names and codes separated by spaces, line ends and comments or not at all; arrays and dictionaries inline or objects; an arbitrary code is shown")
	g := glyphs[sym.Choice("glyph", len(glyphs))]
	// first code
	d := sym.Bytes("digits", 3)
	for _, c := range d {
		sym.Assume(c >= '0' && c <= '9')
	}
	n := int(d[0]-'0')*100 + int(d[1]-'0')*10 + int(d[2]-'0')
	sym.Assume(n < 255)
	m := []int{40, 130, 255}[sym.Choice("second", 3)]
	// a character given by its code
	h := sym.Byte("uni")
	uni, special := "", rune(0)
	if sep == 1 {
		uni, special = "u1F6"+hex([]byte{h}, false), 0x1F600+rune(h)
	} else {
		uni, special = "uni21"+hex([]byte{h}, false), 0x2100+rune(h)
	}
	var array string
	switch sep {
	case 0:
		array = "[ " + string(d) + " /" + g.name + " /zero " + lib.Itoa(m) + " /" + uni + " ]"
	case 1:
		array = "[" + string(d) + "/" + g.name + "/zero " + lib.Itoa(m) + "/" + uni + "]"
	case 2:
		array = "[\n" + string(d) + "\n/" + g.name + " % 65 /B\n/zero\n\n" + lib.Itoa(m) + "\n/" + uni + "\n]"
	}
	f := lib.NewDoc("1.4")
	font := "<< /Type /Font /Subtype /Type1 /BaseFont /Abcdef /Encoding "
	switch where {
	case 0:
		font += "<< /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences " + array + " >>"
	case 1:
		f.Obj(6, "<< /Differences "+array+" /BaseEncoding /WinAnsiEncoding >>")
		font += "6 0 R"
	case 2:
		f.Obj(7, array)
		font += "<</BaseEncoding/WinAnsiEncoding/Differences 7 0 R>>"
	}
	f.Obj(5, font+" >>")
	c := sym.Byte("code")
	s := spell([]byte{c}, where%2)
	got := texts(page(f, "<< /F1 5 0 R >>", "BT /F1 12 Tf "+show(s, where)+" ET"), 1)
	switch {
	case int(c) == m:
		sym.Assert(sym.EqS(got[0], string(special)), "differing character given by its code is wrong")
		sym.Reach("special")
	case int(c) == n:
		sym.Assert(got[0] == g.char, "differing character is wrong")
		sym.Reach("glyph")
	case int(c) == n+1:
		sym.Assert(got[0] == "0", "second differing character is wrong")
		sym.Reach("second")
	default:
		want := winAnsi[c]
		sym.Assume(want != 0)
		sym.Assert(sym.EqS(got[0], string(want)), "other character is wrong")
		sym.Reach("base")
	}
}

// HGlyphs: every glyph name of the Latin character set.
func HGlyphs() {
	const size = 46
	lo := sym.Choice("block", (len(latinNames)+size-1)/size) * size
	hi := lib.MinI(lo+size, len(latinNames))
	sym.Bound("each of the 229 glyph names of the Latin character set, in blocks of 46 consecutive codes from 16 on; an arbitrary one of them is shown")
	array := "[16"
	for _, n := range latinNames[lo:hi] {
		array += "/" + n
	}
	f := lib.NewDoc("1.4")
	f.Obj(5, "<< /Type /Font /Subtype /Type1 /BaseFont /Abcdef /Encoding << /Differences "+array+"] >> >>")
	c := sym.Byte("code")
	sym.Assume(c >= 16 && int(c) < 16+hi-lo)
	got := texts(page(f, "<< /F1 5 0 R >>", "BT /F1 12 Tf "+spell([]byte{c}, 0)+" Tj ET"), 1)
	sym.Assert(sym.EqS(got[0], string(latinChars[lo:hi][c-16])), "character differs")
	sym.Reach("glyphs")
}

// cmap is a ToUnicode map as producers write it
func cmap(codes, blocks string) string {
	return "/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n1 begincodespacerange\n" + codes + "\nendcodespacerange\n" + blocks + "endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n"
}

// unicode returns UTF-16BE text and its string: one, two or three characters, or one beyond the basic plane
func unicode(name string, kind int) ([]byte, string) {
	b := sym.Byte(name)
	sym.Assume(b < 0xF0)
	switch kind {
	case 0:
		return []byte{0, b}, string(rune(b))
	case 1:
		return []byte{0x21, b}, string(0x2100 + rune(b))
	case 2: // a ligature
		return []byte{0, 'f', 0, b}, "f" + string(rune(b))
	case 3: // three characters
		return []byte{0, 'f', 0x4E, b, 0, 'l'}, "f" + string(0x4E00+rune(b)) + "l"
	}
	return []byte{0xD8, 0x3D, 0xDC, b}, string(0x1F400 + rune(b))
}

// HToUnicode: a font's ToUnicode map, of one or two byte codes, has priority.
func HToUnicode() {
	wide := sym.Choice("wide", 2) == 1
	kind := sym.Choice("kind", 5)
	form := sym.Choice("form", 4)
	sym.Bound("ToUnicode maps of one-byte codes (with a base encoding and differences) and two-byte codes (composite fonts), with a bfchar and a bfrange block (or a bfchar between two bfranges), the latter with a first value or an array; arbitrary code (second digit below 8 in quick runs), at three (thorough: all eight) places of a range of eight codes, values of one to three characters and beyond the basic plane with an arbitrary byte, digits in both cases, with and without white space between the strings; streams plain and compressed; texts of two codes, an arbitrary one of them")
	lo := sym.Byte("code")
	u, us := unicode("value", kind)
	if !sym.Thorough() {
		sym.Assume(lo&15 < 8)
		if form > 0 {
			sym.Assume(u[len(u)-1]&15 < 10)
		}
	}
	hi := byte(0x12)
	code := func(c byte) string {
		if wide {
			return "<" + hex([]byte{hi, c}, form%2 == 0) + ">"
		}
		return "<" + hex([]byte{c}, form%2 == 0) + ">"
	}
	sp := []string{" ", "", "\n", " "}[form]
	var blocks string
	switch form {
	case 0, 1:
		blocks = "2 beginbfchar\n" + code(lo) + sp + "<" + hex(u, form == 0) + ">\n" + code(lo^0x55) + sp + "<0058>\nendbfchar\n"
	case 2: // a range with its first value, other blocks around it
		sym.Assume(lo < 0xF8)
		if kind == 1 {
			blocks = "1 beginbfrange\n" + code(lo^0x55) + code(lo^0x55) + "<0058>\nendbfrange\n"
			blocks += "1 beginbfchar\n" + code(lo^0xAA) + "<0057>\nendbfchar\n"
			blocks += "1 beginbfrange\n" + code(lo) + code(lo+7) + "<" + hex(u, false) + ">\nendbfrange\n"
			break
		}
		blocks = "1 beginbfrange\n" + code(lo) + sp + code(lo+7) + sp + "<" + hex(u, false) + ">\nendbfrange\n1 beginbfchar\n" + code(lo^0x55) + "<0058>\nendbfchar\n"
	case 3: // with an array
		sym.Assume(lo < 0xF8)
		blocks = "2 beginbfrange\n" + code(lo) + sp + code(lo+2) + sp + "[<0059> <" + hex(u, false) + ">\n<005A>]\n" + code(lo^0x55) + sp + code(lo^0x55) + " <0058>\nendbfrange\n"
	}
	f := lib.NewDoc("1.4")
	if wide {
		f.Obj(5, "<< /Type /Font /Subtype /Type0 /BaseFont /Abcdef /Encoding /Identity-H /DescendantFonts [6 0 R] /ToUnicode 7 0 R >>")
		f.Obj(6, "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /Abcdef /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> >>")
		blocks = cmap("<0000> <FFFF>", blocks)
	} else {
		f.Obj(5, "<< /Type /Font /Subtype /TrueType /BaseFont /Abcdef /Encoding << /BaseEncoding /WinAnsiEncoding /Differences [0 /A /B 65 /C 128 /D] >> /ToUnicode 7 0 R >>")
		blocks = cmap("<00> <FF>", blocks)
	}
	if kind%2 == 1 {
		f.Stream(7, "", []byte(blocks))
	} else {
		f.Stream(7, "/Filter /FlateDecode", lib.Zlib([]byte(blocks)))
	}
	pos, want := byte(0), us
	if form == 2 {
		pos = []byte{0, 1, 7, 2, 3, 4, 5, 6}[sym.Choice("position", lib.Max(3, 8))]
		u[len(u)-1] += pos
		if kind == 3 { // the last of several characters advances
			want = us[:len(us)-1] + string('l'+rune(pos))
		} else {
			r := []rune(us)
			want = string(r[:len(r)-1]) + string(r[len(r)-1]+rune(pos))
		}
	} else if form == 3 {
		pos = byte(sym.Choice("position", 3))
		want = []string{"Y", us, "Z"}[pos]
	}
	sym.Assume(lo^0x55 != lo+pos)
	text := []byte{lo + pos, lo ^ 0x55}
	if wide {
		text = []byte{hi, lo + pos, hi, lo ^ 0x55}
	}
	got := texts(page(f, "<< /F1 5 0 R >>", "BT /F1 12 Tf "+show(spell(text, form%2), kind%3)+" ET"), 1)
	if form == 2 {
		// the other code may be in the range too
		sym.Assume(lo^0x55 < lo || lo^0x55 > lo+7)
		sym.Assume(lo^0xAA < lo || lo^0xAA > lo+7)
	}
	if form == 3 {
		sym.Assume(lo^0x55 < lo || lo^0x55 > lo+2)
	}
	sym.Assert(sym.EqS(got[0], want+"X"), "text differs")
	sym.Reach("mapped")
}

// HFonts: each text is decoded by the font in use, wherever the fonts are defined.
func HFonts() {
	where := sym.Choice("where", 4)
	name := []string{"F1", "TT0", "Font-Bold_2", "C0_0"}[sym.Choice("name", 4)]
	first := sym.Choice("first", 2)
	sym.Bound("two fonts of different encodings (WinAnsi; MacRoman, or WinAnsi with a difference, with a ToUnicode map), four resource names, font dictionaries inline or objects, the font resources inline, an object, or inherited from the page tree, and the content stream whole or in two parts; four texts that show an arbitrary code, with the font changed and restored by q and Q, and by a second font's text")
	c := sym.Byte("code")
	w, m := winAnsi[c], macRoman[c]
	sym.Assume(w != 0)
	sym.Assume(m != 0)
	f := lib.NewDoc("1.4")
	f1 := "<< /Type /Font /Subtype /TrueType /BaseFont /Abcdef /Encoding /WinAnsiEncoding >>"
	f2 := "<< /Type /Font /Subtype /TrueType /BaseFont /Abcdef /Encoding /MacRomanEncoding /ToUnicode 9 0 R >>"
	if where%2 == 1 { // the same base encoding, with differences
		f2 = "<< /Type /Font /Subtype /TrueType /BaseFont /Abcdef /Encoding << /BaseEncoding /WinAnsiEncoding /Differences [66 /odieresis] >> /ToUnicode 9 0 R >>"
		m = w
		if c == 'B' {
			m = 'ö'
		}
	}
	f.Stream(9, "", []byte(cmap("<00> <FF>", "1 beginbfchar\n<41> <0051>\nendbfchar\n")))
	if c == 'A' {
		m = 'Q'
	}
	other := name + "x"
	if first == 1 {
		other = name[:1]
	}
	dict := "/" + name + " 5 0 R /" + other + " 6 0 R"
	if where == 1 {
		dict = "/" + other + " 6 0 R /" + name + " " + f1
	} else {
		f.Obj(5, f1)
	}
	f.Obj(6, f2)
	res := "<< /Font << " + dict + " >> >>"
	if where == 1 {
		res = "<</ProcSet[/PDF/Text]/Font<<" + dict + ">>>>"
	}
	if where == 2 {
		f.Obj(7, "<< "+dict+" >>")
		res = "<< /Font 7 0 R >>"
	}
	if where == 3 {
		f.Obj(7, res)
		res = "7 0 R"
	}
	f.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	s := spell([]byte{c}, where%2) + " Tj"
	part1 := "BT /" + name + " 12 Tf " + s + " ET q "
	part2 := "BT /" + other + " 10 Tf " + s + " ET Q BT " + s + " ET\nBT /" + other + " 9 Tf " + s + " ET"
	contents := "4 0 R"
	if where >= 2 {
		contents = "[4 0 R 8 0 R]"
		f.Stream(4, "", []byte(part1))
		f.Stream(8, "", []byte(part2))
	} else {
		f.Stream(4, "", []byte(part1+part2))
	}
	if first == 1 {
		f.Obj(2, "<< /Type /Pages /Kids [3 0 R] /Count 1 /Resources "+res+" /MediaBox [0 0 200 200] >>")
		f.Obj(3, "<< /Type /Page /Parent 2 0 R /Contents "+contents+" >>")
	} else {
		f.Obj(2, "<< /Type /Pages /Kids [3 0 R] /Count 1 >>")
		f.Obj(3, "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 200 200] /Contents "+contents+" /Resources "+res+" >>")
	}
	p := finish(f)
	got := texts(p, 4)
	for i, want := range []string{string(w), string(m), string(w), string(m)} {
		sym.Assert(sym.EqS(got[i], want), "text differs")
		sym.Assert(p.Text[i].FontName == "/"+[]string{name, other, name, other}[i], "font name differs")
		sym.Assert(p.Text[i].FontSize == []float64{12, 10, 12, 9}[i], "font size differs")
	}
	sym.Reach("fonts")
}
