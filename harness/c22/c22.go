// Package c22: embedded fonts say what the font file says.
package c22

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/resources/font"
	"verif/harness/lib"
	"verif/harness/sym"
)

func be16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

func be32(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

// A record of the name table: the data is placed in the order of the records.
type name struct {
	platform, encoding, id int
	data                   []byte
}

// A subtable of the character map.
type subtable struct {
	platform, encoding int
	data               []byte
}

// ttf is a font: numbers that stand for the tables.
type ttf struct {
	upem, ascent, descent, glyphs  int
	italic, fixed                  int
	upos, uthick, capH, xH         int
	os2                            bool
	names                          []name
	pad                            int // bytes before the strings of the names
	maps                           []subtable
	advance                        []int // the metrics; later glyphs have the last advance
	bbox                           [4]int
	without                        string // the table to leave out
	reverse                        bool
}

func plain() ttf {
	return ttf{upem: 1000, ascent: 800, descent: -200, glyphs: 200, advance: []int{500}, maps: []subtable{{3, 1, ascii(-29)}},
		names: []name{{3, 1, 6, wide("F")}}, bbox: [4]int{-10, -20, 30, 40}}
}

func wide(s string) []byte {
	var r []byte
	for i := 0; i < len(s); i++ {
		r = append(r, 0, s[i])
	}
	return r
}

// A segment of a character map of format 4.
type segment struct {
	start, end, delta int
	gids              []int // if the glyphs are listed
}

func format4(segs ...segment) []byte {
	segs = append(segs, segment{0xFFFF, 0xFFFF, 1, nil})
	n := len(segs)
	var ends, starts, deltas, offs, gids []byte
	for i, s := range segs {
		ends = append(ends, be16(s.end)...)
		starts = append(starts, be16(s.start)...)
		deltas = append(deltas, be16(s.delta)...)
		o := 0
		if s.gids != nil {
			o = (n-i)*2 + len(gids)
			for _, g := range s.gids {
				gids = append(gids, be16(g)...)
			}
		}
		offs = append(offs, be16(o)...)
	}
	return cat(be16(4), be16(16+8*n+len(gids)), be16(0), be16(2*n), make([]byte, 6), ends, be16(0), starts, deltas, offs, gids)
}

func format12(groups ...[3]int) []byte {
	r := cat(be16(12), be16(0), be32(16+12*len(groups)), be32(0), be32(len(groups)))
	for _, g := range groups {
		r = cat(r, be32(g[0]), be32(g[1]), be32(g[2]))
	}
	return r
}

// ascii maps the printable characters of ASCII to glyphs.
func ascii(delta int) []byte { return format4(segment{0x20, 0x7E, delta, nil}) }

func (t ttf) cmap() []byte {
	r := cat(be16(0), be16(len(t.maps)))
	at := 4 + 8*len(t.maps)
	for _, m := range t.maps {
		r = cat(r, be16(m.platform), be16(m.encoding), be32(at))
		at += len(m.data)
	}
	for _, m := range t.maps {
		r = append(r, m.data...)
	}
	return r
}

func (t ttf) name() []byte {
	at := t.pad
	r := cat(be16(0), be16(len(t.names)), be16(6+12*len(t.names)))
	for _, n := range t.names {
		r = cat(r, be16(n.platform), be16(n.encoding), be16(0x409), be16(n.id), be16(len(n.data)), be16(at))
		at += len(n.data)
	}
	r = append(r, make([]byte, t.pad)...)
	for _, n := range t.names {
		r = append(r, n.data...)
	}
	return r
}

// bytes returns the font file.
func (t ttf) bytes() []byte {
	head := make([]byte, 54)
	copy(head, be32(0x10000))
	copy(head[12:], be32(0x5F0F3CF5))
	copy(head[18:], be16(t.upem))
	for i, v := range t.bbox {
		copy(head[36+2*i:], be16(v))
	}
	hhea := make([]byte, 36)
	copy(hhea, be32(0x10000))
	copy(hhea[4:], cat(be16(t.ascent), be16(t.descent)))
	copy(hhea[34:], be16(len(t.advance)))
	post := make([]byte, 32)
	copy(post, cat(be32(0x30000), be32(t.italic), be16(t.upos), be16(t.uthick), be32(t.fixed)))
	var hmtx []byte
	for _, a := range t.advance {
		hmtx = cat(hmtx, be16(a), be16(7))
	}
	for i := len(t.advance); i < lib.MinI(t.glyphs, 10); i++ {
		hmtx = cat(hmtx, be16(9))
	}
	tables := []struct {
		tag  string
		data []byte
	}{{"cmap", t.cmap()}, {"glyf", []byte("glyphs")}, {"head", head}, {"hhea", hhea}, {"hmtx", hmtx}, {"maxp", cat(be32(0x10000), be16(t.glyphs))}, {"name", t.name()}, {"post", post}}
	if t.os2 {
		o := make([]byte, 96)
		copy(o, be16(4))
		copy(o[86:], cat(be16(t.xH), be16(t.capH)))
		tables = append(tables, tables[0])
		tables[0].tag, tables[0].data = "OS/2", o
	}
	n := 0
	for _, x := range tables {
		if x.tag != t.without {
			n++
		}
	}
	dir := cat(be32(0x10000), be16(n), make([]byte, 6))
	var body []byte
	for i := range tables {
		x := tables[i]
		if t.reverse {
			x = tables[len(tables)-1-i]
		}
		if x.tag == t.without {
			continue
		}
		dir = cat(dir, []byte(x.tag), be32(0), be32(12+16*n+len(body)), be32(len(x.data)))
		body = append(body, x.data...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	return append(dir, body...)
}

// signed makes any 16-bit number.
func signed(name string) int { return int(int16(sym.Uint16(name))) }

// HMetrics: the numbers of the tables.
func HMetrics() {
	sym.Bound("all values of unitsPerEm from 1, ascent, descent, glyph count, underline and OS/2 heights; 3 italic angles; with and without OS/2; tables in either order in the file")
	t := plain()
	t.upem = int(sym.Uint16("upem"))
	sym.Assume(t.upem > 0)
	t.ascent, t.descent, t.glyphs = signed("ascent"), signed("descent"), int(sym.Uint16("glyphs"))
	t.upos, t.uthick = signed("upos"), signed("uthick")
	t.fixed = int(sym.Uint16("fixed"))
	t.italic = []int{0, -12 << 16, 0x18000}[sym.Choice("italic", 3)]
	t.reverse = sym.Choice("reverse", 2) == 1
	t.os2 = sym.Choice("os2", 2) == 1
	t.capH, t.xH = 0, 0
	if t.os2 {
		t.capH, t.xH = signed("cap"), signed("x")
	}
	b := t.noMetrics()
	p, err := font.ParseTTF(b)
	sym.Assert(err == nil, "a well-formed font is read")
	sym.Assert(int(p.UnitsPerEm) == t.upem, "units per em")
	sym.Assert(int(p.Ascent) == t.ascent && int(p.Descent) == t.descent, "ascent and descent")
	sym.Assert(int(p.NumGlyphs) == t.glyphs, "number of glyphs")
	sym.Assert(int(p.UnderlinePosition) == t.upos && int(p.UnderlineThickness) == t.uthick, "underline")
	sym.Assert(p.IsFixedPitch == (t.fixed != 0), "fixed pitch")
	sym.Assert(p.ItalicAngle == float32(t.italic)/65536, "italic angle")
	if t.os2 {
		sym.Assert(int(p.CapHeight) == t.capH && int(p.XHeight) == t.xH, "heights of letters")
	}
	sym.Reach("read")
}

// noMetrics is bytes for any number of glyphs.
func (t ttf) noMetrics() []byte {
	g := t.glyphs
	t.glyphs = 1
	b := t.bytes()
	// the number of glyphs is the last field of maxp
	n := int(b[4])<<8 | int(b[5])
	for i := 0; i < n; i++ {
		d := b[12+16*i:]
		if string(d[:4]) == "maxp" {
			copy(b[int(lib.BE(d[8:12]))+4:], be16(g))
		}
	}
	return b
}

// utf8 encodes a unit sequence of UTF-16, as runes.
func runes(b []byte) []rune {
	var r []rune
	for i := 0; i+1 < len(b); i += 2 {
		u := rune(b[i])<<8 | rune(b[i+1])
		if u >= 0xD800 && u < 0xDC00 && i+3 < len(b) {
			v := rune(b[i+2])<<8 | rune(b[i+3])
			if v >= 0xDC00 && v < 0xE000 {
				r = append(r, 0x10000+(u-0xD800)<<10+(v-0xDC00))
				i += 2
				continue
			}
		}
		if u >= 0xD800 && u < 0xE000 {
			u = 0xFFFD
		}
		r = append(r, u)
	}
	return r
}

// HNames: the names of the font.
func HNames() {
	sym.Bound("up to 3 name records of platforms 0, 1 and 3 and names 1, 2, 4 and 6, the first two with any 2 UTF-16 units, strings 0 or 70,000 bytes into the table")
	t := plain()
	t.names = nil
	n := 1 + sym.Choice("n", 3)
	family, full, ps := "", "", ""
	big := sym.Choice("big", 2) == 1 && n == 1
	if big {
		t.pad = 65530
	}
	for i := 0; i < n; i++ {
		k := sym.Choice("record", 9)
		r := name{[]int{3, 3, 3, 3, 0, 0, 1, 1, 3}[k], 1, []int{1, 4, 6, 2, 6, 1, 6, 4, 6}[k], []byte("\x00A\x00B")}
		if i == 0 && (k < 6 && k != 3) {
			r.data = sym.Bytes("u", 4)
		}
		if k == 8 {
			r.data = []byte("\xd8\x3d\xde\x00\x00C")
		}
		t.names = append(t.names, r)
		if r.platform == 1 {
			continue
		}
		s := string(runes(r.data))
		switch r.id {
		case 1:
			if family == "" {
				family = s
			}
		case 4:
			if full == "" {
				full = s
			}
		case 6:
			if ps == "" {
				ps = s
			}
		}
	}
	p, err := font.ParseTTF(t.bytes())
	sym.Assert(err == nil, "a well-formed font is read")
	sym.Assert(sym.EqS(p.FamilyName, family), "family name")
	sym.Assert(sym.EqS(p.FullName, full), "full name")
	sym.Assert(sym.EqS(p.PostScriptName, ps), "PostScript name")
	want := ps
	if want == "" {
		want = full
	}
	if want == "" {
		want = family
	}
	sym.Assert(sym.EqS(p.FontName, want), "name")
	sym.Reach("read")
}

// glyph is what a format 4 map says (spec: "cmap format 4").
func glyph(segs []segment, c int) int {
	for _, s := range segs {
		if c > s.end || c < s.start {
			continue
		}
		if s.gids == nil {
			return (c + s.delta) & 0xFFFF
		}
		g := s.gids[c-s.start]
		return sym.IteInt(g == 0, 0, (g+s.delta)&0xFFFF)
	}
	return 0
}

// check compares the glyphs of two runes.
func check(t ttf, subset []rune, want []int) {
	f, err := font.NewFont("X", t.bytes())
	sym.Assert(err == nil, "a font is accepted")
	for _, r := range subset {
		f.AddRune(r)
		f.AddRune(r)
	}
	sym.Assert(len(f.Subset) == len(subset), "a rune is added once")
	g, err := f.GetSubsetGlyphs()
	sym.Assert(err == nil, "glyphs of a well-formed font")
	for i := 1; i < len(g); i++ {
		sym.Assert(g[i-1] < g[i], "glyphs in order, each once")
	}
	want = append(want, 0)
	for _, x := range g {
		in := false
		for _, w := range want {
			in = sym.Or(in, int(x) == w)
		}
		sym.Assert(in, "only glyphs of the characters")
	}
	for _, w := range want {
		in := false
		for _, x := range g {
			in = sym.Or(in, int(x) == w)
		}
		sym.Assert(in, "every glyph of the characters")
	}
	sym.Reach("compared")
}

// HMap4: characters to glyphs, format 4.
func HMap4() {
	sym.Bound("three segments with any deltas, one with any glyphs listed; 2 of 7 characters; platform 3 or 0")
	segs := []segment{{0x41, 0x43, signed("d1"), nil}, {0x20AC, 0x20AD, 0, []int{int(sym.Uint16("g1")), int(sym.Uint16("g2"))}}, {0xFFF0, 0xFFFE, signed("d3"), nil}}
	if sym.Choice("delta", 2) == 1 {
		segs[1].delta = signed("d2")
	}
	t := plain()
	p := sym.Choice("platform", 2)
	t.maps = []subtable{{[]int{3, 0}[p], []int{1, 3}[p], format4(segs...)}}
	all := []rune{'A', 'C', 'D', 0x20AC, 0x20AD, 0xFFFE, 0x1F600}
	i := sym.Choice("first", len(all)-1)
	j := i + 1 + sym.Choice("second", len(all)-1-i)
	check(t, []rune{all[i], all[j]}, []int{glyph(segs, int(all[i])), glyph(segs, int(all[j]))})
}

// HMap12: characters to glyphs, format 12, and the choice among subtables.
func HMap12() {
	sym.Bound("two groups with any 16-bit glyphs among 5 arrangements of subtables; 2 of 5 characters")
	a, b := int(sym.Uint16("a")), int(sym.Uint16("b"))
	sym.Assume(sym.And(a > 0, a < 0xFFF0, b > 0, b < 0xFFF0))
	full := format12([3]int{0x41, 0x43, a}, [3]int{0x1F600, 0x1F601, b})
	bmp := format4(segment{0x41, 0x43, 0, []int{101, 102, 103}})
	mac := cat(be16(0), be16(262), be16(0), make([]byte, 256))
	t := plain()
	k := sym.Choice("subtables", 5)
	t.maps = [][]subtable{{{3, 10, full}}, {{0, 3, bmp}, {3, 1, bmp}, {3, 10, full}}, {{1, 0, mac}, {3, 10, full}}, {{0, 4, full}, {1, 0, mac}}, {{1, 0, mac}, {3, 1, bmp}}}[k]
	all := []rune{'A', 'C', 'D', 0x1F600, 0x1F602}
	g := []int{a, a + 2, 0, b, 0}
	if k == 4 {
		g = []int{101, 103, 0, 0, 0}
	}
	i := sym.Choice("first", len(all)-1)
	j := i + 1 + sym.Choice("second", len(all)-1-i)
	check(t, []rune{all[i], all[j]}, []int{g[i], g[j]})
}

// HWidths: the advance widths.
func HWidths() {
	sym.Bound("1 to 3 metrics with any widths for glyphs 0, 1, 2, 5 and 16385 of 20000")
	t := plain()
	n := 1 + sym.Choice("n", 3)
	t.advance = nil
	for i := 0; i < n; i++ {
		t.advance = append(t.advance, int(sym.Uint16("w")))
	}
	gids := []int{1, 2, 5, 16385}
	k := sym.Choice("glyph", len(gids))
	t.maps = []subtable{{3, 1, format4(segment{0x41, 0x41, 0, []int{gids[k]}})}}
	t.glyphs = 20000
	f, err := font.NewFont("X", t.bytes())
	sym.Assert(err == nil, "a font is accepted")
	f.AddString("A")
	w, err := f.GetWidths()
	sym.Assert(err == nil && len(w) == 2, "a width for each glyph")
	sym.Assert(w[0] == t.advance[0], "width of glyph 0")
	sym.Assert(w[1] == t.advance[lib.MinI(gids[k], n-1)], "width of the glyph")
	sym.Reach("compared")
}

// embed makes a page with text in the font and returns it read strictly.
func embed(b []byte, text string) (*lib.Strict, *lib.Val, []byte) {
	f, err := font.NewFont("X", b)
	sym.Assert(err == nil, "a font is accepted")
	f.AddString(text)
	bld := write.NewSimplePDFBuilder()
	p := bld.AddPage(write.PageSizeA4)
	r, err := p.AddEmbeddedFont(f)
	sym.Assert(err == nil, "a font is embedded")
	p.Content().BeginText().SetFont(r, 12).SetTextPosition(10, 20).ShowText(text).EndText()
	bld.FinalizePage(p)
	out, err := bld.Bytes()
	sym.Assert(err == nil, "the document is written")
	s := lib.ReadTable(out)
	cat := s.Val(s.Trailer.Get("Root").Ref())
	page := s.Val(s.Val(cat.Get("Pages").Ref()).Get("Kids").Vals[0].Ref())
	fonts := page.Get("Resources").Get("Font")
	d := s.Val(fonts.Get(r[1:]).Ref())
	sym.Assert(d != nil, "the font is a resource of the page")
	return s, d, out
}

func is(v *lib.Val, n int) bool { return v != nil && v.Int() == n }

// near tells whether v is n font units in thousandths of an em, rounded in some way.
func near(v *lib.Val, n, upem int) bool {
	if v == nil {
		return false
	}
	e := v.Int()*upem - n*1000
	return e < upem && e > -upem
}

// HEmbed: the font dictionary and its parts.
func HEmbed() {
	sym.Bound("any width of 2 glyphs in fonts of 3 unit sizes, shown with one or both characters")
	t := plain()
	k := sym.Choice("upem", 3)
	t.upem = []int{1000, 2048, 500}[k]
	w := [2]int{int(sym.Uint16("w")), int(sym.Uint16("v"))}
	sym.Assume(sym.And(w[0] < 4096, w[1] < 4096))
	t.advance = []int{100, w[0], w[1], 300}
	t.maps = []subtable{{3, 1, format4(segment{0x41, 0x43, -0x40, nil})}}
	t.fixed = sym.Choice("fixed", 2)
	t.italic = -sym.Choice("italic", 2) << 16
	b := t.bytes()
	s, d, _ := embed(b, []string{"A", "AB"}[sym.Choice("text", 2)])
	sym.Assert(d.Get("Type").Is("Font") && d.Get("Subtype").Is("TrueType"), "a TrueType font")
	sym.Assert(d.Get("Encoding").Is("WinAnsiEncoding"), "codes have a meaning")
	first, last := d.Get("FirstChar").Int(), d.Get("LastChar").Int()
	sym.Assert(first <= 0x41 && last >= 0x41, "the codes shown have widths")
	sym.Assert(len(d.Get("Widths").Vals) == last-first+1, "a width for each code")
	for i := 0; i < 3; i++ {
		if c := 0x41 + i; c <= last {
			a := d.Get("Widths").Vals[c-first].Int()
			e := a*t.upem - t.advance[i+1]*1000
			sym.Assert(sym.And(2*e <= t.upem, 2*e >= -t.upem), "the width in thousandths of an em")
		}
	}
	fd := s.Val(d.Get("FontDescriptor").Ref())
	sym.Assert(fd.Get("Type").Is("FontDescriptor"), "a font descriptor")
	sym.Assert(sym.EqB(fd.Get("FontName").S, d.Get("BaseFont").S), "the names agree")
	flags := fd.Get("Flags").Int()
	sym.Assert(flags&32 != 0 && flags&4 == 0 && flags&1 == t.fixed && (flags&64 != 0) == (t.italic != 0), "flags")
	sym.Assert(near(fd.Get("Ascent"), t.ascent, t.upem) && near(fd.Get("Descent"), t.descent, t.upem), "ascent and descent in thousandths of an em")
	box := fd.Get("FontBBox").Vals
	sym.Assert(len(box) == 4 && box[0].Int() <= -10*1000/t.upem+1 && box[3].Int() >= 40*1000/t.upem-1, "the box contains the glyphs")
	var err error
	fv, data, ok := s.StreamData(fd.Get("FontFile2").Ref())
	if fv.Get("Filter").Is("FlateDecode") {
		data, err = parse.DecodeFlateDecode(data)
		ok = ok && err == nil
	}
	sym.Assert(ok && sym.EqB(data, b), "the font file")
	sym.Assert(is(fv.Get("Length1"), len(b)), "its length")
	_, _, ok = s.StreamData(d.Get("ToUnicode").Ref())
	sym.Assert(ok, "a ToUnicode map")
	sym.Reach("compared")
}

// HText: text shown with the font is the text extracted.
func HText() {
	sym.Bound("text of two characters, the first any printable ASCII, in fonts with 3 arrangements of glyphs (one glyph for several characters, format 12)")
	t := plain()
	k := sym.Choice("glyphs", 3)
	t.maps = [][]subtable{{{3, 1, ascii(-29)}}, {{3, 1, format4(segment{0x20, 0x7E, 0, make([]int, 95)}, segment{0xA0, 0xA0, 3 - 0xA0, nil})}}, {{3, 10, format12([3]int{0x20, 0x7E, 300}, [3]int{0x2020, 0x2022, 301})}}}[k]
	sym.MapOrders(2)
	c := sym.Byte("c")
	sym.Assume(c > ' ' && c <= '~')
	text := string([]byte{c}) + "g"
	_, _, out := embed(t.bytes(), text)
	d, err := extract.ExtractContent(out, nil, false)
	sym.Assert(err == nil && len(d.Pages) == 1 && len(d.Pages[0].Text) == 1, "the text is found")
	sym.Assert(sym.EqS(d.Pages[0].Text[0].Text, text), "the text shown is the text extracted")
	sym.Reach("compared")
}

// HBaseFont: names of fonts become names and strings of PDF.
func HBaseFont() {
	sym.Bound("PostScript and family names of any one character of the basic plane and a letter")
	t := plain()
	n := append(sym.Bytes("u", 2), 0, 'B')
	if sym.Choice("both", 2) == 1 {
		n = append([]byte{0, 'A'}, sym.Bytes("u", 2)...)
	}
	want := runes(n)
	for _, r := range want {
		sym.Assume(r != 0 && r != 0xFFFD)
	}
	t.names = []name{{3, 1, 6, n}, {3, 1, 1, n}}
	s, d, _ := embed(t.bytes(), "A")
	b := string(d.Get("BaseFont").S)
	i := lib.Index(b, "+")
	sym.Assert(i == 6, "a tag of six letters")
	sym.Assert(sym.EqS(b[7:], string(want)), "the name of the font")
	fam := s.Val(d.Get("FontDescriptor").Ref()).Get("FontFamily")
	got := string(fam.S)
	if len(got) >= 2 && got[0] == 0xFE && got[1] == 0xFF {
		got = string(runes([]byte(got[2:])))
	} else {
		for j := 0; j < len(got); j++ {
			sym.Assert(got[j] < 128, "a plain string is ASCII")
		}
	}
	sym.Assert(sym.EqS(got, string(want)), "the family of the font")
	sym.Reach("compared")
}

// HBroken: fonts that are not well-formed.
func HBroken() {
	sym.Bound("a font with any byte of its directory or tables changed to any other, cut off anywhere, or without one table; all functions return, and a missing or short table is an error")
	t := plain()
	t.glyphs = 9
	t.maps = [][]subtable{{{3, 1, format4(segment{0x41, 0x43, 0, []int{1, 2, 3}})}}, {{3, 10, format12([3]int{0x41, 0x43, 1})}}}[sym.Choice("map", 2)]
	b := t.bytes()
	switch sym.Choice("what", 3) {
	case 0:
		i := sym.Choice("at", len(b))
		if i >= 140+12 && i < 140+12+60 { // the ranges of the map
			b[i] = []byte{0, 1, 2, 0x10, 0x7f, 0x80, 0xff}[sym.Choice("range", 7)]
		} else {
			b[i] = sym.Byte("b")
		}
		if sym.Thorough() && i+1 < len(b) {
			b[i+1] = sym.Byte("c")
		}
	case 1:
		b = b[:sym.Choice("cut", len(b)-4)]
		_, err := font.ParseTTF(b)
		sym.Assert(err != nil, "a font cut off is refused")
	case 2:
		t.without = []string{"head", "maxp", "hhea", "name", "post"}[sym.Choice("table", 5)]
		b = t.bytes()
		_, err := font.ParseTTF(b)
		sym.Assert(err != nil, "a font without a required table is refused")
	}
	font.ParseTTF(b)
	if f, err := font.NewFont("X", b); err == nil {
		f.AddString("AB")
		f.GetSubsetGlyphs()
		f.GetWidths()
		p := write.NewSimplePDFBuilder().AddPage(write.PageSizeA4)
		p.AddEmbeddedFont(f)
	}
	sym.Reach("returned")
}
