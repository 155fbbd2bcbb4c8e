// Package c12: document metadata written with SetMetadata reads back.
package c12

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

const date = "D:20240229123456+01'00"

func get(m *types.DocumentMetadata, k int) string {
	return []string{m.Title, m.Author, m.Subject, m.Keywords, m.Creator, m.Producer}[k]
}

var keys = []string{"/Title", "/Author", "/Subject", "/Keywords", "/Creator", "/Producer"}

func put(m *types.DocumentMetadata, k int, v string) {
	*[]*string{&m.Title, &m.Author, &m.Subject, &m.Keywords, &m.Creator, &m.Producer}[k] = v
}

// doc builds a document of two pages with the metadata, in one of three forms.
func doc(m *types.DocumentMetadata, form int) []byte {
	b := write.NewSimplePDFBuilder()
	switch form {
	case 1:
		b.Writer().UseXRefStream(true)
	case 2:
		b.Writer().UseObjectStream(true)
	}
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	b.Writer().SetMetadata(m)
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	out, err := b.Bytes()
	sym.Assert(err == nil, "not built")
	return out
}

func meta(pdf []byte) *types.DocumentMetadata {
	p, err := parse.Open(pdf)
	sym.Assert(err == nil, "does not open")
	m, err := extract.ExtractMetadata(pdf, p, false)
	sym.Assert(err == nil && m != nil, "metadata not extracted")
	return m
}

// rune8 returns one arbitrary character of n bytes in UTF-8 and its UTF-16BE form.
func rune8(name string, n int) (string, []byte) {
	c := uint32(sym.Uint16(name))
	switch n {
	case 2:
		sym.Assume(sym.And(c >= 0x80, c < 0x800))
		return string([]byte{byte(0xC0 | c>>6), byte(0x80 | c&63)}), []byte{byte(c >> 8), byte(c)}
	case 3:
		sym.Assume(sym.And(c >= 0x800, sym.Or(c < 0xD800, c >= 0xE000)))
		return string([]byte{byte(0xE0 | c>>12), byte(0x80 | c>>6&63), byte(0x80 | c&63)}), []byte{byte(c >> 8), byte(c)}
	}
	c |= uint32(sym.Choice(name+"plane", 16)+1) << 16
	hi, lo := 0xD800|(c-0x10000)>>10, 0xDC00|c&0x3FF
	return string([]byte{byte(0xF0 | c>>18), byte(0x80 | c>>12&63), byte(0x80 | c>>6&63), byte(0x80 | c&63)}),
		[]byte{byte(hi >> 8), byte(hi), byte(lo >> 8), byte(lo)}
}

// text returns an arbitrary text: ASCII, or with one arbitrary other character.
func text(name string, max int) string {
	n := sym.Choice(name+"kind", max+3)
	a := sym.Bytes(name, lib.MinI(n+1, max-1))
	for _, c := range a {
		sym.Assume(c < 0x80)
	}
	if n < max {
		return string(a)
	}
	r, _ := rune8(name+"r", n-max+2)
	return string(a[:1]) + r + string(a[1:])
}

func same(a, b string, what string) { sym.Assert(sym.EqS(a, b), what) }

// HText: any text in any of the fields.
func HText() {
	sym.Bound("values of 1 to 3 (thorough 4) ASCII bytes or one arbitrary further Unicode character between 2 (3) ASCII bytes, in each of the six fields, with tables, xref streams and object streams")
	k := sym.Choice("field", 6)
	v := text("v", lib.Max(3, 4))
	m := &types.DocumentMetadata{ModDate: date}
	for i := range keys {
		if i != k {
			put(m, i, "other "+lib.Itoa(i))
		}
	}
	put(m, k, v)
	g := meta(doc(m, k%3))
	for i := range keys {
		if i != k {
			sym.Assert(get(g, i) == "other "+lib.Itoa(i), "another field changed")
		}
	}
	same(get(g, k), v, "value differs")
	sym.Assert(g.ModDate == date && g.CreationDate == "" && len(g.Custom) == 0, "fields appeared or dates differ")
	sym.Assert(g.PageCount == 2 && g.PDFVersion == "1.7" && !g.Encrypted, "properties of the document differ")
	sym.Reach("field")
}

// HReader: a reader of PDF text strings sees the same.
func HReader() {
	sym.Bound("as HText, read by an independent strict parser, values of 1 to 2 ASCII bytes and all planes")
	n := sym.Choice("kind", 5)
	a := sym.Bytes("a", lib.MinI(n+1, 2))
	for _, c := range a {
		sym.Assume(c < 0x80)
	}
	v, want := string(a), a
	if n >= 2 {
		r, u := rune8("r", n)
		v = string(a[:1]) + r + string(a[1:])
		want = append([]byte{0xFE, 0xFF, 0, a[0]}, append(u, 0, a[1])...)
	}
	m := &types.DocumentMetadata{Title: v, ModDate: date, Custom: map[string]string{"Mine": v}}
	s := lib.ReadTable(doc(m, 0))
	sym.Assert(s != nil, "file malformed")
	info := s.Val(s.Trailer.Get("Info").Ref())
	for _, k := range []string{"Title", "Mine"} {
		x := info.Get(k)
		sym.Assert(x != nil && x.Kind == 's' && info.Count(k) == 1, "no string written")
		sym.Assert(sym.EqB(x.S, want), "another text written")
	}
	sym.Assert(len(info.Keys) == 3, "entries appeared")
	sym.Reach("reader")
}

// HCustom: custom fields of any name and value.
func HCustom() {
	sym.Bound("custom names of 1 to 2 (thorough 3) arbitrary bytes (not NUL, not starting with a solidus) with and without solidus in front, values of 1 ASCII byte, beside standard fields")
	kind := sym.Choice("kind", 3)
	m := &types.DocumentMetadata{Title: "The title", ModDate: date, Custom: map[string]string{"Other": "x (y"}}
	if kind == 2 {
		// a custom field does not replace a standard one
		m.Custom["Title"] = "custom"
		m.Custom["/Title"] = "custom"
		g := meta(doc(m, 0))
		sym.Assert(g.Title == "The title" && len(g.Custom) == 1 && g.Custom["Other"] == "x (y", "standard field replaced")
		sym.Reach("custom title")
		return
	}
	key := sym.Bytes("key", 1+sym.Choice("len", lib.Max(2, 3)))
	for i, c := range key {
		sym.Assume(c != 0)
		if i == 0 {
			sym.Assume(c != '/')
		}
	}
	val := sym.Bytes("val", 1)
	for _, c := range val {
		sym.Assume(c < 0x80)
	}
	name := string(key)
	if kind == 1 {
		name = "/" + name
	}
	m.Custom[name] = string(val)
	g := meta(doc(m, (kind+len(key))%3))
	sym.Assert(g.Title == "The title" && g.ModDate == date && g.Custom["Other"] == "x (y", "other fields changed")
	sym.Assert(len(g.Custom) == 2, "number of custom fields differs")
	for k, v := range g.Custom {
		if k != "Other" {
			same(k, string(key), "name differs")
			same(v, string(val), "value differs")
		}
	}
	sym.Reach("custom")
}

// digits returns n arbitrary decimal digits.
func digits(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(sym.And(c >= '0', c <= '9'))
	}
	return b
}

// HDate: PDF dates stay as they are, ISO dates become PDF dates.
func HDate() {
	form := sym.Choice("form", 6)
	sym.Bound("PDF dates of 3 arbitrary ASCII characters after D:; 7 ISO dates (2 with time zones in quick) with and without time, all minutes and seconds below 60, time zones of both signs with 4 hours and 3 minutes")
	m := &types.DocumentMetadata{Title: "t"}
	var in, want string
	if form == 0 {
		x := sym.Bytes("x", 3)
		for _, c := range x {
			sym.Assume(c < 0x80)
		}
		in = "D:" + string(x)
		want = in
	} else {
		dates := []string{"20240229", "19991231", "20000101", "20000228", "19990101", "20230228", "20241231"}
		n := len(dates)
		if form == 5 {
			n = lib.Max(2, n)
		}
		x := dates[sym.Choice("date", n)]
		y, md := x[:4], x[4:]
		day := y + md
		iso := y + "-" + md[:2] + "-" + md[2:]
		t := digits("t", 4)
		if form == 5 {
			t[0], t[1] = '0', '5'
		}
		sym.Assume(t[0] <= '5')
		sym.Assume(t[2] <= '5')
		mm, ss := string(t[:2]), string(t[2:])
		zh, zm := "", ""
		if form == 5 {
			zh = []string{"00", "01", "05", "14"}[sym.Choice("zh", 4)]
			zm = []string{"00", "30", "45"}[sym.Choice("zm", 3)]
		}
		switch form {
		case 1:
			in, want = iso, "D:"+day+"000000+00'00"
		case 2:
			in, want = iso+"T23:"+mm+":"+ss, "D:"+day+"23"+mm+ss+"+00'00"
		case 3:
			in, want = iso+" 07:"+mm+":"+ss, "D:"+day+"07"+mm+ss+"+00'00"
		case 4:
			in, want = iso+"T23:"+mm+":"+ss+"Z", "D:"+day+"23"+mm+ss+"+00'00"
		case 5:
			neg := sym.Choice("neg", 2)
			s := "+-"[neg : neg+1]
			in, want = iso+"T23:"+mm+":"+ss+s+zh+":"+zm, "D:"+day+"23"+mm+ss+s+zh+"'"+zm
			sym.Assume(neg == 0 || zh+zm != "0000")
		}
	}
	if sym.Choice("which", 2) == 0 {
		m.ModDate = in
		g := meta(doc(m, 0))
		same(g.ModDate, want, "modification date differs")
	} else {
		m.CreationDate, m.ModDate = in, date
		g := meta(doc(m, 0))
		same(g.CreationDate, want, "creation date differs")
		sym.Assert(g.ModDate == date, "modification date differs")
	}
	sym.Reach("date " + lib.Itoa(form))
}

// HFields: the convenience map gives the same as the structure.
func HFields() {
	sym.Bound("every field through SetMetadataFields, in lower and title case, custom fields beside")
	v := sym.Bytes("v", 2)
	for _, c := range v {
		sym.Assume(sym.And(c < 0x80, c != 0))
	}
	names := []string{"title", "Author", "SUBJECT", "keywords", "Creator", "producer"}
	k := sym.Choice("field", 7)
	b := write.NewSimplePDFBuilder()
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	f := map[string]string{"ModDate": date, "creation_date": "2023-12-31", "Mine": "a\\b", "title": "T"}
	if k < 6 {
		f[names[k]] = string(v)
	} else {
		v[0] = 'C'
		f["Own"+string(v[1:])+":"] = "own"
		f["Own"] = "x"
	}
	n := b.Writer().SetMetadataFields(f)
	out, err := b.Bytes()
	sym.Assert(err == nil && n > 0, "not built")
	g := meta(out)
	sym.Assert(g.ModDate == date && g.CreationDate == "D:20231231000000+00'00" && g.Custom["Mine"] == "a\\b", "fields differ")
	if k < 6 {
		same(get(g, k), string(v), "field differs")
		sym.Assert(len(g.Custom) == 1, "custom fields appeared")
	} else {
		n := 0
		for key, val := range g.Custom {
			if key != "Mine" && key != "Own" {
				n++
				same(key, "Own"+string(v[1:])+":", "name of the custom field differs")
				same(val, "own", "custom field differs")
			}
		}
		sym.Assert(n == 1 && g.Custom["Own"] == "x", "custom fields differ")
	}
	if k != 0 {
		sym.Assert(g.Title == "T", "title differs")
	}
	sym.Reach("fields")
}

// HForeign: Info dictionaries of other producers.
func HForeign() {
	sym.Bound("values of 0 to 3 bytes as literal (three escapings) or hexadecimal string, or UTF-16BE with an arbitrary character, keys in any order, comments, nested dictionaries with the same keys, names, numbers and references beside, in a table, xref stream or object stream; info in an incremental update")
	var v, want string
	how := sym.Choice("how", 6)
	if how < 4 {
		b := sym.Bytes("v", sym.Choice("n", 4))
		for i, c := range b {
			sym.Assume(c < 0x80)
			_ = i
		}
		want = string(b)
		v = lib.Hex(b)
		if how < 3 {
			v = lib.Lit(b, how)
		}
	} else {
		r, u := rune8("r", how-2)
		want = "A" + r
		u = append([]byte{0xFE, 0xFF, 0, 'A'}, u...)
		v = lib.Lit(u, 1)
		if sym.Choice("hex", 2) == 1 {
			v = lib.Hex(u)
		}
	}
	var info string
	switch sym.Choice("layout", 3) {
	case 0:
		info = "<</Nested<</Title(no)/Author(no)>>/Author(/Title (x))/Title" + v + "/Trapped/True/N 5/M[(/Title) (a)]/Ref 1 0 R/Company(C)>>"
	case 1:
		info = "<< % /Title (no)\n/Title " + v + "\r\n/Author\t(/Title \\(x\\))\n/Company <43> >>"
	case 2:
		info = "<</Titles(no)/TitleX/Title/Author(/Title (x))/Title" + v + "/Company(C)>>"
	}
	d := lib.NewDoc("1.4")
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[3 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 10 10]>>")
	d.Obj(4, info)
	d.Table([]int{1, 2, 3, 4}, "/Root 1 0 R/Info 4 0 R")
	g := meta(d.B)
	same(g.Title, want, "title differs")
	sym.Assert(g.Author == "/Title (x)" && g.Custom["Company"] == "C", "other fields differ")
	sym.Assert(g.PageCount == 1 && g.PDFVersion == "1.4" && !g.Encrypted, "document properties differ")
	sym.Reach("foreign")
}
