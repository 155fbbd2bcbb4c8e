// Package c19: the packets of an XFA form are read, replaced and written exactly.
package c19

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// layouts of the file
const (
	inline   = iota // the form is part of the catalog
	separate        // form, array and its strings are objects of their own
	streams         // catalog, form and array lie in an object stream
	updated         // a later revision replaces the form and its streams
	rc4             // encrypted with RC4
	aes             // encrypted with AES-128
	nLayouts
)

// filters of the packets' streams
const (
	plain  = iota
	flate  // /Filter /FlateDecode
	hex    // /Filter [/ASCIIHexDecode]
	both   // /Filter [/ASCIIHexDecode /FlateDecode]
	length // unfiltered, with a /Length that is an object of its own
	nFilters
)

var password = []byte("secret")

type packet struct {
	name string
	data []byte
	num  int
}

type file struct {
	pdf     []byte
	bodies  map[int]lib.Content
	packets []*packet
	std     *lib.Std
}

func (f *file) pw() []byte {
	if f.std != nil {
		return password
	}
	return nil
}

// info opens the file to learn how it is encrypted.
func (f *file) info() *types.PDFEncryption {
	if f.std == nil {
		return nil
	}
	p, err := parse.OpenWithOptions(f.pdf, parse.ParseOptions{Password: password})
	sym.Assert(err == nil, "does not open")
	return p.Encryption()
}

// decoy is what must not be taken for the form.
const decoy = "<< /AcroForm << /XFA [(datasets) 6 0 R (template) 6 0 R] >> /XFA [(datasets) 6 0 R] /S (stream /AcroForm 6 0 R) >>"

// write makes a file of which the form has the packets in the given order.
func write(packets []*packet, layout, filter int, hexNames bool) *file {
	f := lib.NewFile(false)
	r := &file{packets: packets}
	id := make([]byte, 16)
	aes128 := layout == aes
	if layout == rc4 || layout == aes {
		r.std = &lib.Std{V: 2, R: 3, Len: 16, P: 0xFFFFFFFC, ID: id, Meta: true, RC4: !aes128}
		if aes128 {
			r.std.V, r.std.R = 4, 4
		}
		r.std.Setup(password, []byte("owner"))
	}
	enc := func(n int, b []byte) []byte {
		if r.std == nil {
			return b
		}
		return r.std.Encrypt(n, 0, make([]byte, 16), b)
	}
	str := func(n int, s string) string {
		if hexNames || r.std != nil {
			return lib.Hex(enc(n, []byte(s)))
		}
		return lib.Lit([]byte(s), 0)
	}
	var inner []int
	var bodies [][]byte
	put := func(n int, body string) {
		if layout == streams {
			inner = append(inner, n)
			bodies = append(bodies, []byte(body))
			return
		}
		f.Direct(n, []byte(body))
	}
	stream := func(n int, dict string, data []byte, filter int) {
		switch filter {
		case flate:
			data = lib.Zlib(data)
			dict += " /Filter /FlateDecode"
		case hex:
			data = []byte(lib.Hex(data)[1:])
			dict += " /Filter [/ASCIIHexDecode]"
		case both:
			data = []byte(lib.Hex(lib.Zlib(data))[1:])
			dict += "/Filter[/ASCIIHexDecode/FlateDecode]"
		}
		data = enc(n, data)
		l := lib.Itoa(len(data))
		if filter == length {
			f.Direct(n+1, []byte(l))
			l = lib.Itoa(n+1) + " 0 R"
		}
		f.Direct(n, append(append([]byte("<< /DL (stream) "+dict+" /Length "+l+" >>\nstream\n"), data...), "\nendstream"...))
	}

	// Objects before and besides those of the form
	if r.std != nil {
		f.Direct(5, []byte("<< /S "+str(5, "plain")+" >>"))
	} else {
		f.Direct(5, []byte(decoy))
	}
	stream(6, "", []byte("<data>old</data>"), plain)
	if layout == updated {
		f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R /AcroForm 3 0 R >>"))
		f.Direct(2, []byte("<< /Type /Pages /Kids [] /Count 0 >>"))
		f.Direct(3, []byte("<< /Fields [] /XFA [(datasets) 10 0 R (template) 6 0 R] >>"))
		stream(10, "", []byte("<data>older</data>"), plain)
		f.End(0)
	}

	holder := 1
	if layout == separate || layout == streams || layout == updated {
		holder = 3
	}
	array := "["
	for i := len(packets) - 1; i >= 0; i-- {
		packets[i].num = 30 - 10*i
		stream(packets[i].num, "/Type /EmbeddedFile", packets[i].data, filter)
	}
	for i, p := range packets {
		name := str(holder, p.name)
		if layout == separate {
			put(40+i, name)
			name = lib.Itoa(40+i) + " 0 R"
		}
		array += name
		if i%2 == 1 || layout == separate {
			array += "\n"
		}
		array += lib.Itoa(p.num) + " 0 R "
	}
	array += "]"
	if layout == separate {
		put(4, array)
		array = "4 0 R"
	}
	form := "<< /DR << /XFA [(datasets) 6 0 R] >> /Fields [] /XFA " + array + " >>"
	if holder == 3 {
		put(3, form)
		form = "3 0 R"
	}
	put(1, "<< /Type /Catalog /PieceInfo << /AcroForm 6 0 R /XFA [] >> /Pages 2 0 R /AcroForm "+form+" >>")
	if layout != updated {
		f.Direct(2, []byte("<< /Type /Pages /Kids [] /Count 0 >>"))
	}
	end := 0
	if layout == streams {
		f.Compressed(50, inner, bodies)
		end = 51
	}
	if r.std != nil {
		d := "<< /Filter /Standard /V 2 /R 3 /Length 128 "
		if aes128 {
			d = "<< /Filter /Standard /V 4 /R 4 /Length 128 /CF << /StdCF << /CFM /AESV2 /Length 16 /AuthEvent /DocOpen >> >> /StmF /StdCF /StrF /StdCF "
		}
		f.Direct(60, []byte(d+"/P -4 /O "+lib.Hex(r.std.O)+" /U "+lib.Hex(r.std.U)+" >>"))
		f.Root = "1 0 R /Encrypt 60 0 R /ID [" + lib.Hex(id) + lib.Hex(id) + "]"
	}
	f.End(end)
	r.pdf, r.bodies = f.D.B, f.Now
	return r
}

// content returns a packet's data: one arbitrary letter, unless the file is encrypted.
func content(name, before, after string, layout int) []byte {
	l := []byte("L")
	if layout != rc4 && layout != aes {
		l = lib.Upper(name, 1)
	}
	return append(append([]byte(before), l...), after...)
}

var names = []string{"template", "datasets", "config", "localeSet", "connectionSet", "stylesheet", "xmp", "signature", "sourceSet"}

func named(s *xfa.XFAStreams, name string) **xfa.XFAStreamInfo {
	return map[string]**xfa.XFAStreamInfo{
		"template": &s.Template, "datasets": &s.Datasets, "config": &s.Config, "localeSet": &s.LocaleSet, "connectionSet": &s.ConnectionSet,
		"stylesheet": &s.Stylesheet, "xmp": &s.XMP, "signature": &s.Signature, "sourceSet": &s.SourceSet,
	}[name]
}

// expect compares the streams read with those of the form.
func expect(s *xfa.XFAStreams, packets []*packet, numbered bool, compressed int) {
	for _, n := range names {
		got := *named(s, n)
		var want *packet
		for _, p := range packets {
			if p.name == n {
				want = p
			}
		}
		if want == nil {
			sym.Assert(got == nil, "a stream the form does not have")
			continue
		}
		sym.Assert(got != nil && sym.EqB(got.Data, want.data), "data of a stream differs")
		sym.Assert(!numbered || got.ObjectNumber == want.num, "object number differs")
		sym.Assert(compressed < 0 || got.Compressed == (compressed == 1), "compression reported wrongly")
	}
}

// HRead: the streams of a form, however it is stored.
func HRead() {
	layout, filter := sym.Choice("layout", nLayouts), sym.Choice("filter", nFilters)
	sym.Bound("3 packets of which one is the preamble and one has any of the 9 names, one letter of each arbitrary; 6 layouts (RC4-128 and AES-128 encrypted, updated, object streams), 5 filter and length forms, literal and hexadecimal names")
	p := []*packet{
		{name: "preamble", data: []byte("<xdp:xdp>")},
		{name: names[sym.Choice("name", len(names))], data: content("a", "<a>\r\n", "\x00endobj</a>\n", layout)},
		{name: "datasets", data: content("b", "", "", layout)},
	}
	if p[1].name == "datasets" {
		p[2].name = "template"
	}
	f := write(p, layout, filter, sym.Choice("hex", 2) == 1)
	keep := append([]byte{}, f.pdf...)
	s, err := xfa.ExtractAllXFAStreams(f.pdf, f.info(), false)
	sym.Assert(err == nil, "streams not extracted")
	c := 1
	if filter == plain || filter == length {
		c = 0
	}
	expect(s, p, true, c)
	data, num, err := xfa.FindXFADatasetsStream(f.pdf, f.info(), false)
	for _, x := range p {
		if x.name == "datasets" {
			sym.Assert(err == nil && num == x.num && sym.EqB(data, x.data), "datasets stream differs")
		}
	}
	sym.Assert(sym.EqB(f.pdf, keep), "the document given was changed")
	sym.Reach("read")
}

// rest checks that everything but the given objects is as before.
func rest(f *file, out []byte, changed map[int]bool) {
	if f.std != nil {
		q, err := parse.OpenWithOptions(out, parse.ParseOptions{Password: password})
		sym.Assert(err == nil && q.IsEncrypted(), "result does not open with the password")
		_, err = parse.OpenWithOptions(out, parse.ParseOptions{Password: []byte("wrong")})
		sym.Assert(err != nil, "result opens without the password")
		o, err := q.GetObject(5)
		sym.Assert(err == nil, "object lost")
		v := lib.ParseAll(lib.Body(5, o))
		sym.Assert(v != nil && text(v.Get("S"), "plain"), "string differs")
		return
	}
	s := lib.ReadTable(out)
	sym.Assert(s != nil, "result is not a conforming file")
	sym.Assert(s.Trailer.Get("Root").Ref() == 1, "catalog differs")
	for n, c := range f.bodies {
		if n == 50 || n == 51 || changed[n] {
			continue
		}
		was, _ := lib.ParseVal(c.Body, 0)
		sym.Assert(same(was, s.Val(n)), "another object changed")
		if _, old, ok := lib.Stream(c.Body); ok {
			_, now, ok := s.StreamData(n)
			sym.Assert(ok && sym.EqB(old, now), "another stream changed")
		}
	}
	for n := range changed {
		d, _, ok := s.StreamData(n)
		sym.Assert(ok && d.Count("Length") == 1 && d.Count("Filter") == 1 && d.Get("Type").Is("EmbeddedFile") && text(d.Get("DL"), "stream"), "stream dictionary differs")
	}
}

func text(v *lib.Val, s string) bool {
	return v != nil && v.Kind == 's' && string(v.S) == s
}

func same(a, b *lib.Val) bool {
	if a == nil || b == nil || a.Kind != b.Kind || a.Num != b.Num {
		return a == nil && b == nil
	}
	if !sym.EqB(a.S, b.S) || len(a.Vals) != len(b.Vals) {
		return false
	}
	for i := range a.Vals {
		x := b.Vals[i]
		if a.Kind == 'd' {
			if b.Count(a.Keys[i]) != 1 {
				return false
			}
			x = b.Get(a.Keys[i])
		}
		if !same(a.Vals[i], x) {
			return false
		}
	}
	return true
}

// HRebuild: some streams get other data, everything else stays.
func HRebuild() {
	sym.RandConcrete()
	sym.Bound("3 packets with one arbitrary letter each, of which any subset of 2 is replaced by data of other lengths with an arbitrary letter; 6 layouts, 5 filter forms")
	layout, filter := sym.Choice("layout", nLayouts), sym.Choice("filter", nFilters)
	p := []*packet{
		{name: "template", data: content("a", "<a>", "</a>", layout)},
		{name: "postamble", data: []byte("</xdp:xdp>")},
		{name: "datasets", data: content("b", "<b>", "</b>", layout)},
	}
	f := write(p, layout, filter, false)
	keep := append([]byte{}, f.pdf...)
	s := &xfa.XFAStreams{}
	changed := map[int]bool{}
	which := sym.Choice("which", 3)
	if which != 0 {
		p[0].data = content("c", "", " longer than it was\nendstream\nendobj ", layout)
		s.Template = &xfa.XFAStreamInfo{Data: p[0].data}
		changed[p[0].num] = true
	}
	if which != 1 {
		p[2].data = content("d", "", "", layout)
		s.Datasets = &xfa.XFAStreamInfo{Data: p[2].data}
		changed[p[2].num] = true
	}
	out, err := xfa.RebuildPDFFromXFAStreams(f.pdf, s, f.info(), false)
	sym.Assert(err == nil, "not rebuilt")
	sym.Assert(sym.EqB(f.pdf, keep), "the document given was changed")
	rest(f, out, changed)
	g := &file{pdf: out, std: f.std}
	t, err := xfa.ExtractAllXFAStreams(out, g.info(), false)
	sym.Assert(err == nil, "streams of the result not extracted")
	expect(t, p, true, -1)
	sym.Reach("rebuilt")
}

// HFill: a value is set in the datasets, through the streams or the form.
func HFill() {
	sym.RandConcrete()
	sym.Bound("2 fields, one of which gets a value with one arbitrary letter and characters XML escapes, through UpdateXFAInPDF or a Form; 6 layouts, 5 filter forms")
	layout, filter := sym.Choice("layout", nLayouts), sym.Choice("filter", nFilters)
	l := string(content("v", "<", "&\"", layout))
	xml := func(v string) []byte {
		return []byte("<datasets><data><field name=\"a\"><value>1 2</value></field><field name=\"b\"><value>" + v + "</value></field></data></datasets>")
	}
	p := []*packet{
		{name: "datasets", data: xml("old")},
		{name: "template", data: []byte("<template><subform name=\"s\"><field name=\"b\"><ui><textEdit/></ui></field></subform></template>")},
	}
	f := write(p, layout, filter, false)
	keep := append([]byte{}, f.pdf...)
	data := types.FormData{"b": l, "unknown": "x"}
	var out []byte
	var err error
	if sym.Choice("entry", 2) == 0 {
		out, err = xfa.UpdateXFAInPDF(f.pdf, data, f.info(), false)
	} else {
		typ, e := forms.Detect(f.pdf, f.pw(), false)
		sym.Assert(e == nil && typ == forms.FormTypeXFA, "form not detected")
		form, e := forms.Extract(f.pdf, f.pw(), false)
		sym.Assert(e == nil && form.Type() == forms.FormTypeXFA, "form not extracted")
		v := form.GetValues()
		sym.Assert(len(v) == 2 && v["a"] == "1 2" && v["b"] == "old", "values differ")
		sym.Assert(len(form.Schema().Questions) == 1, "questions differ")
		out, err = form.Fill(f.pdf, data, f.pw(), false)
	}
	sym.Assert(err == nil, "not filled")
	sym.Assert(sym.EqB(f.pdf, keep), "the document given was changed")
	rest(f, out, map[int]bool{p[0].num: true})
	_, d, err := forms.ExtractXFA(out, f.pw(), false)
	sym.Assert(err == nil && d != nil && len(d.Fields) == 2, "fields of the result differ")
	b, ok := d.Fields["b"].(string)
	sym.Assert(ok && sym.EqS(b, l), "value differs")
	sym.Assert(d.Fields["a"] == "1 2", "another value differs")
	sym.Reach("filled")
}

// HBuild: a document made of streams alone.
func HBuild() {
	sym.Bound("2 of the 9 streams, data with one arbitrary letter")
	i, j := sym.Choice("i", len(names)), sym.Choice("j", len(names))
	sym.Assume(i < j)
	p := []*packet{
		{name: names[i], data: append(lib.Upper("a", 1), "</a>\nendstream endobj\r\n"...)},
		{name: names[j], data: append([]byte("\t <b>"), lib.Upper("b", 1)...)},
	}
	s := &xfa.XFAStreams{}
	for _, x := range p {
		*named(s, x.name) = &xfa.XFAStreamInfo{Data: x.data, ObjectNumber: 99}
	}
	out, err := xfa.BuildPDFFromXFAStreams(s, false)
	sym.Assert(err == nil, "not built")
	r := lib.ReadTable(out)
	sym.Assert(r != nil, "result is not a conforming file")
	cat := r.Val(r.Trailer.Get("Root").Ref())
	sym.Assert(cat != nil && cat.Get("Type").Is("Catalog"), "no catalog")
	pages := r.Val(cat.Get("Pages").Ref())
	sym.Assert(pages != nil && pages.Get("Type").Is("Pages"), "no page tree")
	t, err := xfa.ExtractAllXFAStreams(out, nil, false)
	sym.Assert(err == nil, "streams of the result not extracted")
	expect(t, p, false, -1)
	sym.Reach("built")
}
