// Package c21: whatever a file contains, reading it ends with a result or an error.
package c21

import (
	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/compare"
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// tails follow an arbitrary byte in the place of a number.
var tails = []string{"", "0", "2147483648", "9223372036854775808", " 0 R", " 0 R]"}

func digit(c byte) bool { return c >= '0' && c <= '9' }

// numbers returns where the numbers of b are.
func numbers(b []byte) [][2]int {
	var r [][2]int
	for i := 0; i < len(b); i++ {
		if !digit(b[i]) {
			continue
		}
		j := i
		for j < len(b) && (digit(b[j]) || b[j] == '.') {
			j++
		}
		r = append(r, [2]int{i, j})
		i = j
	}
	return r
}

func cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

// A part of a document is damaged: the bytes from one position to another.
type document struct {
	b        []byte
	from, to int
}

func hex(c byte) bool { return digit(c) || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f' }

// position is one of the places to damage: not those within long runs of digits.
func (d document) position() int {
	i := d.from + sym.Choice("at", d.to-d.from)
	if !sym.Thorough() && i > d.from+3 && i+3 < d.to {
		n := 0
		for j := i - 3; j <= i+3 && hex(d.b[j]); j++ {
			n++
		}
		sym.Assume(n < 7)
	}
	return i
}

// arbitrary returns b with arbitrary bytes at one place.
func (d document) arbitrary() ([]byte, int) {
	r := append([]byte{}, d.b...)
	i := d.position()
	r[i] = sym.Byte("b")
	if sym.Thorough() && i+1 < d.to {
		r[i+1] = sym.Byte("c")
	}
	return r, i
}

// damage returns b with another number, cut off or with a part missing or twice, and an
// arbitrary byte at that place.
func (d document) damage() ([]byte, int) {
	b := d.b
	sizes := []int{1, 9}
	if sym.Thorough() {
		sizes = []int{1, 2, 4, 9, 25}
	}
	kind := sym.Choice("damage", 4)
	x := []byte{sym.Byte("b")}
	if kind == 0 {
		n := numbers(b[d.from:d.to])
		k := sym.Choice("number", len(n))
		tail := sym.Choice("tail", len(tails))
		return cat(b[:d.from+n[k][0]], x, []byte(tails[tail]), b[d.from+n[k][1]:]), k + tail
	}
	i := d.position()
	if kind == 1 {
		return cat(b[:i], x), i
	}
	n := i % len(sizes)
	if sym.Thorough() {
		n = sym.Choice("n", len(sizes))
	}
	end := lib.MinI(i+sizes[n], d.to)
	if kind == 2 {
		return cat(b[:i], x, b[lib.MinI(end+1, len(b)):]), i
	}
	return cat(b[:end], x, b[i:]), i
}

// use calls one of the functions (thorough: each of them).
func use(b []byte, i int, f ...func([]byte)) {
	n := i % len(f)
	if sym.Thorough() {
		n = sym.Choice("use", len(f))
	}
	f[n](b)
	sym.Reach("returned")
}

const pages = "<< /Type /Pages /Kids [3 0 R] /Count 1 >>"

func stream(dict, data string) []byte {
	return []byte("<< " + dict + " /Length " + lib.Itoa(len(data)) + " >>\nstream\n" + data + "\nendstream")
}

// whole makes all of a file subject to damage.
func whole(f *lib.File, end int) document {
	f.End(end)
	return document{f.D.B, 0, len(f.D.B)}
}

func small() document {
	f := lib.NewFile(false)
	f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
	f.Direct(2, []byte(pages))
	f.Direct(3, []byte("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Contents 4 0 R >>"))
	f.Direct(4, stream("", "1 0 0 RG"))
	return whole(f, 0)
}

func xrefStream() document {
	f := lib.NewFile(false)
	f.Compressed(5, []int{1, 2, 3}, [][]byte{[]byte("<< /Type /Catalog /Pages 2 0 R >>"), []byte(pages), []byte("<< /Type /Page /Parent 2 0 R >>")})
	return whole(f, 6)
}

func updated() document {
	f := lib.NewFile(false)
	f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
	f.Direct(2, []byte(pages))
	f.End(0)
	f.Direct(3, []byte("<< /Type /Page /Parent 2 0 R >>"))
	return whole(f, 7)
}

func encrypted() document {
	f := lib.NewFile(false)
	s := &lib.Std{V: 1, R: 2, Len: 5, P: 0xFFFFFFFC, ID: make([]byte, 16), Meta: true, RC4: true}
	s.Setup(nil, []byte("owner"))
	f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
	f.Direct(2, []byte("<< /Type /Pages /Kids [] /Count 0 /S "+lib.Hex(s.Encrypt(2, 0, nil, []byte("text")))+" >>"))
	f.Direct(60, []byte("<< /Filter /Standard /V 1 /R 2 /Length 40 /P -4 /O "+lib.Hex(s.O)+" /U "+lib.Hex(s.U)+" >>"))
	f.Root = "1 0 R /Encrypt 60 0 R /ID [" + lib.Hex(s.ID) + lib.Hex(s.ID) + "]"
	return whole(f, 0)
}

// rich makes a file of which the given objects are subject to damage.
func rich(first, last int) document {
	var d document
	f := lib.NewFile(false)
	put := func(n int, b []byte) {
		if n == first {
			d.from = len(f.D.B)
		}
		f.Direct(n, b)
		if n == last {
			d.to = len(f.D.B)
		}
	}
	put(1, []byte("<< /Type /Catalog /Pages 2 0 R /Outlines 6 0 R /AcroForm << /Fields [8 0 R] /XFA [(datasets) 9 0 R] >> >>"))
	put(2, []byte("<< /Type /Pages /Kids [3 0 R] /Count 1 /MediaBox [0 0 9 9] /Rotate 90 >>"))
	put(3, []byte("<< /Type /Page /Parent 2 0 R /Contents [4 0 R] /Annots [8 0 R 12 0 R] /Resources << /Font << /F1 5 0 R >> /XObject << /I 10 0 R >> >> >>"))
	put(4, stream("", "BT /F1 9 Tf 1 0 0 1 5 5 Tm (A) Tj [(B) -20 <43>] TJ ET /I Do 1 2 3 4 re S"))
	put(5, []byte("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding << /Differences [65 /B] >> /ToUnicode 11 0 R >>"))
	put(11, stream("", "1 beginbfchar <41> <0042> endbfchar 1 beginbfrange <42> <43> <0061> endbfrange"))
	put(10, stream("/Subtype /Image /Width 2 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceRGB", "abcdef"))
	put(6, []byte("<< /First 7 0 R /Last 7 0 R /Count 1 >>"))
	put(7, []byte("<< /Title (\\101b) /Parent 6 0 R /Dest [3 0 R /XYZ 1 2 3] >>"))
	put(12, []byte("<< /Subtype /Link /Rect [1 2 3 4] /A << /S /URI /URI (u) >> /QuadPoints [1 2 3 4 5 6 7 8] >>"))
	put(13, []byte("<< /Title <FEFF0041> /CreationDate (D:20200102030405Z) /K (v) >>"))
	put(8, []byte("<< /Subtype /Widget /FT /Ch /T (f) /V (a) /Opt [[(a) (b)] (c)] /I [0] /Ff 131072 /MaxLen 3 /Rect [1 2 3 4] >>"))
	put(9, stream("", "<data><field name=\"f\"><value>1</value></field></data>"))
	f.Root = "1 0 R /Info 13 0 R"
	f.End(0)
	d.b = f.D.B
	return d
}

// open opens a file in each mode.
func open(b []byte, o parse.ParseOptions) {
	p, err := parse.OpenWithOptions(b, o)
	if err != nil {
		return
	}
	for _, n := range p.Objects() {
		p.GetObject(n)
		p.GetRawObject(n)
	}
	p.XFAPackets()
	if d := p.Document(); d != nil {
		d.Bytes()
		d.AllObjects()
	}
}

func normal(b []byte) { open(b, parse.ParseOptions{}) }

func perfect(b []byte) { open(b, parse.ParseOptions{BytePerfect: true}) }

// sections uses the functions below those.
func sections(b []byte) {
	if t, err := parse.ParsePDFTrailer(b); err == nil {
		parse.ParseCrossReferenceTable(b, t.StartXRef)
		parse.ParseXRefStreamFull(b, t.StartXRef, false)
		parse.ParseXRefDataRaw(b, t.StartXRef)
		parse.ParseTrailerDataRaw(b, t.StartXRef, len(b))
	}
	n := parse.CountRevisions(b)
	for i := 0; i <= n+1; i++ {
		parse.ExtractRevision(b, i)
	}
}

func objects(b []byte) {
	for n := 0; n < 7; n++ {
		parse.FindObjectByNumber(b, n, nil, false)
		parse.GetObject(b, n, nil, false)
	}
}

func security(b []byte) {
	encrypt.ExtractFileID(b, false)
	encrypt.ParseEncryptionDictionary(b, false)
	encrypt.DecryptPDF(b, nil, false)
}

func whole0(b []byte)     { extract.ExtractContent(b, nil, false) }
func pageImages(b []byte) { extract.ExtractPageImages(b, nil, false) }
func images(b []byte)     { extract.ExtractAllImages(b, nil, false) }

func form(b []byte) {
	forms.Detect(b, nil, false)
	if f, err := forms.Extract(b, nil, false); err == nil {
		f.GetValues()
		f.Schema()
		f.Fill(b, types.FormData{"f": "v"}, nil, false)
	}
}

func field(b []byte) {
	if a, err := acroform.ExtractAcroForm(b, nil, false); err == nil {
		a.ToFormSchema()
	}
}

func fill(b []byte)    { acroform.FillForm(b, types.FormData{"f": "c"}, nil, false) }
func flatten(b []byte) { acroform.FlattenForm(b, nil, false) }

func xml(b []byte) {
	xfa.ExtractAllXFAStreams(b, nil, false)
	xfa.UpdateXFAInPDF(b, types.FormData{"f": "v"}, nil, false)
}

func some(b []byte)  { manipulate.ExtractPages(b, []int{1}, nil, false) }
func merge(b []byte) { manipulate.MergePDFs([][]byte{b, b}, nil, false) }
func split(b []byte) { manipulate.SplitPDFByPageCount(b, 1, nil, false) }
func diff(b []byte)  { compare.ComparePDFs(b, b, nil, nil, false) }

func change(b []byte) {
	if m, err := manipulate.NewPDFManipulator(b, nil, false); err == nil {
		m.RotateAllPages(90)
		m.InsertPage(1, 0, nil)
		m.DeletePage(1)
		m.Rebuild()
	}
}

// files is one of the files whose structure is damaged.
func files() document {
	return []func() document{small, xrefStream, updated, encrypted}[sym.Choice("file", 4)]()
}

func HOpenByte() {
	sym.Bound("an arbitrary byte (thorough: two in a row) anywhere in 4 files: table, cross-reference and object stream, two revisions, encrypted; each position through one (thorough: all) of opening in both modes, sections, objects, decryption")
	b, i := files().arbitrary()
	use(b, i, normal, perfect, sections, objects, security)
}

func HOpenDamage() {
	sym.Bound("the same files with any number replaced by an arbitrary byte and 6 tails, cut off anywhere, or with 1 or 9 bytes missing or repeated anywhere and an arbitrary byte there")
	b, i := files().damage()
	use(b, i, normal, perfect, sections, objects, security)
}

func HContent() {
	sym.Bound("an arbitrary byte in the page, content stream, font, ToUnicode or image of a document, read in one (thorough: each) of 3 ways")
	b, i := rich(2, 10).arbitrary()
	use(b, i, whole0, whole0, pageImages, images)
}

func HItems() {
	sym.Bound("an arbitrary byte in the outline, link or information of a document")
	b, i := rich(6, 13).arbitrary()
	use(b, i, whole0)
}

func HForm() {
	sym.Bound("an arbitrary byte in the field or XFA data of a document, which is then read, filled or flattened")
	b, i := rich(8, 9).arbitrary()
	use(b, i, form, field, fill, flatten, xml)
}

func HChange() {
	sym.Bound("an arbitrary byte in the catalog or page tree of a document, whose pages are then extracted, merged, split, changed or compared")
	b, i := rich(1, 3).arbitrary()
	use(b, i, some, merge, split, change, diff)
}

func HDamage() {
	sym.Bound("a document with any number of an object replaced by an arbitrary byte and 6 tails, or with 1 or 9 bytes of an object missing or repeated anywhere and an arbitrary byte there, used in a way that concerns the object")
	switch sym.Choice("part", 4) {
	case 0:
		b, i := rich(2, 10).damage()
		use(b, i, whole0, whole0, pageImages, images)
	case 1:
		b, i := rich(6, 13).damage()
		use(b, i, whole0)
	case 2:
		b, i := rich(8, 9).damage()
		use(b, i, form, field, fill, flatten, xml)
	case 3:
		b, i := rich(1, 3).damage()
		use(b, i, some, merge, split, change, diff)
	}
}

// HOffsets: positions that come from a file may be anything.
func HOffsets() {
	sym.Bound("any position from -(2^62) to 2^62 given to the functions that read a cross-reference section, a trailer or an object of 2 files")
	b := []func() document{small, xrefStream}[sym.Choice("file", 2)]().b
	f := sym.Choice("function", 10)
	at := sym.Choice("at", len(b)+2) - 1
	if at < 0 {
		at = sym.Int("before", -(1 << 62), -1)
	} else if at == len(b) {
		at = sym.Int("after", len(b), 1<<62)
	}
	off := int64(at)
	switch f {
	case 0:
		parse.ParseCrossReferenceTable(b, off)
	case 1:
		parse.ParseTraditionalXRefTable(b, off)
	case 2:
		parse.ParseXRefStream(b, off)
	case 3:
		parse.ParseXRefStreamFull(b, off, false)
	case 4:
		parse.ParseXRefDataRaw(b, off)
	case 5:
		parse.ParseTrailerDataRaw(b, off, len(b))
	case 6:
		parse.ParseRawObject(b, 1, 0, off)
	case 7:
		parse.ParseRawObjectAt(b, off)
	case 8:
		parse.GetDirectObject(b, 1, off, nil, false)
	case 9:
		xfa.ReadObjectFromXRef(b, 1, 0, off, nil, false)
	}
	sym.Reach("returned")
}

func HNumbers() {
	sym.Bound("any object number, stream number, index or revision from -(2^62) to 2^62, in 2 files")
	b := []func() document{updated, xrefStream}[sym.Choice("file", 2)]().b
	n := sym.Int("n", -(1 << 62), 1<<62)
	switch sym.Choice("function", 5) {
	case 0:
		parse.ExtractRevision(b, n)
	case 1:
		parse.GetObjectFromStream(b, 1, 5, n, nil, false)
	case 2:
		if p, err := parse.Open(b); err == nil {
			p.GetObject(n)
			p.HasObject(n)
		}
	case 3:
		manipulate.ExtractPages(b, []int{n}, nil, false)
	case 4:
		manipulate.SplitPDFByPageCount(b, n, nil, false)
	}
	sym.Reach("returned")
}

const cmap = "1 begincodespacerange <00> <FF> endcodespacerange 1 beginbfchar <41> <00410042> endbfchar 2 beginbfrange <42> <43> <0061> <44> <45> [<0041> <D83DDE00>] endbfrange"

// HFont: the data that font dictionaries refer to.
func HFont() {
	sym.Bound("a ToUnicode character map, or an array of differences, damaged like the files of HDamage")
	d := document{[]byte(cmap), 0, len(cmap)}
	f := extract.NewFontDecoder("F")
	switch sym.Choice("what", 4) {
	case 3:
		f.ParseToUnicodeCMap("1 beginbfchar <0041> <0041> <0142> <D83DDE00> endbfchar")
		f.DecodeHex("<0041014" + sym.String("b", sym.Choice("n", 5)))
	case 0:
		b, _ := d.damage()
		f.ParseToUnicodeCMap(string(b))
	case 1:
		f.ParseToUnicodeCMap("1 beginbfrange <00> <7FFFFFF" + sym.String("b", 1) + "> <0041> endbfrange")
	case 2:
		s := "[65 /A /uni0042 /u1F600 255 /space]"
		b, _ := document{[]byte(s), 0, len(s)}.damage()
		f.ParseDifferencesArray(string(b))
	}
	f.Decode([]byte("ABDE\xff"))
	f.DecodeHex("<41424345ff4>")
	sym.Reach("returned")
}

// HPicture: a picture to be put on a page.
func HPicture() {
	sym.Bound("a JPEG header of at most 14 bytes, all arbitrary after the first two")
	n := 2 + sym.Choice("n", 13)
	b := append([]byte{0xff, 0xd8}, sym.Bytes("b", n-2)...)
	w := write.NewPDFWriter()
	w.AddJPEGImage(b, "I")
	sym.Reach("returned")
}

var packets = []string{
	"<template><subform name=\"s\"><field name=\"f\" type=\"text\" required=\"1\"><label>L</label><value>v</value><validation minLength=\"1\" pattern=\"p\"/><items><text>i</text></items></field></subform></template>",
	"<xfa:data a=\"1\"><field name=\"f\"><value>1</value></field><group name=\"g\"><field name=\"h\"><value/></field></group></xfa:data>",
	"<config><present><pdf><version>1.7</version></pdf></present><validate>1</validate><submit url=\"u\" method=\"m\"/></config>",
	"<localeSet default=\"en\"><locale code=\"en\" name=\"n\"><calendarSymbols><months><month abbr=\"a\">J</month></months></calendarSymbols></locale></localeSet>",
	"<connectionSet><connection name=\"c\" type=\"t\" dataSource=\"d\"><operation name=\"o\" type=\"t\"/></connection></connectionSet>",
	"<stylesheet><style name=\"s\" id=\"i\"><font name=\"f\" size=\"9\"/><color value=\"#fff\"/></style></stylesheet>",
}

// HPackets: the parts of an XFA form.
func HPackets() {
	sym.Bound("an arbitrary byte in one of the six kinds of XFA packet, or such a packet cut off there")
	k := sym.Choice("packet", len(packets))
	d := document{[]byte(packets[k]), 0, len(packets[k])}
	b, i := d.arbitrary()
	if i%4 == 0 {
		b = b[:i+1]
	}
	s := string(b)
	switch k {
	case 0:
		xfa.ParseXFAForm(s, false)
		parse.ParseXFAFields(s, false)
		xfa.UpdateXFAValues(s, types.FormData{"f": "w"}, false)
	case 1:
		xfa.ParseXFADatasets(s, false)
		xfa.UpdateXFAFieldValues(s, types.FormData{"f": "w"}, false)
	case 2:
		xfa.ParseXFAConfig(s, false)
	case 3:
		xfa.ParseXFALocaleSet(s, false)
	case 4:
		xfa.ParseXFAConnectionSet(s, false)
	case 5:
		xfa.ParseXFAStylesheet(s, false)
	}
	sym.Reach("returned")
}

// references returns where b refers to objects with numbers of one digit.
func references(b []byte) []int {
	var r []int
	for i := 1; i+4 < len(b); i++ {
		if digit(b[i]) && !digit(b[i-1]) && string(b[i+1:i+5]) == " 0 R" {
			r = append(r, i)
		}
	}
	return r
}

// HLoops: references that lead back.
func HLoops() {
	sym.Bound("5 documents (page tree of two levels with inherited values, nested form XObject, outlines of two levels, field tree, object streams, indirect lengths) in which any reference (thorough: any two) goes to any object; used in one (thorough: every) way")
	f := lib.NewFile(false)
	at := 0
	k := sym.Choice("document", 5)
	switch k {
	case 0:
		f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
		f.Direct(2, []byte("<< /Type /Pages /Kids [3 0 R 5 0 R] /Count 2 /Resources 6 0 R >>"))
		f.Direct(3, []byte("<< /Type /Pages /Parent 2 0 R /Kids [4 0 R] /Count 1 /MediaBox 7 0 R >>"))
		f.Direct(4, []byte("<< /Type /Page /Parent 3 0 R /Contents 8 0 R >>"))
		f.Direct(5, []byte("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] >>"))
		f.Direct(6, []byte("<< /XObject 9 0 R >>"))
		f.Direct(7, []byte("[0 0 9 9]"))
		f.Direct(8, []byte("[5 0 R]"))
		f.Direct(9, []byte("<< >>"))
	case 1:
		f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
		f.Direct(2, []byte("<< /Type /Pages /Kids [3 0 R] /Count 1 >>"))
		f.Direct(3, []byte("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Contents [4 0 R] /Resources << /XObject << /X 5 0 R >> /Font << /F 8 0 R >> >> >>"))
		f.Direct(4, []byte("<< /Length 6 0 R >>\nstream\n/X Do BT /F 9 Tf (A) Tj ET\nendstream"))
		f.Direct(6, []byte("25"))
		f.Direct(5, []byte("<< /Subtype /Form /BBox [0 0 9 9] /Length 7 0 R /Resources << /XObject << /X 9 0 R >> >> >>\nstream\n/X Do\nendstream"))
		f.Direct(7, []byte("5"))
		f.Direct(8, []byte("<< /Type /Font /Subtype /Type1 /BaseFont /F /ToUnicode 9 0 R /Encoding 9 0 R >>"))
		f.Direct(9, []byte("<< /Subtype /Image /Width 1 /Height 1 /ColorSpace /DeviceGray /BitsPerComponent 8 /Length 7 0 R >>\nstream\n/X Do\nendstream"))
	case 2:
		f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R /Outlines 4 0 R >>"))
		f.Direct(2, []byte("<< /Type /Pages /Kids [3 0 R] /Count 1 >>"))
		f.Direct(3, []byte("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Annots 9 0 R >>"))
		f.Direct(4, []byte("<< /First 5 0 R /Last 6 0 R /Count 2 >>"))
		f.Direct(5, []byte("<< /Title (a) /Parent 4 0 R /Next 6 0 R /First 7 0 R /Last 7 0 R >>"))
		f.Direct(6, []byte("<< /Title 8 0 R /Parent 4 0 R /Prev 5 0 R /Dest [3 0 R /Fit] >>"))
		f.Direct(7, []byte("<< /Title (c) /Parent 5 0 R /A << /S /GoTo /D [3 0 R /Fit] >> >>"))
		f.Direct(8, []byte("(b)"))
		f.Direct(9, []byte("[]"))
	case 3:
		f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R /AcroForm 4 0 R >>"))
		f.Direct(2, []byte("<< /Type /Pages /Kids [3 0 R] /Count 1 >>"))
		f.Direct(3, []byte("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Annots [7 0 R 8 0 R] >>"))
		f.Direct(4, []byte("<< /Fields 5 0 R >>"))
		f.Direct(5, []byte("[6 0 R]"))
		f.Direct(6, []byte("<< /FT /Btn /T (f) /V /Off /Kids [7 0 R 8 0 R] >>"))
		f.Direct(7, []byte("<< /Subtype /Widget /Parent 6 0 R /P 3 0 R /Rect [1 2 3 4] /AP << /N << /v 9 0 R >> >> >>"))
		f.Direct(8, []byte("<< /Subtype /Widget /Parent 6 0 R /P 3 0 R /Rect [1 2 3 4] /T (g) >>"))
		f.Direct(9, []byte("<< /Subtype /Form /BBox [0 0 2 2] /Length 0 >>\nstream\n\nendstream"))
	case 4:
		f.Compressed(5, []int{1, 2, 3, 4}, [][]byte{[]byte("<< /Type /Catalog /Pages 2 0 R >>"), []byte("<< /Type /Pages /Kids [3 0 R] /Count 1 >>"), []byte("<< /Type /Page /Parent 2 0 R /MediaBox 4 0 R /Contents 7 0 R >>"), []byte("[0 0 9 9]")})
		f.Direct(7, []byte("<< /Length 8 0 R >>\nstream\nq Q\nendstream"))
		f.Direct(8, []byte("3"))
		at = 6
	}
	f.End(at)
	b := f.D.B
	r := references(b)
	i := sym.Choice("reference", len(r))
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for j := 0; j < n; j++ {
		x := sym.Byte("object")
		sym.Assume(x >= '0' && x <= '9')
		b[r[(i+j*5)%len(r)]] = x
	}
	ways := []func([]byte){normal, perfect, objects, whole0, pageImages, images, some, merge, split, change, diff}
	if k == 3 {
		ways = []func([]byte){form, field, fill, flatten, whole0, some, merge, change}
	}
	if !sym.Thorough() {
		n = len(ways)
		i = sym.Choice("way", n)
	}
	use(b, i, ways...)
}

// HPrev: offsets of earlier revisions that lead back or anywhere.
func HPrev() {
	sym.Bound("a document of three revisions (with tables or with cross-reference streams) whose second or third has any three-digit /Prev")
	streams := sym.Choice("streams", 2)
	f := lib.NewFile(false)
	f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
	f.Direct(2, []byte(pages))
	f.End([]int{0, 5}[streams])
	f.Direct(3, []byte("<< /Type /Page /Parent 2 0 R >>"))
	f.End([]int{0, 6}[streams])
	f.Direct(4, []byte("null"))
	f.End([]int{0, 7}[streams])
	b := f.D.B
	var p []int
	for i := 0; i+9 < len(b); i++ {
		if string(b[i:i+6]) == "/Prev " && digit(b[i+8]) {
			p = append(p, i+6)
		}
	}
	sym.Assert(len(p) == 2, "harness: two numbers of three digits")
	i := sym.Choice("which", 2)
	at := sym.Int("prev", 0, 999)
	if !sym.Thorough() {
		at = sym.Concrete(at) // each position: the start of something or not
	}
	b[p[i]], b[p[i]+1], b[p[i]+2] = byte('0'+at/100), byte('0'+at/10%10), byte('0'+at%10)
	use(b, at, perfect, normal, sections, objects)
}

// HFilters: encoded data.
func HFilters() {
	sym.Bound("up to 5 (thorough: 7) arbitrary bytes through each filter")
	k := sym.Choice("filter", 4)
	m := 6
	if sym.Thorough() {
		m = 8
	}
	b := sym.Bytes("b", sym.Choice("n", m))
	parse.DecodeFilter(b, []string{"/ASCIIHexDecode", "/ASCII85Decode", "/RunLengthDecode", "/DCTDecode"}[k])
	sym.Reach("returned")
}

// HSecurity: damaged encryption dictionaries and encrypted data of any length.
func HSecurity() {
	sym.Bound("an encryption dictionary (RC4 128, AES 128, AES 256) damaged like the files of HDamage, with strings and a stream of 0 to 33 bytes")
	f := lib.NewFile(false)
	s := &lib.Std{V: 4, R: 4, Len: 16, P: 0xFFFFFFFC, ID: make([]byte, 16), Meta: true}
	s.Setup(nil, []byte("owner"))
	k := sym.Choice("kind", 3)
	dict := "<< /Filter /Standard /V 4 /R 4 /Length 128 /P -4 /CF << /StdCF << /CFM /AESV2 /Length 16 >> >> /StmF /StdCF /StrF /StdCF /O " + lib.Hex(s.O) + " /U " + lib.Hex(s.U) + " >>"
	if k == 1 {
		s = &lib.Std{V: 2, R: 3, Len: 16, P: 0xFFFFFFFC, ID: make([]byte, 16), Meta: true, RC4: true}
		s.Setup(nil, []byte("owner"))
		dict = "<< /Filter /Standard /V 2 /R 3 /Length 128 /P -4 /O " + lib.Hex(s.O) + " /U " + lib.Hex(s.U) + " >>"
	}
	if k == 2 {
		h := lib.Hex(make([]byte, 48))
		dict = "<< /Filter /Standard /V 5 /R 5 /Length 256 /P -4 /CF << /StdCF << /CFM /AESV3 /Length 32 >> >> /StmF /StdCF /StrF /StdCF /O " + h + " /U " + h + " /OE " + h + " /UE " + h + " /Perms " + lib.Hex(make([]byte, 16)) + " >>"
	}
	f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R >>"))
	f.Direct(2, []byte("<< /Type /Pages /Kids [] /Count 0 >>"))
	n := 0
	if sym.Choice("what", 2) == 0 {
		n = sym.Choice("length", 34)
		data := make([]byte, n)
		f.Direct(3, []byte("<< /S "+lib.Hex(data)+" >>"))
		f.Direct(4, stream("", string(data)))
	} else {
		d := document{[]byte(dict), 0, len(dict)}
		var x []byte
		x, n = d.damage()
		dict = string(x)
	}
	f.Direct(60, []byte(dict))
	f.Root = "1 0 R /Encrypt 60 0 R /ID [" + lib.Hex(s.ID) + lib.Hex(s.ID) + "]"
	f.End(0)
	use(f.D.B, n, normal, security, perfect, objects, whole0)
}
