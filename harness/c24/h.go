// Package c24: resources, images and annotations are extracted as the document defines them.
package c24

import (
	"encoding/base64"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

func close(f *lib.Doc) []byte {
	nums := []int{}
	for n := 1; n < 60; n++ {
		if _, ok := f.Off[n]; ok {
			nums = append(nums, n)
		}
	}
	f.Table(nums, "/Root 1 0 R")
	return f.B
}

func pages(b []byte) []types.Page {
	p, err := parse.Open(b)
	sym.Assert(err == nil, "does not open")
	ps, err := extract.ExtractPages(b, p, false)
	sym.Assert(err == nil, "pages not extracted")
	return ps
}

func ref(n int) string { return lib.Itoa(n) + " 0 R" }

// picture is an image of a test document.
type picture struct {
	w, h   int
	space  string
	bits   int
	data   []byte // as extraction gives it
	stored []byte // as the file has it
	filter string
	format string
}

// encode chooses how an image is stored
func (p *picture) encode(how int) {
	p.stored = p.data
	switch how {
	case 0:
		p.stored, p.filter, p.format = lib.Zlib(p.data), "/FlateDecode", "png"
	case 1:
		p.filter, p.format = "/DCTDecode", "jpeg"
	case 2:
		p.stored, p.filter, p.format = lib.Zlib(p.data), "[/FlateDecode /DCTDecode]", "jpeg"
	case 3:
		h := lib.Hex(p.data)
		p.stored, p.filter, p.format = []byte(h[1:]), "/ASCIIHexDecode", "unknown"
	case 4:
		z := lib.Zlib(p.data)
		p.stored, p.filter, p.format = []byte(lib.Hex(z)[1:]), "[/ASCIIHexDecode/FlateDecode]", "png"
	case 5:
		p.filter, p.format = "/JPXDecode", "jpeg2000"
	case 6:
		p.filter, p.format = "[ /CCITTFaxDecode ]", "tiff"
	case 7: // no filter
	}
}

func (p *picture) put(f *lib.Doc, n int, style int) {
	d := "/Type /XObject /Subtype /Image /Width " + lib.Itoa(p.w) + " /Height " + lib.Itoa(p.h) + " /ColorSpace " + p.space + " /BitsPerComponent " + lib.Itoa(p.bits)
	if style == 1 {
		d = "/BitsPerComponent " + lib.Itoa(p.bits) + "/ColorSpace" + p.space + "/Height " + lib.Itoa(p.h) + "/Metadata 50 0 R/Width " + lib.Itoa(p.w) + "/Subtype/Image"
	}
	if p.filter != "" {
		d += "/Filter " + p.filter
	}
	f.Stream(n, d, p.stored)
}

func (p *picture) is(im types.Image, id string) {
	sym.Assert(im.ID == id, "image has another name")
	sym.Assert(im.Width == p.w && im.Height == p.h, "image size differs")
	sym.Assert(im.ColorSpace == p.space && im.BitsPerComponent == p.bits, "image colors differ")
	sym.Assert(im.Filter == p.filter && im.Format == p.format, "image format differs")
	sym.Assert(sym.EqB(im.Data, p.data), "image data differs")
	sym.Assert(sym.EqS(im.DataBase64, base64.StdEncoding.EncodeToString(p.data)), "image data as text differs")
}

// HImages: the images of two pages.
func HImages() {
	how := sym.Choice("how", 8)
	where := sym.Choice("where", 5)
	share := sym.Choice("share", 3)
	n := 2 + sym.Choice("size", lib.Max(2, 4))
	sym.Bound("two images of 2 to 3 (thorough 5) arbitrary bytes each on two pages: the first stored in one of eight ways (filters and chains; fixed bytes for hexadecimal compressed data), with three widths, heights, color spaces and depths, the second with the same name on the other page; the first used by one page, by both under one name, or under another name too; XObject resources inline, objects, in a resource object, or inherited from the page tree; a form XObject beside them; dictionaries in two spellings")
	one := picture{w: []int{1, 31, 640}[how%3], h: []int{2, 5, 480}[share], space: []string{"/DeviceGray", "/DeviceRGB", "/DeviceCMYK"}[how%3], bits: []int{8, 1, 4}[share], data: sym.Bytes("one", n)}
	if how == 4 {
		one.data = []byte("zlib data")[:n]
	}
	one.encode(how)
	two := picture{w: 2, h: 1, space: "/DeviceGray", bits: 8, data: sym.Bytes("two", 2)}
	two.encode(where % 2)
	if how >= 1 && how <= 6 && how != 4 {
		lib.Calm(one.data)
	}
	lib.Calm(two.data)
	f := lib.NewDoc("1.5")
	one.put(f, 10, where%2)
	two.put(f, 11, share%2)
	f.Stream(12, "/Type /XObject /Subtype /Form /BBox [0 0 9 9]", []byte("0 0 9 9 re f"))
	f.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	// names of the images of each page
	names := [2]map[string]*picture{{"Im0": &one}, {"Im0": &two}}
	if share == 1 {
		names[1] = map[string]*picture{"Im0": &one, "X1": &two}
	} else if share == 2 {
		names[1]["B.w-2"] = &one
	}
	order := [2][]string{{"Im0"}, {"Im0"}}
	if share == 1 {
		order[1] = []string{"X1", "Im0"}
	} else if share == 2 {
		order[1] = []string{"Im0", "B.w-2"}
	}
	contents := ""
	for i := range names {
		dict := "/Fm1 12 0 R"
		content := "/Fm1 Do "
		for j, name := range order[i] {
			num := 11
			if names[i][name] == &one {
				num = 10
			}
			dict += "/" + name + " " + ref(num) + " "
			content += "q 10 0 0 20 " + lib.Itoa(30*j) + " 5 cm /" + name + " Do Q\n"
		}
		f.Stream(20+i, "", []byte(content))
		res := "<< /XObject << " + dict + " >> >>"
		switch where {
		case 1:
			f.Obj(22+i, "<< "+dict+" >>")
			res = "<</XObject " + ref(22+i) + ">>"
		case 2:
			f.Obj(22+i, res)
			res = ref(22 + i)
		case 3, 4: // each page has a parent of its own with the resources
			parent := "<< /Type /Pages /Parent 2 0 R /Count 1 /Kids [" + ref(30+i) + "] /Resources "
			if where == 4 {
				f.Obj(22+i, res)
				res = ref(22 + i)
			}
			f.Obj(40+i, parent+res+" >>")
			res = ""
		}
		page := "<< /Type /Page /MediaBox [0 0 300 300] /Contents " + ref(20+i) + " /Parent "
		if res == "" {
			f.Obj(30+i, page+ref(40+i)+" >>")
			contents += ref(40+i) + " "
		} else {
			f.Obj(30+i, page+"2 0 R /Resources "+res+" >>")
			contents += ref(30+i) + " "
		}
	}
	f.Obj(2, "<< /Type /Pages /Count 2 /Kids ["+contents+"] >>")
	b := close(f)

	// by page
	byPage, err := extract.ExtractPageImages(b, nil, false)
	sym.Assert(err == nil && len(byPage) == 2, "images of pages not extracted")
	for i := range names {
		sym.Assert(len(byPage[i]) == len(names[i]), "number of a page's images differs")
		for name, p := range names[i] {
			im, ok := byPage[i][name]
			sym.Assert(ok, "image of a page missing")
			p.is(im, "/"+name)
		}
	}
	// each once
	all, err := extract.ExtractAllImages(b, nil, false)
	sym.Assert(err == nil && len(all) == 2, "number of images differs")
	one.is(all[0], "/Im0")
	if share == 1 {
		two.is(all[1], "/X1")
	} else {
		two.is(all[1], "/Im0")
	}
	// the pages' resources, and where the images are
	ps := pages(b)
	sym.Assert(len(ps) == 2, "number of pages differs")
	for i := range names {
		r := ps[i].Resources
		sym.Assert(r != nil && len(r.Images) == len(names[i]) && len(r.XObjects) == len(names[i])+1, "number of a page's resources differs")
		sym.Assert(r.XObjects["Fm1"].Subtype == "/Form" && r.XObjects["Fm1"].ID == "/Fm1", "form differs")
		for name, p := range names[i] {
			im, x := r.Images[name], r.XObjects[name]
			sym.Assert(im.ID == "/"+name && im.Width == p.w && im.Height == p.h, "image resource differs")
			sym.Assert(x.ID == "/"+name && x.Subtype == "/Image" && x.Width == float64(p.w) && x.Height == float64(p.h), "XObject differs")
		}
		shown := 0
		for _, im := range ps[i].Images {
			if im.ImageID == "/Fm1" {
				continue
			}
			sym.Assert(shown < len(order[i]) && im.ImageID == "/"+order[i][shown], "image shown differs")
			sym.Assert(im.X == float64(30*shown) && im.Y == 5 && im.Width == 10 && im.Height == 20, "place of an image differs")
			shown++
		}
		sym.Assert(shown == len(order[i]), "number of images shown differs")
	}
	doc, err := extract.ExtractContent(b, nil, false)
	sym.Assert(err == nil && len(doc.Images) == 2, "number of the document's images differs")
	sym.Reach("images")
}

// HFonts: what the resources say of fonts.
func HFonts() {
	kind := sym.Choice("kind", 4)
	enc := sym.Choice("encoding", 5)
	file := sym.Choice("file", 4)
	where := sym.Choice("where", 3)
	sym.Bound("fonts of four kinds, five ways to give the encoding, no or one of three kinds of font program, base fonts and resource names with three arbitrary letters; descriptors and font dictionaries inline or objects, with the entries in two orders; a second font of the same name on a second page")
	name, res := string(lib.Upper("base", 3)), string(lib.Upper("name", 1))
	f := lib.NewDoc("1.5")
	subtype := []string{"/Type1", "/TrueType", "/MMType1", "/Type0"}[kind]
	base := "/" + name + []string{"", "-Bold", "-BoldItalic", ""}[kind]
	d := " /BaseFont " + base
	encoding := ""
	switch enc {
	case 1:
		d += " /Encoding /WinAnsiEncoding"
		encoding = "/WinAnsiEncoding"
	case 2:
		f.Obj(9, "/MacRomanEncoding")
		d += "/Encoding 9 0 R"
		encoding = "/MacRomanEncoding"
	case 3:
		d += " /Encoding << /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [1 /A] >>"
		encoding = "/WinAnsiEncoding"
	case 4:
		f.Obj(9, "<</Differences[1/Subtype]/BaseEncoding/MacRomanEncoding>>")
		d += "/Encoding 9 0 R"
		encoding = "/MacRomanEncoding"
	}
	if kind == 3 {
		encoding = "/Identity-H"
		d = " /BaseFont " + base + " /Encoding /Identity-H /DescendantFonts [8 0 R]"
		if where == 1 {
			f.Obj(15, "[8 0 R]")
			d = " /BaseFont " + base + "/Encoding/Identity-H/DescendantFonts 15 0 R"
		}
	}
	if enc%2 == 1 {
		d += " /ToUnicode 14 0 R"
		f.Stream(14, "", []byte("1 beginbfchar <41> <0042> endbfchar"))
	}
	desc := "<< /Type /FontDescriptor /FontName " + base + " /Flags 32 /ItalicAngle 0"
	family := name
	if file > 0 {
		desc += " " + []string{"", "/FontFile", "/FontFile2", "/FontFile3"}[file] + " 13 0 R"
		f.Stream(13, "", []byte("program"))
	}
	if file == 2 {
		desc += " /FontFamily (Fam \\(x\\))"
		family = "Fam (x)"
	}
	desc += " >>"
	if where != 2 {
		f.Obj(12, desc)
		desc = "12 0 R"
	}
	if kind == 3 {
		f.Obj(8, "<< /Type /Font /Subtype /CIDFontType2 /BaseFont "+base+" /FontDescriptor "+desc+" >>")
	} else {
		d += " /FontDescriptor " + desc
	}
	font := "<< /Type /Font /Subtype " + subtype + d + " >>"
	if where == 1 && kind != 3 {
		font = "<<" + d + "/Subtype" + subtype + "/Type/Font>>"
	}
	dict := "/" + res + "1 " + font
	if where < 2 {
		f.Obj(5, font)
		dict = "/" + res + "1 5 0 R"
	}
	dict += " /Other 7 0 R"
	f.Obj(7, "<< /Type /Font /Subtype /Type1 /BaseFont /Times-Roman >>")
	f.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	f.Obj(2, "<< /Type /Pages /Count 2 /Kids [3 0 R 4 0 R] /MediaBox [0 0 9 9] >>")
	f.Obj(3, "<< /Type /Page /Parent 2 0 R /Resources << /Font << "+dict+" >> >> >>")
	f.Obj(6, "<< /Type /Font /Subtype /Type1 /BaseFont /Courier >>")
	f.Obj(4, "<< /Type /Page /Parent 2 0 R /Resources << /Font << /"+res+"1 6 0 R >> >> >>")
	b := close(f)
	ps := pages(b)
	sym.Assert(len(ps) == 2 && ps[0].Resources != nil && ps[1].Resources != nil, "resources missing")
	fs := ps[0].Resources.Fonts
	sym.Assert(len(fs) == 2 && len(ps[1].Resources.Fonts) == 1, "number of fonts differs")
	var got types.FontInfo
	for k, x := range fs {
		if k != "Other" {
			sym.Assert(sym.EqS(k, res+"1"), "font has another name")
			got = x
		} else {
			sym.Assert(x.Name == "/Times-Roman" && x.Family == "Times" && !x.Embedded && !x.ToUnicode && x.Encoding == "", "other font differs")
		}
	}
	sym.Assert(sym.EqS(got.ID, "/"+res+"1"), "font's identifier differs")
	sym.Assert(got.Subtype == subtype, "font's kind differs")
	sym.Assert(sym.EqS(got.Name, base), "font's name differs")
	sym.Assert(sym.EqS(got.Family, family), "font's family differs")
	sym.Assert(got.Embedded == (file > 0), "whether the font is embedded differs")
	sym.Assert(got.Encoding == encoding, "font's encoding differs")
	sym.Assert(got.ToUnicode == (enc%2 == 1), "whether the font has a ToUnicode map differs")
	for _, x := range ps[1].Resources.Fonts {
		sym.Assert(x.Name == "/Courier", "second page's font differs")
	}
	doc, err := extract.ExtractContent(b, nil, false)
	sym.Assert(err == nil && len(doc.Fonts) == 3, "number of the document's fonts differs")
	sym.Reach("fonts")
}

// text writes a text string in one of four ways.
func text(b []byte, how int) string {
	switch how {
	case 0:
		return lib.Lit(b, 0)
	case 1:
		return lib.Hex(b)
	case 2: // UTF-16BE
		u := []byte{0xFE, 0xFF}
		for _, c := range b {
			u = append(u, 0, c)
		}
		return lib.Hex(u)
	}
	return lib.Lit(b, 1)
}

var kinds = []struct {
	name string
	kind types.AnnotationType
}{
	{"Link", types.AnnotationTypeLink}, {"Text", types.AnnotationTypeText}, {"Highlight", types.AnnotationTypeHighlight},
	{"Underline", types.AnnotationTypeUnderline}, {"StrikeOut", types.AnnotationTypeStrikeout}, {"Squiggly", types.AnnotationTypeSquiggly},
	{"Circle", types.AnnotationTypeCircle}, {"Square", types.AnnotationTypeSquare}, {"Line", types.AnnotationTypeLine},
	{"Polygon", types.AnnotationTypePolygon}, {"PolyLine", types.AnnotationTypePolyline}, {"Ink", types.AnnotationTypeInk},
	{"Stamp", types.AnnotationTypeStamp}, {"Caret", types.AnnotationTypeCaret}, {"FreeText", types.AnnotationTypeFreeText},
	{"Popup", types.AnnotationTypePopup}, {"FileAttachment", "FileAttachment"},
}

func ascii(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return b
}

// HAnnotations: the annotations of two pages.
func HAnnotations() {
	kind := sym.Choice("kind", len(kinds))
	how := sym.Choice("string", 4)
	colors := sym.Choice("colors", 5)
	where := sym.Choice("where", 4)
	sym.Bound("an annotation of one of 17 kinds between two others, on the second of two pages; contents of two (thorough three), title and subject of one arbitrary ASCII byte (contents together with no color, the others with a gray one, else arbitrary letters), as literal with and without escapes, hexadecimal and UTF-16; no, gray, RGB and CMYK color; with and without border, dashes, quad points, open, icon; link to a URI, a named destination or a page, in the annotation or its action (inline or an object); the array of annotations inline or an object; entries in two orders")
	var contents, title, subject []byte
	switch {
	case colors == 0 || sym.Thorough() && colors == 4:
		contents, title, subject = ascii("contents", lib.Max(2, 3)), lib.Upper("title", 1), []byte("S")
	case colors == 1:
		contents, title, subject = lib.Upper("contents", 1), ascii("title", 1), ascii("subject", 1)
	default:
		contents, title, subject = lib.Upper("contents", 1), lib.Upper("title", 1), lib.Upper("subject", 1)
	}
	f := lib.NewDoc("1.5")
	rect, quads := "10 20.5 110 -40", "1 2 3 4 5 6 7 8"
	s := "/Type /Annot /Subtype /" + kinds[kind].name + " /Rect [" + rect + "]"
	switch colors {
	case 1:
		s += " /C [0.5]"
	case 2:
		s += "/C[1 0.25 .5]"
	case 3:
		s += " /C [0 1 0.5 0.25]"
	case 4:
		s += " /C []"
	}
	s += " /Contents " + text(contents, how) + "/T" + text(title, how) + " /Subj " + text(subject, 3-how)
	switch where {
	case 1:
		s += " /Border [0 0 2]"
	case 2:
		s += " /Border [1 1 3 [4 5]]"
	case 3:
		f.Obj(15, "[1 2 1.5 [6]]")
		s += "/Border 15 0 R"
	}
	uri, dest := "", ""
	if kind == 0 {
		switch (how + 4*where) % 7 {
		case 0:
			s += " /A << /S /URI /URI (http://a/\\(b\\)) >>"
			uri = "http://a/(b)"
		case 1:
			f.Obj(16, "<</Type/Action/S/URI/URI<687474703A2F2F62>>>")
			s += " /A 16 0 R"
			uri = "http://b"
		case 2:
			s += " /Dest (cha\\160ter)"
			dest = "chapter"
		case 3:
			s += " /Dest /chap2"
			dest = "/chap2"
		case 4:
			s += " /Dest [3 0 R /Fit]"
			dest = "[3 0 R /Fit]"
		case 5:
			s += " /A << /Type /Action /S /GoTo /D (there) >>"
			dest = "there"
		case 6:
			f.Obj(16, "<< /S /GoTo /D [3 0 R /XYZ 1 2 0] >>")
			s += " /A 16 0 R"
			dest = "[3 0 R /XYZ 1 2 0]"
		}
	}
	if kind == 1 {
		s += []string{" /Open true /Name /Help", " /Name /Note /Open false", "", "/Open true"}[where]
	}
	quad := kind >= 2 && kind <= 5
	if quad {
		s += " /QuadPoints [" + quads + " 9 9 9 9 9 9 9 9]"
	}
	f.Obj(20, "<< "+s+" >>")
	f.Obj(21, "<< /Rect [0 0 1 1] /Contents (before) /Subtype /Square >>")
	f.Obj(22, "<</Subtype/Link/Rect[2 2 3 3]/P 4 0 R/A<</S/URI/URI(x:y)>>>>")
	f.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	f.Obj(2, "<< /Type /Pages /Count 2 /Kids [3 0 R 4 0 R] /MediaBox [0 0 9 9] >>")
	f.Obj(3, "<< /Type /Page /Parent 2 0 R >>")
	annots := "[21 0 R 20 0 R 22 0 R]"
	if where >= 2 {
		f.Obj(17, annots)
		annots = "17 0 R"
	}
	f.Obj(4, "<< /Type /Page /Annots "+annots+" /Parent 2 0 R >>")
	b := close(f)
	ps := pages(b)
	sym.Assert(len(ps) == 2 && len(ps[0].Annotations) == 0 && len(ps[1].Annotations) == 3, "number of annotations differs")
	as := ps[1].Annotations
	sym.Assert(as[0].ID == "21" && as[0].Contents == "before" && as[2].ID == "22" && as[2].URI == "x:y", "other annotations differ")
	a := as[1]
	sym.Assert(a.ID == "20" && a.PageNumber == 2 && as[0].PageNumber == 2, "identifier or page differs")
	sym.Assert(a.Type == kinds[kind].kind, "kind differs")
	sym.Assert(a.Rect != nil && *a.Rect == types.Rectangle{LowerX: 10, LowerY: 20.5, UpperX: 110, UpperY: -40}, "rectangle differs")
	sym.Assert(sym.EqS(a.Contents, string(contents)), "contents differ")
	sym.Assert(sym.EqS(a.Title, string(title)), "title differs")
	sym.Assert(sym.EqS(a.Subject, string(subject)), "subject differs")
	switch colors {
	case 0, 4:
		sym.Assert(a.Color == nil, "color appears")
	case 1:
		sym.Assert(a.Color != nil && a.Color.Space == types.ColorSpaceGray && a.Color.R == 0.5, "gray differs")
	case 2:
		sym.Assert(a.Color != nil && a.Color.Space == types.ColorSpaceRGB && a.Color.R == 1 && a.Color.G == 0.25 && a.Color.B == 0.5, "color differs")
	case 3:
		sym.Assert(a.Color != nil && a.Color.Space == types.ColorSpaceCMYK && a.Color.C == 0 && a.Color.M == 1 && a.Color.Y == 0.5 && a.Color.K == 0.25, "CMYK color differs")
	}
	sym.Assert((a.Border != nil) == (where > 0), "whether there is a border differs")
	if where > 0 {
		sym.Assert(a.Border.Width == []float64{0, 2, 3, 1.5}[where], "border width differs")
		dash := [][]float64{nil, nil, {4, 5}, {6}}[where]
		sym.Assert(len(a.Border.Dash) == len(dash), "border dashes differ")
		for i := range dash {
			sym.Assert(a.Border.Dash[i] == dash[i], "border dash differs")
		}
	}
	sym.Assert(a.URI == uri && a.Destination == dest, "link differs")
	open, icon := false, ""
	if kind == 1 {
		open = where == 0 || where == 3
		icon = []string{"/Help", "/Note", "", ""}[where]
	}
	sym.Assert(a.Open == open && a.Icon == icon, "open or icon differs")
	if quad {
		sym.Assert(len(a.QuadPoints) == 4, "number of quad points differs")
		for i, q := range a.QuadPoints {
			sym.Assert(q.X == float64(2*i+1) && q.Y == float64(2*i+2), "quad point differs")
		}
	} else {
		sym.Assert(len(a.QuadPoints) == 0, "quad points appear")
	}
	sym.Reach("annotation")
}

// HPage: boxes, rotation and contents of a page, its own or inherited, direct or objects.
func HPage() {
	box := sym.Choice("box", 6)
	crop := sym.Choice("crop", 3)
	rot := sym.Choice("rotate", 5)
	con := sym.Choice("contents", 5)
	sym.Bound("media boxes of six spellings (real, negative, offset, without spaces), in the page, its parent or an object of its own; crop box missing, own or inherited; rotation missing, 0, 90 and 270, own or inherited; contents of one or two arbitrary letters split in one to three streams of the array, which may be an object, or a single stream; kids in an array object")
	boxes := []string{"[0 0 612 792]", "[10 20 110 220]", "[-5 -6.5 5 6.5]", "[ 0\n0 .5 1.25 ]", "[0 0 595.276 841.89]", "[1 2 3 4]"}
	want := [][4]float64{{0, 0, 612, 792}, {10, 20, 110, 220}, {-5, -6.5, 5, 6.5}, {0, 0, 0.5, 1.25}, {0, 0, 595.276, 841.89}, {1, 2, 3, 4}}[box]
	f := lib.NewDoc("1.5")
	page, parent := "", ""
	switch box % 3 {
	case 0:
		page += "/MediaBox" + boxes[box]
		parent += "/MediaBox [0 0 7 7]"
	case 1:
		parent += "/MediaBox " + boxes[box]
	case 2:
		f.Obj(10, boxes[box])
		page += " /MediaBox 10 0 R"
	}
	switch crop {
	case 1:
		page += "/CropBox[1 1 3 5]"
	case 2:
		parent += "/CropBox [1 1 3 5]"
	}
	switch rot {
	case 1:
		page += " /Rotate 90"
		parent += " /Rotate 180"
	case 2:
		parent += " /Rotate 270"
	case 3:
		page += " /Rotate 0"
		parent += " /Rotate 180"
	case 4:
		page += "/Rotate -90"
	}
	c := lib.Upper("text", 2)
	f.Obj(9, "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
	parent += " /Resources << /Font << /F1 9 0 R >> >>"
	parts := []string{"BT /F1 12 Tf (" + string(c[:1]) + ") Tj", "(" + string(c[1:]) + ") Tj ET"}
	switch con {
	case 0:
		f.Stream(20, "", []byte(parts[0]+" "+parts[1]))
		page += " /Contents 20 0 R"
	case 1:
		f.Stream(20, "/Filter /FlateDecode", lib.Zlib([]byte(parts[0]), []byte("\n"), []byte(parts[1])))
		page += " /Contents [20 0 R]"
	case 2:
		f.Stream(20, "", []byte(parts[0]))
		f.Stream(21, "", []byte(parts[1]))
		page += " /Contents[20 0 R 21 0 R]"
	case 3:
		f.Stream(20, "", []byte("BT /F1"))
		f.Stream(21, "", []byte("12 Tf"))
		f.Stream(22, "", []byte(parts[0][len("BT /F1 12 Tf "):]+" "+parts[1]))
		f.Obj(23, "[ 20 0 R 21 0 R\n22 0 R ]")
		page += " /Contents 23 0 R"
	case 4:
		f.Stream(20, "", []byte(parts[1]))
		f.Stream(21, "", []byte(parts[0]))
		f.Obj(23, "[21 0 R 20 0 R]")
		page += "/Contents 23 0 R"
	}
	kids := "[3 0 R]"
	if con >= 3 {
		f.Obj(11, kids)
		kids = "11 0 R"
	}
	f.Obj(1, "<< /Type /Catalog /Pages 2 0 R >>")
	f.Obj(2, "<< /Type /Pages /Count 1 /Kids "+kids+" "+parent+" >>")
	f.Obj(3, "<< /Type /Page /Parent 2 0 R "+page+" >>")
	b := close(f)
	ps := pages(b)
	sym.Assert(len(ps) == 1 && ps[0].PageNumber == 1, "number of pages differs")
	p := ps[0]
	sym.Assert(p.MediaBox != nil && *p.MediaBox == types.Rectangle{LowerX: want[0], LowerY: want[1], UpperX: want[2], UpperY: want[3]}, "media box differs")
	sym.Assert(p.Width == want[2]-want[0] && p.Height == want[3]-want[1], "page size differs")
	if crop == 0 {
		sym.Assert(p.CropBox == nil, "crop box appears")
	} else {
		sym.Assert(p.CropBox != nil && *p.CropBox == types.Rectangle{LowerX: 1, LowerY: 1, UpperX: 3, UpperY: 5}, "crop box differs")
	}
	sym.Assert(p.Rotation == []int{0, 90, 270, 0, -90}[rot], "rotation differs")
	sym.Assert(len(p.Text) == 2 && sym.EqS(p.Text[0].Text+p.Text[1].Text, string(c)), "text differs")
	md, err := parse.Open(b)
	sym.Assert(err == nil, "does not open")
	info, err := extract.ExtractMetadata(b, md, false)
	sym.Assert(err == nil && info.PageCount == 1, "page count differs")
	sym.Reach("page")
}
