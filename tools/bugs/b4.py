exec(open('/verif/tools/bugs/common.py').read())
CS='content/extract/content_stream.go'; CO='core/write/content.go'; MD='core/write/metadata.go'; BM='core/write/bookmarks.go'
IMPX='package demo\n\nimport (\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/content/extract"\n\t"github.com/benedoc-inc/pdfer/core/parse"\n\t"github.com/benedoc-inc/pdfer/core/write"\n\t"github.com/benedoc-inc/pdfer/types"\n)\n\nvar _ types.Page\n'
BUGS=[
dict(id="C11-tj-escape", property="C11", edits=[(CS,"				if arrStr[i] == '\\\\' && i+1 < len(arrStr) {\n","				if arrStr[i] == '\\\\' && i+1 < len(arrStr) && arrStr[i-1] != '\\\\' {\n")],
 needs="a TJ array whose string has a backslash before a parenthesis", breaks="the text is cut or runs into the next string",
 demo=IMPX+r'''
func TestDemo(t *testing.T) {
	b := write.NewSimplePDFBuilder()
	pg := b.AddPage(write.PageSizeA4)
	f := pg.AddStandardFont("Helvetica")
	pg.Content().BeginText().SetFont(f, 12).ShowTextArray([]interface{}{"a\\)b", -20, "c"}).EndText()
	b.FinalizePage(pg)
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	ps, err := extract.ExtractPages(out, p, false)
	if err != nil || len(ps) != 1 || len(ps[0].Text) != 1 || ps[0].Text[0].Text != "a\\)bc" {
		t.Fatalf("%+v %v", ps, err)
	}
}
'''),
dict(id="C11-carriage-return", property="C11", edits=[(CO,"	case '\\r':\n			result.WriteString(\"\\\\r\")","	case '\\r':\n			result.WriteString(\"\\\\n\")")],
 needs="shown text with a carriage return", breaks="it is extracted as a line feed",
 demo=IMPX+r'''
func TestDemo(t *testing.T) {
	b := write.NewSimplePDFBuilder()
	pg := b.AddPage(write.PageSizeA4)
	f := pg.AddStandardFont("Helvetica")
	pg.Content().BeginText().SetFont(f, 12).ShowText("a\rb").EndText()
	b.FinalizePage(pg)
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	ps, err := extract.ExtractPages(out, p, false)
	if err != nil || len(ps) != 1 || len(ps[0].Text) != 1 || ps[0].Text[0].Text != "a\rb" {
		t.Fatalf("%+v %v", ps, err)
	}
}
'''),
dict(id="C12-date-zone", property="C12", edits=[(MD,"	day := t.Day()\n	hour := t.Hour()\n","	day := t.UTC().Day()\n	hour := t.Hour()\n")],
 needs="a date with a time zone in which the day differs from that in UTC", breaks="the date is written with another day",
 demo=IMPX+r'''
func TestDemo(t *testing.T) {
	b := write.NewSimplePDFBuilder()
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	b.Writer().SetMetadata(&types.DocumentMetadata{Title: "t", ModDate: "2024-02-29T23:10:00-05:30"})
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	m, err := extract.ExtractMetadata(out, p, false)
	if err != nil || m.ModDate != "D:20240229231000-05'30" {
		t.Fatalf("%+v %v", m, err)
	}
}
'''),
dict(id="C12-custom-case", property="C12", edits=[(MD,"			metadata.Custom[key] = value\n","			metadata.Custom[strings.TrimSpace(strings.TrimRight(key, \":\"))] = value\n")],
 nth={MD:0},
 needs="a custom field whose name ends with a colon or a blank, set through the convenience method", breaks="the field is stored under another name, or lost to another field",
 demo=IMPX+r'''
func TestDemo(t *testing.T) {
	b := write.NewSimplePDFBuilder()
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	b.Writer().SetMetadataFields(map[string]string{"title": "t", "moddate": "2024-02-29", "Own:": "1", "Own": "2"})
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	m, err := extract.ExtractMetadata(out, p, false)
	if err != nil || m.Custom["Own:"] != "1" || m.Custom["Own"] != "2" {
		t.Fatalf("%+v %v", m, err)
	}
}
'''),
dict(id="C13-next-in-title", property="C13", edits=[(BM,'	lastIdx := strings.LastIndex(dictStr, ">>")\n','	lastIdx := strings.Index(dictStr, ">>")\n')],
 needs="a bookmark that has a next sibling and a title with two greater-than signs", breaks="the link to the next bookmark is written into the title: the rest of the outline is lost",
 demo=IMPX+r'''
func TestDemo(t *testing.T) {
	b := write.NewSimplePDFBuilder()
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	if err := b.SetBookmarks([]types.Bookmark{{Title: "a >> b", PageNumber: 1}, {Title: "c", PageNumber: 1}}); err != nil {
		t.Fatal(err)
	}
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	bs, err := extract.ExtractBookmarks(out, p, false)
	if err != nil || len(bs) != 2 || bs[0].Title != "a >> b" || bs[1].Title != "c" {
		t.Fatalf("%+v %v", bs, err)
	}
}
'''),
dict(id="C13-count", property="C13", edits=[(BM,"			totalCount += childCount\n","			totalCount += len(bookmark.Children)\n")],
 needs="bookmarks nested at least three levels deep", breaks="/Count of the upper levels leaves out the deeper items",
 demo=r'''
package demo

import (
	"regexp"
	"testing"

	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

func TestDemo(t *testing.T) {
	b := write.NewSimplePDFBuilder()
	b.FinalizePage(b.AddPage(write.PageSizeA4))
	bs := []types.Bookmark{{Title: "a", Children: []types.Bookmark{{Title: "b", Children: []types.Bookmark{{Title: "c"}}}}}}
	if err := b.SetBookmarks(bs); err != nil {
		t.Fatal(err)
	}
	out, err := b.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	got := map[string]bool{}
	for _, m := range regexp.MustCompile(`/Count (\d+)[^>]*/(?:First|Last)|/(?:First|Last) \d+ 0 R[^>]*/Count (\d+)`).FindAllStringSubmatch(string(out), -1) {
		got[m[1]+m[2]] = true
	}
	if !got["3"] || !got["2"] || !got["1"] {
		t.Fatalf("%v\n%s", got, out)
	}
}
'''),
]
