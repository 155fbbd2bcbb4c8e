exec(open('/verif/tools/bugs/common.py').read())
CO='core/compare/compare.go'; TD='core/compare/text_diff.go'
IMPC='package demo\n\nimport (\n\t"fmt"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/compare"\n)\n'
MKC=r"""
func file(rotate, content string) []byte {
	out := "%PDF-1.4\n"
	objs := []string{"<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Count 1 /Kids [ 3 0 R ] >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [ 0 0 300 300 ] " + rotate + " /Contents 4 0 R /Resources << /Font << /F1 5 0 R >> >> >>",
		fmt.Sprintf("<< /Length %d >>\nstream\n%s\nendstream", len(content), content),
		"<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>"}
	table := fmt.Sprintf("xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for i, o := range objs {
		table += fmt.Sprintf("%010d 00000 n \n", len(out))
		out += fmt.Sprintf("%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	at := len(out)
	return []byte(out + table + fmt.Sprintf("trailer\n<< /Root 1 0 R /Size %d >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, at))
}
"""
BUGS=[
dict(id="C15-duplicates", property="C15", edits=[(TD,"			if text2Matched[i2] {\n				continue\n			}\n			if elementsEqual","			if elementsEqual")],
 needs="the same text shown more often in one of the documents, at the same position", breaks="the missing copy is not reported",
 demo=IMPC+MKC+r"""
func TestDemo(t *testing.T) {
	const tj = "BT /F1 12 Tf 10 200 Td (Total) Tj ET\n"
	r, err := compare.ComparePDFs(file("", tj+tj), file("", tj), nil, nil, false)
	if err != nil || r.Identical {
		t.Fatalf("%+v %v", r, err)
	}
}
"""),
dict(id="C15-rotation", property="C15", edits=[(CO,"	if page1.Rotation != page2.Rotation {","	if page1.Rotation%180 != page2.Rotation%180 {")],
 needs="pages turned upside down", breaks="the changed rotation is not reported",
 demo=IMPC+MKC+r"""
func TestDemo(t *testing.T) {
	r, err := compare.ComparePDFs(file("/Rotate 90", ""), file("/Rotate 270", ""), nil, nil, false)
	if err != nil || r.Identical {
		t.Fatalf("%+v %v", r, err)
	}
}
"""),
]
