exec(open('/verif/tools/bugs/common.py').read())
RO='core/manipulate/rotation.go'
IMPM='package demo\n\nimport (\n\t"fmt"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/content/extract"\n\t"github.com/benedoc-inc/pdfer/core/manipulate"\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n'
MKM=r"""
func file(objs ...string) []byte {
	out := "%PDF-1.4\n"
	table := fmt.Sprintf("xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range objs {
		table += fmt.Sprintf("%010d 00000 n \n", len(out))
		out += o + "\nendobj\n"
	}
	at := len(out)
	return []byte(out + table + fmt.Sprintf("trailer\n<< /Root 1 0 R /Size %d >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, at))
}
"""
BUGS=[
dict(id="C14-negative-rotation", property="C14", edits=[(RO,"		newRot += 360\n","		newRot = -newRot\n")],
 needs="a page whose /Rotate is so negative that the sum stays below zero", breaks="the page ends up turned the other way",
 demo=IMPM+MKM+r"""
func TestDemo(t *testing.T) {
	m, err := manipulate.NewPDFManipulator(file("1 0 obj << /Type /Catalog /Pages 2 0 R >>", "2 0 obj << /Type /Pages /Count 1 /Kids [ 3 0 R ] >>",
		"3 0 obj << /Type /Page /Parent 2 0 R /Rotate -180 /MediaBox [ 0 0 9 9 ] >>"), nil, false)
	if err != nil || m.RotatePage(1, 90) != nil {
		t.Fatal(err)
	}
	out, err := m.Rebuild()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	ps, err := extract.ExtractPages(out, p, false)
	if err != nil || len(ps) != 1 || (ps[0].Rotation+720)%360 != 270 {
		t.Fatalf("%+v %v", ps, err)
	}
}
"""),
dict(id="C14-generation", property="C14", edits=[(RO,r"	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)",r"	pattern := regexp.MustCompile(`(\d+)\s+0\s+R`)")],
 needs="a page object whose generation is not 0", breaks="the page disappears, and page numbers shift",
 demo=IMPM+MKM+r"""
func TestDemo(t *testing.T) {
	out, err := manipulate.ExtractPages(file("1 0 obj << /Type /Catalog /Pages 2 0 R >>", "2 0 obj << /Type /Pages /Count 2 /Kids [ 3 2 R 4 0 R ] >>",
		"3 2 obj << /Type /Page /Parent 2 0 R /Rotate 180 /MediaBox [ 0 0 9 9 ] >>", "4 0 obj << /Type /Page /Parent 2 0 R /MediaBox [ 0 0 9 9 ] >>"), []int{1}, nil, false)
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.Open(out)
	if err != nil {
		t.Fatal(err)
	}
	ps, err := extract.ExtractPages(out, p, false)
	if err != nil || len(ps) != 1 || ps[0].Rotation != 180 {
		t.Fatalf("%+v %v", ps, err)
	}
}
"""),
]
