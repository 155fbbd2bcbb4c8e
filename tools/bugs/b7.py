exec(open('/verif/tools/bugs/common.py').read())
AP='forms/acroform/parser.go'; AX='forms/acroform/extract.go'; AW='forms/acroform/writer.go'; AR='forms/acroform/replace.go'; AF='forms/acroform/fill_streams.go'; AV='forms/acroform/validation.go'
IMPA='package demo\n\nimport (\n\t"fmt"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/forms/acroform"\n\t"github.com/benedoc-inc/pdfer/types"\n)\n\nvar _ = fmt.Sprint\nvar _ types.FormData\n'
MKA=r"""
func file(objs ...string) []byte {
	out := "%PDF-1.4\n"
	table := fmt.Sprintf("xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for i, o := range objs {
		table += fmt.Sprintf("%010d 00000 n \n", len(out))
		out += fmt.Sprintf("%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	at := len(out)
	return []byte(out + table + fmt.Sprintf("trailer\n<< /Root 1 0 R /Size %d >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, at))
}
"""
BUGS=[
dict(id="C16-full-name", property="C16", edits=[(AX,"		parentName := f.Parent.GetFullName()","		parentName := f.Parent.T")],
 needs="fields nested three levels deep", breaks="full names lose their first parts",
 demo=IMPA+MKA+r"""
func TestDemo(t *testing.T) {
	pdf := file("<< /Type /Catalog /Pages 2 0 R /AcroForm << /Fields [3 0 R] >> >>", "<< /Type /Pages /Kids [] /Count 0 >>",
		"<< /T (a) /Kids [4 0 R] >>", "<< /T (b) /Parent 3 0 R /Kids [5 0 R] >>", "<< /T (c) /FT /Tx /V (x) /Parent 4 0 R >>")
	af, err := acroform.ExtractAcroForm(pdf, nil, false)
	if err != nil || af.GetFieldValues()["a.b.c"] != "x" {
		t.Fatal(err, af)
	}
}
"""),
dict(id="C16-selected", property="C16", edits=[(AP,"				for _, idx := range f.I {\n					if idx == i {","				for _, idx := range f.I[:1] {\n					if idx == i {")],
 needs="a list with several selected options", breaks="only the first selected option is marked",
 demo=IMPA+MKA+r"""
func TestDemo(t *testing.T) {
	pdf := file("<< /Type /Catalog /Pages 2 0 R /AcroForm << /Fields [3 0 R] >> >>", "<< /Type /Pages /Kids [] /Count 0 >>",
		"<< /T (a) /FT /Ch /Ff 2097152 /Opt [(x) (y) (z)] /I [0 2] /V [(x) (z)] >>")
	s, err := acroform.ExtractFormSchema(pdf, nil, false)
	if err != nil || len(s.Questions) != 1 {
		t.Fatal(err)
	}
	o := s.Questions[0].Options
	if !o[0].Selected || o[1].Selected || !o[2].Selected {
		t.Fatal(o)
	}
}
"""),
dict(id="C17-number", property="C17", edits=[(AR,"		return strconv.FormatFloat(v, 'f', -1, 64)","		return strconv.FormatFloat(v, 'g', -1, 64)")],
 needs="a number of 1e21 or more, or below 0.0001", breaks="the value is stored in exponent notation",
 demo=IMPA+MKA+r"""
func TestDemo(t *testing.T) {
	pdf := file("<< /Type /Catalog /Pages 2 0 R /AcroForm << /Fields [3 0 R] >> >>", "<< /Type /Pages /Kids [] /Count 0 >>", "<< /T (a) /FT /Tx >>")
	out, err := acroform.FillFormFields(pdf, types.FormData{"a": 2500000000000000000000.0}, nil, false)
	if err != nil {
		t.Fatal(err)
	}
	af, err := acroform.ExtractAcroForm(out, nil, false)
	if err != nil || af.GetFieldValues()["a"] != "2500000000000000000000" {
		t.Fatal(err, af.GetFieldValues())
	}
}
"""),
dict(id="C17-unknown", property="C17", edits=[(AF,"				fmt.Printf(\"Warning: Field '%s' not found, skipping\\n\", name)\n			}\n			continue","				fmt.Printf(\"Warning: Field '%s' not found, skipping\\n\", name)\n			}\n			break")],
 needs="values for several fields, one of them not in the form", breaks="the fields after the unknown one are not filled",
 demo=IMPA+MKA+r"""
func TestDemo(t *testing.T) {
	pdf := file("<< /Type /Catalog /Pages 2 0 R /AcroForm << /Fields [3 0 R 4 0 R] >> >>", "<< /Type /Pages /Kids [] /Count 0 >>", "<< /T (a) /FT /Tx >>", "<< /T (z) /FT /Tx >>")
	out, err := acroform.FillFormFields(pdf, types.FormData{"a": "1", "m": "2", "z": "3"}, nil, false)
	if err != nil {
		t.Fatal(err)
	}
	af, err := acroform.ExtractAcroForm(out, nil, false)
	if err != nil || af.GetFieldValues()["a"] != "1" || af.GetFieldValues()["z"] != "3" {
		t.Fatal(err, af.GetFieldValues())
	}
}
"""),
dict(id="C17-flags", property="C17", edits=[(AW,"		fd.Flags &^= 0x2","		fd.Flags &= 0x1")],
 needs="a radio button or push button on which SetRequired(false) is called", breaks="the field becomes a checkbox",
 demo=IMPA+r"""
func TestDemo(t *testing.T) {
	fd := &acroform.FieldDef{Flags: 0x8000}
	if fd.SetRequired(true).SetRequired(false); fd.Flags != 0x8000 {
		t.Fatal(fd.Flags)
	}
}
"""),
dict(id="C18-options", property="C18", edits=[(AV,"	if len(field.Opt) == 0 {\n		return nil // No","	if len(field.Opt) <= 1 {\n		return nil // No")],
 needs="a choice field with a single option", breaks="any value is accepted",
 demo=IMPA+r"""
func TestDemo(t *testing.T) {
	f := &acroform.Field{T: "n", FT: "Ch", Opt: []interface{}{"only"}}
	if acroform.ValidateField(f, "only") != nil || acroform.ValidateField(f, "other") == nil {
		t.Fatal("any value accepted")
	}
}
"""),
dict(id="C18-range", property="C18", edits=[(AV,"numValue > *question.Validation.MaxValue {","int(numValue) > int(*question.Validation.MaxValue) {")],
 needs="a number above the maximum by less than one", breaks="the value is accepted",
 demo=IMPA+r"""
func TestDemo(t *testing.T) {
	max := 20.0
	q := &types.Question{Name: "q", Type: types.ResponseTypeNumber, Validation: &types.ValidationRules{MaxValue: &max}}
	if acroform.ValidateFieldValue(q, 20.0) != nil || acroform.ValidateFieldValue(q, "20.5") == nil {
		t.Fatal("20.5 accepted")
	}
}
"""),
]
