exec(open('/verif/tools/bugs/common.py').read())
XB='core/write/xfa_builder.go'; XF='forms/xfa/xfa.go'; XD='forms/xfa/xfa_datasets_translator.go'
IMPX='package demo\n\nimport (\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/forms/xfa"\n\t"github.com/benedoc-inc/pdfer/types"\n)\n\nvar _ types.FormData\n'
BUGS=[
dict(id="C19-unknown-packet", property="C19", edits=[(XF,"				log.Printf(\"Unknown XFA stream type: %s\", packet.Name)\n			}\n			continue","				log.Printf(\"Unknown XFA stream type: %s\", packet.Name)\n			}\n			break")],
 needs="a form with a preamble before its packets", breaks="the packets after an unknown one are lost",
 demo=r'''package demo

import (
	"testing"

	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/xfa"
)

func TestDemo(t *testing.T) {
	pdf, err := write.NewXFABuilder(false).BuildFromXFA([]write.XFAStreamData{{Name: "preamble", Data: []byte("<xdp>")}, {Name: "datasets", Data: []byte("<data/>")}})
	if err != nil {
		t.Fatal(err)
	}
	s, err := xfa.ExtractAllXFAStreams(pdf, nil, false)
	if err != nil || s.Datasets == nil || string(s.Datasets.Data) != "<data/>" {
		t.Fatal(err, s)
	}
}
'''),
dict(id="C19-trimmed", property="C19", edits=[(XB,"			stream.Data,\n			stream.Compress,","			bytes.TrimSpace(stream.Data),\n			stream.Compress,")],
 needs="packet data which ends in a line end", breaks="white space at the ends of the data is lost",
 demo=IMPX+r"""
func TestDemo(t *testing.T) {
	in := "<template/>\n"
	pdf, err := xfa.BuildPDFFromXFAStreams(&xfa.XFAStreams{Template: &xfa.XFAStreamInfo{Data: []byte(in)}}, false)
	if err != nil {
		t.Fatal(err)
	}
	s, err := xfa.ExtractAllXFAStreams(pdf, nil, false)
	if err != nil || s.Template == nil || string(s.Template.Data) != in {
		t.Fatal(err, s)
	}
}
"""),
dict(id="C20-split-text", property="C20", edits=[(XD,"				currentFieldValue.WriteString(string(se))","				currentFieldValue.Reset()\n				currentFieldValue.WriteString(string(se))")],
 needs="a value with a comment or CDATA section in it", breaks="only the last part of the text is read",
 demo=IMPX+r"""
func TestDemo(t *testing.T) {
	d, err := xfa.ParseXFADatasets("<data><field name=\"a\"><value>one <!-- and -->two</value></field></data>", false)
	if err != nil || d.Fields["a"] != "one two" {
		t.Fatal(err, d)
	}
}
"""),
dict(id="C20-float", property="C20", edits=[(XD,"		return strconv.FormatFloat(v, 'f', -1, 64)","		return strconv.FormatFloat(v, 'f', -1, 32)")],
 needs="a number with more than 7 significant digits", breaks="its last digits are lost",
 demo=IMPX+r"""
func TestDemo(t *testing.T) {
	x, err := xfa.DatasetsToXFA(&types.XFADatasets{Fields: map[string]interface{}{"a": 1234567.891}}, false)
	if err != nil {
		t.Fatal(err)
	}
	d, err := xfa.ParseXFADatasets(x, false)
	if err != nil || d.Fields["a"] != 1234567.891 {
		t.Fatal(err, d)
	}
}
"""),
dict(id="C20-group-order", property="C20", edits=[(XD,"						currentGroup = parent\n","						currentGroup = parent\n						if len(groupStack) == 0 && parent.Name == localName {\n							currentGroup = nil\n							datasets.Groups = append(datasets.Groups, *parent)\n						}\n")],
 needs="a group inside a group of the same name", breaks="the outer group ends early",
 demo=IMPX+r"""
func TestDemo(t *testing.T) {
	g := func(v int, in ...types.XFAFieldGroup) types.XFAFieldGroup {
		return types.XFAFieldGroup{Name: "row", Fields: map[string]interface{}{"f": v}, Groups: in}
	}
	x, err := xfa.DatasetsToXFA(&types.XFADatasets{Fields: map[string]interface{}{}, Groups: []types.XFAFieldGroup{g(2, g(3), g(4))}}, false)
	if err != nil {
		t.Fatal(err)
	}
	d, err := xfa.ParseXFADatasets(x, false)
	if err != nil || len(d.Groups) != 1 || len(d.Groups[0].Groups) != 2 || d.Groups[0].Groups[1].Fields["f"] != 4 {
		t.Fatal(err, d)
	}
}
"""),
]
