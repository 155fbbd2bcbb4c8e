// Package c16: form fields are read as the document defines them.
package c16

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/form"
	"verif/harness/lib"
	"verif/harness/sym"
)

func terminal(x *form.Field) bool {
	for _, k := range x.Kids {
		if k.Nm != "" {
			return false
		}
	}
	return x.Nm != ""
}

// compare checks the fields on one level and below.
func compare(af *acroform.AcroForm, got []*acroform.Field, want []*form.Field, parent *acroform.Field) (values int) {
	sym.Assert(len(got) == len(want), "number of fields differs")
	for i, w := range want {
		g := got[i]
		sym.Assert(g.ObjectNum == w.Num && g.Generation == 0, "object number differs")
		sym.Assert(g.Parent == parent, "parent differs")
		sym.Assert(sym.EqS(g.T, w.Nm), "name differs")
		sym.Assert(sym.EqS(g.GetFullName(), w.Full), "full name differs")
		sym.Assert(g.FT == w.WantFT, "type differs")
		sym.Assert(g.Ff == w.WantFF, "flags differ")
		sym.Assert(g.MaxLen == w.WantMax, "maximum length differs")
		sym.Assert(sym.EqS(g.TU, w.TU), "alternate name differs")
		sym.Assert(form.Equal(g.V, w.WantV), "value differs")
		if w.DV != nil {
			sym.Assert(form.Equal(g.DV, w.DV), "default value differs")
		}
		if w.Nm != "" {
			sym.Assert(len(g.Opt) == len(w.Opt), "number of options differs")
			f := af.FindFieldByName(w.Full)
			sym.Assert(f == g, "not found by its full name")
		}
		if w.Rect != [4]int{} {
			sym.Assert(len(g.Rect) == 4, "rectangle missing")
			for k := range w.Rect {
				sym.Assert(g.Rect[k] == float64(w.Rect[k]), "rectangle differs")
			}
		}
		if w.Nm != "" && w.WantV != nil {
			values++
			sym.Assert(form.Equal(af.GetFieldValues()[w.Full], w.WantV), "value missing from the values")
		}
		values += compare(af, g.Kids, w.Kids, g)
	}
	return values
}

func schema(q []types.Question, want []*form.Field) []types.Question {
	for _, w := range want {
		if terminal(w) {
			sym.Assert(len(q) > 0, "question missing")
			x := q[0]
			q = q[1:]
			sym.Assert(sym.EqS(x.Name, w.Full), "question has another name")
			sym.Assert(sym.EqS(x.Label, w.TU), "question has another label")
			sym.Assert(x.Required == (w.WantFF&2 != 0) && x.ReadOnly == (w.WantFF&1 != 0), "required or read-only differs")
			t := types.ResponseTypeText
			switch {
			case w.WantFT == "Ch":
				t = types.ResponseTypeSelect
			case w.WantFT == "Sig":
				t = types.ResponseTypeSignature
			case w.WantFT == "Btn" && w.WantFF&0x10000 != 0:
				t = types.ResponseTypeButton
			case w.WantFT == "Btn" && w.WantFF&0x8000 != 0:
				t = types.ResponseTypeRadio
			case w.WantFT == "Btn":
				t = types.ResponseTypeCheckbox
			}
			sym.Assert(x.Type == t, "question has another type")
			sym.Assert(form.Equal(x.Default, w.DV), "question has another default")
			sym.Assert(len(x.Options) == len(w.Opt), "number of options differs")
			for i, o := range w.Opt {
				sel := false
				for _, s := range w.Selected {
					sel = sel || s == i
				}
				sym.Assert(sym.EqS(x.Options[i].Value, o[0]) && sym.EqS(x.Options[i].Label, o[1]), "option differs")
				sym.Assert(x.Options[i].Selected == sel, "selection differs")
			}
			if w.WantMax > 0 {
				sym.Assert(x.Validation != nil && x.Validation.MaxLength != nil && *x.Validation.MaxLength == w.WantMax, "maximum length differs in the question")
			} else {
				sym.Assert(x.Validation == nil || x.Validation.MaxLength == nil, "maximum length made up")
			}
			if w.Rect != [4]int{} {
				p := x.Properties
				sym.Assert(p["x"] == float64(w.Rect[0]) && p["y"] == float64(w.Rect[1]) && p["width"] == float64(w.Rect[2]-w.Rect[0]) && p["height"] == float64(w.Rect[3]-w.Rect[1]), "position differs")
			}
		}
		q = schema(q, w.Kids)
	}
	return q
}

func read(pdf []byte, layout int) *acroform.AcroForm {
	var pw []byte
	if layout == form.Encrypted {
		pw = form.Password
	}
	var af *acroform.AcroForm
	var err error
	switch sym.Choice("entry", 3) {
	case 0:
		af, err = acroform.ExtractAcroForm(pdf, pw, false)
	case 1:
		var p *parse.PDF
		p, err = parse.OpenWithOptions(pdf, parse.ParseOptions{Password: pw})
		sym.Assert(err == nil, "does not open")
		af, err = acroform.ParseAcroForm(pdf, p.Encryption(), false)
	case 2:
		af, err = forms.ExtractAcroForm(pdf, pw, false)
	}
	sym.Assert(err == nil && af != nil, "form not read")
	return af
}

func check(fs []*form.Field, style, layout int) {
	pdf := form.Write(fs, style, layout)
	form.Settle(fs, nil)
	af := read(pdf, layout)
	sym.Assert(af.NeedAppearances && !af.XFA, "form entries differ")
	n := compare(af, af.Fields, fs, nil)
	sym.Assert(len(af.GetFieldValues()) == n, "values of no field")
	sym.Assert(af.FindFieldByName("none") == nil, "field that is not there found")
	sym.Assert(len(schema(af.ToFormSchema().Questions, fs)) == 0, "questions of no field")
	sym.Reach("read")
}

func letters(n string, k, layout int) string {
	if layout == form.Encrypted {
		return "QRSTUV"[:k]
	}
	return string(lib.Upper(n, k))
}

// HTree: fields in trees of every shape.
func HTree() {
	sym.Bound("6 field trees (flat, two and three levels, unnamed and widget kids, equal partial names, inherited type, flags, value, length), in 5 layouts (inline form, everything referenced, object streams, RC4-128 encrypted, form replaced by an update) with literal, hexadecimal and UTF-16 strings; one name and one value of 2 arbitrary letters; read with ExtractAcroForm, ParseAcroForm and forms.ExtractAcroForm")
	layout, style := sym.Choice("layout", form.Layouts), sym.Choice("style", 3)
	a, v := letters("a", 2, layout), []byte(letters("v", 2, layout))
	var fs []*form.Field
	switch sym.Choice("tree", 6) {
	case 0:
		fs = []*form.Field{form.Tx(a, v), {Nm: "check", FT: "Btn", FF: 2, Max: -1, V: form.Name("Yes"), TU: "Label"}, {Nm: "sig", FT: "Sig", FF: -1, Max: -1}}
	case 1:
		fs = []*form.Field{{Nm: "p", FF: -1, Max: -1, Kids: []*form.Field{form.Tx(a, v), form.Tx("b", []byte("x"))}}, form.Tx(a, []byte("top"))}
	case 2: // three levels with inherited entries
		fs = []*form.Field{{Nm: "p", FT: "Tx", FF: 3, Max: 7, V: v, Kids: []*form.Field{
			{Nm: "q", FF: -1, Max: -1, Kids: []*form.Field{{Nm: a, FF: -1, Max: -1}, {Nm: "s", FF: 0, Max: 0, V: []byte("own")}}},
			{Nm: "r", FT: "Ch", FF: 1, Max: -1, Kids: []*form.Field{{Nm: "r", FF: -1, Max: 3}}}}}}
	case 3: // widgets
		fs = []*form.Field{{Nm: a, FT: "Btn", FF: 0x8000, Max: -1, V: form.Name("B"), Kids: []*form.Field{{FF: -1, Max: -1, Rect: [4]int{1, 2, 3, 4}}, {FF: -1, Max: -1, Rect: [4]int{5, 6, 7, 8}}}},
			{Nm: "t", FT: "Tx", FF: -1, Max: -1, V: v, Kids: []*form.Field{{FF: -1, Max: -1}}, Rect: [4]int{10, 20, 110, 50}}}
	case 4: // equal partial names
		fs = []*form.Field{{Nm: "p", FF: -1, Max: -1, Kids: []*form.Field{form.Tx("n", []byte("1"))}}, {Nm: "q", FF: -1, Max: -1, Kids: []*form.Field{form.Tx("n", v)}}, form.Tx("n", []byte("3"))}
	case 5: // an unnamed group
		fs = []*form.Field{{FF: -1, FT: "Tx", Max: 5, Kids: []*form.Field{form.Tx(a, v)}}, form.Tx("z", nil)}
	}
	check(fs, style, layout)
}

// HValue: one field with a value, default and options of every kind.
func HValue() {
	sym.Bound("one field of every type with text (0 to 2 arbitrary bytes below 128), name and array values and defaults, plain and paired options with a selection, a rectangle and a label; 5 layouts, 3 string spellings")
	layout, style := sym.Choice("layout", form.Layouts), sym.Choice("style", 3)
	f := &form.Field{Nm: "n", FF: -1, Max: -1, Rect: [4]int{-3, 0, 97, 12}}
	ascii := func(n string, k int) []byte {
		if layout == form.Encrypted {
			return []byte("(\\x")[:k]
		}
		b := sym.Bytes(n, k)
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
		return b
	}
	switch sym.Choice("kind", 5) {
	case 0:
		f.FT, f.V, f.DV = "Tx", ascii("v", sym.Choice("length", 3)), []byte("d")
	case 1:
		f.FT, f.DV, f.TU = "Tx", ascii("v", 1), string(ascii("tu", 1))
		f.FF = 0x1000
	case 2:
		f.FT, f.V, f.DV = "Btn", form.Name(letters("v", 2, layout)), form.Name("Off")
		f.FF = []int{0, 0x8000, 0x10000}[sym.Choice("button", 3)]
	case 3:
		x := letters("x", 1, layout)
		f.FT, f.V = "Ch", []string{"a b", "c" + x}
		f.Opt = [][2]string{{"a b", "a b"}, {"c" + x, "label " + x}, {"(", "(]"}}
		f.Selected = []int{0, 1}
		f.FF = 0x200000
	case 4:
		x := string(ascii("x", 1))
		f.FT, f.V, f.DV = "Ch", []byte("o"+x), []string{"p"}
		f.Opt = [][2]string{{"o" + x, "o" + x}, {"p", "p"}}
		f.FF = 0x20000
	}
	check([]*form.Field{form.Tx("m", []byte("other")), f}, style, layout)
}

// HUnicode: names and values outside ASCII.
func HUnicode() {
	sym.Bound("a name and a value with one arbitrary character (any of Unicode except surrogates) in UTF-16, and escaped, octal and continued literal strings and names with #xx")
	c := uint32(sym.Uint16("c"))
	var u, want []byte
	switch sym.Choice("plane", 4) {
	case 0:
		sym.Assume(c < 0x80)
		u, want = []byte{0, byte(c)}, []byte{byte(c)}
	case 1:
		sym.Assume(sym.And(c >= 0x80, c < 0x800))
		u, want = []byte{byte(c >> 8), byte(c)}, []byte{byte(0xC0 | c>>6), byte(0x80 | c&63)}
	case 2:
		sym.Assume(sym.And(c >= 0x800, sym.Or(c < 0xD800, c >= 0xE000)))
		u, want = []byte{byte(c >> 8), byte(c)}, []byte{byte(0xE0 | c>>12), byte(0x80 | c>>6&63), byte(0x80 | c&63)}
	case 3:
		h := 0xD840 | c>>10&0x3F
		l := 0xDC00 | c&0x3FF
		u = []byte{byte(h >> 8), byte(h), byte(l >> 8), byte(l)}
		c += 0x20000
		want = []byte{byte(0xF0 | c>>18), byte(0x80 | c>>12&63), byte(0x80 | c>>6&63), byte(0x80 | c&63)}
	}
	s := lib.Hex(append(append([]byte{0xFE, 0xFF}, u...), 0, 'x'))
	want = append(want, 'x')
	f := lib.NewFile(false)
	f.Direct(1, []byte("<< /Type /Catalog /AcroForm << /Fields [ 4 0 R 5 0 R\n6 0 R ] >> >>"))
	f.Direct(4, []byte("<< /FT /Tx /T (n\\(1\\)\\\\) /V "+s+" >>"))
	f.Direct(5, []byte("<</FT/#54x/T "+s+"/V(a\\101\\\nb\\t(c)\\53d)>>"))
	f.Direct(6, []byte("<</V/a#20b#2Fc/T<6>/FT/B#74n>>"))
	f.End(0)
	af := read(f.D.B, form.Inline)
	sym.Assert(len(af.Fields) == 3, "number of fields differs")
	v := af.GetFieldValues()
	sym.Assert(len(v) == 3, "number of values differs")
	sym.Assert(form.Equal(v["n(1)\\"], form.Value(want)), "UTF-16 value differs")
	sym.Assert(sym.EqS(af.Fields[1].T, string(want)), "UTF-16 name differs")
	sym.Assert(form.Equal(af.Fields[1].V, []byte("aAb\t(c)+d")), "escaped value differs")
	sym.Assert(af.Fields[1].FT == "Tx" && af.Fields[2].FT == "Btn", "type differs")
	sym.Assert(form.Equal(af.Fields[2].V, form.Name("a b/c")) && af.Fields[2].T == "`", "name value differs")
	sym.Reach("unicode")
}

// HSchema: the question of a field with arbitrary flags.
func HSchema() {
	sym.Bound("a field of every type with arbitrary 32-bit flags and an arbitrary maximum length, its question and its form's schema")
	f := &acroform.Field{ObjectNum: 7, T: "n", Ff: int(sym.Uint32("ff")), MaxLen: int(sym.Uint16("max")), FT: []string{"Tx", "Btn", "Ch", "Sig", "", "Xx"}[sym.Choice("type", 6)]}
	af := &acroform.AcroForm{Fields: []*acroform.Field{f}}
	s := af.ToFormSchema()
	sym.Assert(len(s.Questions) == 1, "one field, not one question")
	for _, q := range []types.Question{*f.ToQuestion(), s.Questions[0]} {
		sym.Assert(q.Name == "n" && q.Required == (f.Ff&2 != 0) && q.ReadOnly == (f.Ff&1 != 0), "required or read-only differs")
		push, radio := f.Ff&0x10000 != 0, f.Ff&0x8000 != 0
		switch f.FT {
		case "Tx":
			sym.Assert(q.Type == types.ResponseTypeText, "text field of another type")
		case "Ch":
			sym.Assert(q.Type == types.ResponseTypeSelect, "choice field of another type")
		case "Sig":
			sym.Assert(q.Type == types.ResponseTypeSignature, "signature field of another type")
		case "Btn":
			sym.Assert((q.Type == types.ResponseTypeButton) == push, "push button of another type")
			sym.Assert((q.Type == types.ResponseTypeRadio) == (radio && !push), "radio button of another type")
			sym.Assert((q.Type == types.ResponseTypeCheckbox) == (!radio && !push), "checkbox of another type")
		default:
			sym.Assert(q.Type == types.ResponseTypeUnknown, "unknown field of a type")
		}
		if f.MaxLen > 0 {
			sym.Assert(q.Validation != nil && q.Validation.MaxLength != nil && *q.Validation.MaxLength == f.MaxLen, "maximum length differs")
		} else {
			sym.Assert(q.Validation == nil, "maximum length made up")
		}
	}
	sym.Reach("schema")
}

// HMalformed: trees that refer to themselves or to nothing.
func HMalformed() {
	sym.Bound("3 fields whose /Kids refer to arbitrary fields of the tree, to a missing object, or to a number; the call returns")
	f := lib.NewFile(false)
	f.Direct(1, []byte("<< /Type /Catalog /AcroForm << /Fields [4 0 R 4 0 R 9 0 R 5 0 R] >> >>"))
	for i := 4; i <= 6; i++ {
		k := []string{"4 0 R", "5 0 R", "6 0 R", "9 0 R", "1 0 R", "7"}[sym.Choice("kid", 6)]
		f.Direct(i, []byte("<< /FT /Tx /T (n"+lib.Itoa(i)+") /V (x) /Kids ["+k+" 6 0 R] /Parent 6 0 R >>"))
	}
	f.End(0)
	af, err := acroform.ExtractAcroForm(f.D.B, nil, false)
	if err == nil {
		af.GetFieldValues()
		af.ToFormSchema()
		af.FindFieldByName("n")
	}
	for _, form := range []string{"7", "<< >>", "<< /Fields 7 >>", "9 0 R", "1 0 R", "null"} {
		g := lib.NewFile(false)
		g.Direct(1, []byte("<< /Type /Catalog /AcroForm "+form+" >>"))
		g.End(0)
		_, err := acroform.ExtractAcroForm(g.D.B, nil, false)
		sym.Assert(err != nil, "a form without fields array is read")
	}
	sym.Reach("returns")
}
