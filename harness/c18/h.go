// Package c18: form values are rejected exactly when they break a constraint of the form.
package c18

import (
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// chars is the number of characters of a valid UTF-8 text.
func chars(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = sym.IteInt(s[i]&0xC0 != 0x80, n+1, n)
	}
	return n
}

// text returns an arbitrary text of up to max ASCII bytes, possibly with another character in front.
func text(n string, max int) string {
	k := sym.Choice(n+"kind", 4)
	b := sym.Bytes(n, sym.Choice(n+"len", max+1))
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	s := string(b)
	if k == 0 {
		return s
	}
	c := uint32(sym.Uint16(n + "r"))
	switch k {
	case 1:
		sym.Assume(sym.And(c >= 0x80, c < 0x800))
		return string([]byte{byte(0xC0 | c>>6), byte(0x80 | c&63)}) + s
	case 2:
		sym.Assume(sym.And(c >= 0x800, sym.Or(c < 0xD800, c >= 0xE000)))
		return string([]byte{byte(0xE0 | c>>12), byte(0x80 | c>>6&63), byte(0x80 | c&63)}) + s
	}
	c |= 0x10000
	return string([]byte{byte(0xF0 | c>>18), byte(0x80 | c>>12&63), byte(0x80 | c>>6&63), byte(0x80 | c&63)}) + s
}

func isFor(err error, name string) bool {
	e, ok := err.(*acroform.ValidationError)
	return ok && sym.EqS(e.FieldName, name) && e.Message != "" && len(e.Error()) > 0
}

// one checks a verdict for one field: an error naming it exactly when bad.
func one(err error, bad bool, name, msg string) {
	if err == nil {
		sym.Assert(sym.Not(bad), msg+": accepted")
	} else {
		sym.Assert(bad, msg+": rejected")
		sym.Assert(isFor(err, name), "error names another field")
	}
}

// HText: text fields.
func HText() {
	sym.Bound("a text field with arbitrary 32-bit flags and maximum length 0 to 65535; texts of 0 to 3 arbitrary ASCII bytes, with or without one other character, numbers and nil")
	ff, max := int(sym.Uint32("ff")), int(sym.Uint16("max"))
	p := &acroform.Field{T: "p"}
	f := &acroform.Field{T: "n", Parent: p, FT: "Tx", Ff: ff, MaxLen: max}
	required := ff&2 != 0
	switch sym.Choice("value", 4) {
	case 0:
		t := text("t", 3)
		n := chars(t)
		one(acroform.ValidateField(f, t), sym.Or(sym.And(n == 0, required), sym.And(max > 0, n > max)), "p.n", "text")
	case 1:
		one(acroform.ValidateField(f, nil), required, "p.n", "no value")
	case 2:
		one(acroform.ValidateField(f, 1234), sym.And(max > 0, max < 4), "p.n", "number")
	case 3:
		one(acroform.ValidateField(f, -2.5), sym.And(max > 0, max < 4), "p.n", "number")
		sym.Assert(acroform.ValidateField(nil, "x") != nil, "no field, no error")
	}
	sym.Reach("text")
}

// HChoice: choice and radio fields with options.
func HChoice() {
	sym.Bound("list and combo boxes, radio buttons and checkboxes with arbitrary flags, without options and with up to 2 options (a text, a pair of export value and label) of 1 arbitrary byte each; one value or up to 2 values of 0 or 1 arbitrary bytes")
	ff := int(sym.Uint32("ff"))
	f := &acroform.Field{T: "n", FT: "Ch", Ff: ff}
	if sym.Choice("button", 2) == 1 {
		f.FT = "Btn"
	}
	var opts []string
	shape := sym.Choice("options", 4)
	if shape&1 != 0 {
		opts = append(opts, sym.String("o", 1))
		f.Opt = append(f.Opt, opts[0])
	}
	if shape&2 != 0 {
		x, y := sym.String("o", 1), sym.String("o", 1)
		opts = append(opts, x, y)
		f.Opt = append(f.Opt, []interface{}{x, y})
	}
	isOpt := func(s string) bool {
		r := false
		for _, o := range opts {
			r = sym.Or(r, sym.EqS(o, s))
		}
		return r
	}
	var v interface{}
	empty, ok := false, true
	switch k := sym.Choice("value", 8); k {
	case 0:
		empty = true
	case 1:
		v, empty = "", true
	case 2:
		v, empty = []string{}, true
	case 3:
		v, empty = []interface{}{}, true
	case 4:
		s := sym.String("v", 1)
		v, ok = s, isOpt(s)
	default:
		s, t := sym.String("v", 1), sym.String("v", 1)
		ok = sym.And(isOpt(s), isOpt(t))
		v = []string{s, t}
		if k == 6 {
			v = []interface{}{s, t}
		}
		if k == 7 {
			v, ok = []string{s}, isOpt(s)
		}
		if f.FT == "Btn" {
			return // buttons have one value
		}
	}
	required := ff&2 != 0
	bad := sym.And(required, empty)
	if !empty && len(opts) > 0 {
		if f.FT == "Ch" {
			bad = sym.And(sym.Not(ok), ff&0x60000 != 0x60000)
		} else {
			bad = sym.And(sym.Not(ok), ff&0x8000 != 0)
		}
	}
	one(acroform.ValidateField(f, v), bad, "n", "choice")
	sym.Reach("choice")
}

// HForm: the errors for all values of a form.
func HForm() {
	sym.Bound("a form of 5 fields, 2 of them in a group and 1 with widgets, each with arbitrary required bit and a maximum length; every choice of values given, too long, or missing, and an unknown name; every map order")
	sym.MapOrders(5)
	var fs []*acroform.Field
	mk := func(name string, p *acroform.Field) *acroform.Field {
		f := &acroform.Field{T: name, FT: "Tx", Parent: p, MaxLen: 2, ObjectNum: 10 + len(fs)}
		if sym.Bool("required") {
			f.Ff = 2
		}
		fs = append(fs, f)
		if p != nil {
			p.Kids = append(p.Kids, f)
		}
		return f
	}
	a := mk("a", nil)
	g := &acroform.Field{T: "g", Ff: 2}
	x, w := mk("x", g), mk("w", g)
	w.Kids = []*acroform.Field{{FT: "Tx", Ff: w.Ff, Parent: w}}
	af := &acroform.AcroForm{Fields: []*acroform.Field{a, g}}
	_ = x
	data := types.FormData{}
	var bad []string
	for _, f := range fs {
		name := f.GetFullName()
		switch sym.Choice(name, 4) {
		case 0:
			data[name] = "ok"
		case 1:
			data[name] = "too long"
			bad = append(bad, name)
		case 2:
			data[name] = ""
			if f.Ff == 2 {
				bad = append(bad, name)
			}
		case 3:
			if f.Ff == 2 {
				bad = append(bad, name)
			}
		}
	}
	unknown := sym.Choice("unknown", 2)
	if unknown == 1 {
		data["gx"] = "ok"
	}
	errs := acroform.ValidateFormData(af, data)
	again := acroform.ValidateFormData(af, data)
	sym.Assert(len(errs) == len(bad)+unknown, "number of errors differs")
	sym.Assert(len(again) == len(errs), "number of errors differs between runs")
	for i := range errs {
		sym.Assert(errs[i].Error() == again[i].Error(), "order of errors differs between runs")
	}
	for _, name := range bad {
		n := 0
		for _, e := range errs {
			if isFor(e, name) {
				n++
			}
		}
		sym.Assert(n == 1, "field without its error")
	}
	sym.Reach("form")
}

// HQuestion: values against the rules of a question.
func HQuestion() {
	sym.Bound("questions with arbitrary minimum and maximum lengths (16 bits), texts of 0 to 3 arbitrary ASCII bytes with or without one other character; patterns ^[0-9]{2}$ and AB with 2 arbitrary bytes; numeric ranges with texts, integers and floats on and beside the limits")
	q := &types.Question{Name: "q", Type: types.ResponseTypeText}
	switch sym.Choice("rule", 4) {
	case 0:
		lo, hi := int(sym.Uint16("lo")), int(sym.Uint16("hi"))
		r := &types.ValidationRules{}
		useLo, useHi := sym.Choice("useLo", 2) == 1, sym.Choice("useHi", 2) == 1
		if useLo {
			r.MinLength = &lo
		}
		if useHi {
			r.MaxLength = &hi
		}
		q.Validation = r
		t := text("t", 3)
		n := chars(t)
		one(acroform.ValidateFieldValue(q, t), sym.Or(sym.And(useLo, n < lo), sym.And(useHi, n > hi)), "q", "length")
	case 1:
		b := sym.Bytes("t", sym.Choice("len", 4))
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
		digit := func(c byte) bool { return sym.And(c >= '0', c <= '9') }
		q.Validation = &types.ValidationRules{Pattern: "^[0-9]{2}$"}
		one(acroform.ValidateFieldValue(q, string(b)), len(b) != 2 || sym.Not(sym.And(digit(b[0]), digit(b[len(b)-1]))), "q", "pattern")
	case 2:
		b := sym.Bytes("t", 3)
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
		q.Validation = &types.ValidationRules{Pattern: "AB", ErrorMessage: "own message"}
		err := acroform.ValidateFieldValue(q, string(b))
		in := sym.Or(sym.And(b[0] == 'A', b[1] == 'B'), sym.And(b[1] == 'A', b[2] == 'B'))
		one(err, sym.Not(in), "q", "pattern")
		if err != nil {
			sym.Assert(err.(*acroform.ValidationError).Message == "own message", "message differs")
		}
		q.Validation = &types.ValidationRules{Pattern: "("}
		sym.Assert(acroform.ValidateFieldValue(q, "x") != nil, "bad pattern accepted")
	case 3:
		lo, hi := -1.5, 20.0
		q.Validation = &types.ValidationRules{MinValue: &lo, MaxValue: &hi}
		number := sym.Choice("number", 2) == 1
		if number {
			q.Type = types.ResponseTypeNumber
		}
		type tc struct {
			v   interface{}
			out bool
		}
		cs := []tc{{"-1.5", false}, {"-1.51", true}, {-2, true}, {-1, false}, {20, false}, {20.0, false}, {"20.0", false}, {20.0001, true}, {21, true}, {"1e1", false}, {"1e2", true}, {0, false}, {"0", false}}
		c := cs[sym.Choice("value", len(cs))]
		one(acroform.ValidateFieldValue(q, c.v), c.out && number, "q", "range")
	}
	sym.Reach("question")
}

// HSchema: the errors for all values of a schema.
func HSchema() {
	sym.Bound("a schema of 3 questions with arbitrary required marks, one with a maximum length; every choice of values and an unknown name; every map order")
	sym.MapOrders(4)
	max := 2
	s := &types.FormSchema{}
	data := types.FormData{}
	want := 0
	for i, name := range []string{"b", "a", "c"} {
		q := types.Question{Name: name, Type: types.ResponseTypeText, Required: sym.Choice("required", 2) == 1}
		if i < 2 {
			q.Validation = &types.ValidationRules{MaxLength: &max}
		}
		switch sym.Choice("given", 3) {
		case 0:
			data[name] = "ok"
		case 1:
			data[name] = string(lib.Upper("t", 3))
			if i < 2 {
				want++
			}
		case 2:
			if q.Required {
				want++
			}
		}
		s.Questions = append(s.Questions, q)
	}
	if sym.Choice("unknown", 2) == 1 {
		data["d"] = "x"
		want++
	}
	errs, again := acroform.ValidateFormSchema(s, data), acroform.ValidateFormSchema(s, data)
	sym.Assert(len(errs) == want && len(again) == want, "number of errors differs")
	for i := range errs {
		sym.Assert(sym.EqS(errs[i].Error(), again[i].Error()), "order of errors differs between runs")
	}
	sym.Reach("schema")
}
