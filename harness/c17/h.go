// Package c17: filling and building forms stores the given values and keeps everything else.
package c17

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/form"
	"verif/harness/lib"
	"verif/harness/sym"
)

// same compares values; the given keys of the outer dictionary are left out.
func same(a, b *lib.Val, ignore ...string) bool {
	if a == nil || b == nil || a.Kind != b.Kind || a.Num != b.Num {
		return a == nil && b == nil
	}
	if !sym.EqB(a.S, b.S) {
		return false
	}
	if a.Kind != 'd' {
		if len(a.Vals) != len(b.Vals) {
			return false
		}
		for i := range a.Vals {
			if !same(a.Vals[i], b.Vals[i]) {
				return false
			}
		}
		return true
	}
	skip := func(k string) bool {
		for _, x := range ignore {
			if x == k {
				return true
			}
		}
		return false
	}
	for i, k := range a.Keys {
		if !skip(k) && (b.Count(k) != 1 || !same(a.Vals[i], b.Get(k))) {
			return false
		}
	}
	for _, k := range b.Keys {
		if !skip(k) && a.Count(k) != 1 {
			return false
		}
	}
	return true
}

// textIs reports whether v is a text string with the given characters: UTF-16 after a byte order
// mark, otherwise bytes.
func textIs(v *lib.Val, want string) bool {
	if v == nil || v.Kind != 's' {
		return false
	}
	s := v.S
	if len(s) < 2 || s[0] != 0xFE || s[1] != 0xFF {
		for _, c := range s {
			if c >= 0x80 {
				return false
			}
		}
		return sym.EqB(s, []byte(want))
	}
	var out []byte
	for i := 2; i+1 < len(s); i += 2 {
		c := uint32(s[i])<<8 | uint32(s[i+1])
		if c >= 0xD800 && c < 0xDC00 && i+3 < len(s) {
			c = 0x10000 + (c&0x3FF)<<10 | (uint32(s[i+2])<<8|uint32(s[i+3]))&0x3FF
			i += 2
		}
		switch {
		case c < 0x80:
			out = append(out, byte(c))
		case c < 0x800:
			out = append(out, byte(0xC0|c>>6), byte(0x80|c&63))
		case c < 0x10000:
			out = append(out, byte(0xE0|c>>12), byte(0x80|c>>6&63), byte(0x80|c&63))
		default:
			out = append(out, byte(0xF0|c>>18), byte(0x80|c>>12&63), byte(0x80|c>>6&63), byte(0x80|c&63))
		}
	}
	return len(s)%2 == 0 && sym.EqB(out, []byte(want))
}

// text returns an arbitrary text of 0 to 2 ASCII bytes or with one other character.
func text(n string) string {
	k := sym.Choice(n+"kind", 6)
	if k < 3 {
		b := sym.Bytes(n, k)
		for _, c := range b {
			sym.Assume(c < 0x80)
		}
		return string(b)
	}
	c := uint32(sym.Uint16(n + "r"))
	switch k {
	case 3:
		sym.Assume(sym.And(c >= 0x80, c < 0x800))
		return "(" + string([]byte{byte(0xC0 | c>>6), byte(0x80 | c&63)})
	case 4:
		sym.Assume(sym.And(c >= 0x800, sym.Or(c < 0xD800, c >= 0xE000)))
		return string([]byte{byte(0xE0 | c>>12), byte(0x80 | c>>6&63), byte(0x80 | c&63)}) + "$1"
	}
	c |= 0x10000
	return string([]byte{byte(0xF0 | c>>18), byte(0x80 | c>>12&63), byte(0x80 | c>>6&63), byte(0x80 | c&63)})
}

const (
	ap1 = " /AP << /N << /On 2 0 R /Off 2 0 R >> /D << /Down 2 0 R >> >> /AS /Off"
	apA = " /AP << /N << /A 2 0 R /Off 2 0 R >> >> /AS /A"
	apB = " /AP<</N<</Off 2 0 R/B#20x 2 0 R>>>> /AS /Off"
)

// source is a form with a field of every kind.
func source() []*form.Field {
	a := form.Tx("a", []byte("old"))
	a.TU, a.Max, a.FF, a.DV = "V", 20, 2, []byte("(V) /V (no)")
	a.More = " /DA (/Helv 0 Tf 0 g) /AA << /K << /V (no) /S /JavaScript >> >> /VV 1 "
	check := &form.Field{Nm: "c", FT: "Btn", FF: -1, Max: -1, V: form.Name("Off"), More: ap1}
	radio := &form.Field{Nm: "r", FT: "Btn", FF: 0x8000, Max: -1, V: form.Name("A"), Kids: []*form.Field{
		{FF: -1, Max: -1, More: apA}, {FF: -1, Max: -1, More: apB}}}
	list := &form.Field{Nm: "l", FT: "Ch", FF: 0x200000, Max: -1, V: []string{"x"}, Selected: []int{0}, Opt: [][2]string{{"x", "x"}, {"y", "Y"}}}
	return []*form.Field{a, {Nm: "p", FF: -1, Max: -1, FT: "Tx", Kids: []*form.Field{form.Tx("b", nil), check}}, radio, list, form.Tx("z", []byte("last"))}
}

func find(fs []*form.Field, name string) *form.Field {
	for _, f := range fs {
		if f.Nm == name {
			return f
		}
		if g := find(f.Kids, name); g != nil {
			return g
		}
	}
	return nil
}

// want is the expected /V of a field (by partial name) and /AS of the widgets.
type want struct {
	v  func(*lib.Val) bool
	as []string
}

func isText(s string) func(*lib.Val) bool { return func(v *lib.Val) bool { return textIs(v, s) } }
func isName(s string) func(*lib.Val) bool {
	return func(v *lib.Val) bool { return v != nil && v.Kind == 'n' && sym.EqB(v.S, []byte(s)) }
}
func isTexts(ss ...string) func(*lib.Val) bool {
	return func(v *lib.Val) bool {
		if v == nil || v.Kind != 'a' || len(v.Vals) != len(ss) {
			return false
		}
		for i := range ss {
			if !textIs(v.Vals[i], ss[i]) {
				return false
			}
		}
		return true
	}
}

// verify reads the filled file strictly.
func verify(out []byte, fs []*form.Field, bodies map[int]lib.Content, changed map[string]want) {
	s := lib.ReadTable(out)
	sym.Assert(s != nil, "result is not a conforming file")
	root := s.Trailer.Get("Root").Ref()
	for n, c := range bodies {
		if n == 50 || n == 51 || n == root || n == 3 {
			continue
		}
		v := lib.ParseAll(c.Body)
		var w want
		var isWidget, hit bool
		var f *form.Field
		for name, x := range changed {
			g := find(fs, name)
			if g.Num == n {
				w, f, hit = x, g, true
			}
			for i, k := range g.Kids {
				if k.Nm == "" && k.Num == n {
					isWidget = true
					sym.Assert(same(v, s.Val(n), "AS"), "widget changed")
					sym.Assert(x.as == nil || s.Val(n).Get("AS").Is(x.as[i]), "appearance state differs")
				}
			}
		}
		if isWidget {
			continue
		}
		if !hit {
			sym.Assert(same(v, s.Val(n)), "object changed that is not filled")
			continue
		}
		ignore := []string{"V"}
		if f.FT == "Ch" {
			ignore = append(ignore, "I")
			i := s.Val(n).Get("I")
			sym.Assert(i == nil, "indices of the old value kept")
		}
		if f.FT == "Btn" && len(f.Kids) == 0 {
			ignore = append(ignore, "AS")
			sym.Assert(s.Val(n).Get("AS").Is(w.as[0]), "appearance state differs")
		}
		sym.Assert(same(v, s.Val(n), ignore...), "other entries of the field changed")
		sym.Assert(s.Val(n).Count("V") == 1 && w.v(s.Val(n).Get("V")), "value differs")
	}
	cat := s.Val(root)
	sym.Assert(same(lib.ParseAll(bodies[1].Body), cat, "AcroForm"), "catalog changed")
	get := func(v *lib.Val) *lib.Val {
		if v != nil && v.Kind == 'r' {
			return s.Val(v.Ref())
		}
		return v
	}
	af := get(cat.Get("AcroForm"))
	sym.Assert(af.Count("NeedAppearances") == 1 && af.Get("NeedAppearances").Is("true"), "appearances are not made anew")
	all := get(af.Get("Fields"))
	sym.Assert(all != nil && len(all.Vals) == len(fs) && af.Get("DR") != nil, "form changed")
	for i, f := range fs {
		sym.Assert(all.Vals[i].Ref() == f.Num, "fields of the form changed")
	}
}

var plain = []int{form.Inline, form.Referenced, form.Streams, form.Updated}

// HFill: one or several values, into every kind of field.
func HFill() {
	sym.Bound("a form with text (flat and in a group), checkbox, radio, list fields in 4 layouts and 2 string spellings; 14 fillings: arbitrary texts (0 to 2 ASCII bytes, or any other character) by full and partial name, bool, state name, arrays, numbers, null, several at once with an unknown name")
	fs := source()
	layout, style := plain[sym.Choice("layout", 4)], sym.Choice("style", 2)
	pdf, bodies := form.Bodies(fs, style, layout)
	data := types.FormData{}
	w := map[string]want{}
	switch sym.Choice("fill", 14) {
	case 0:
		t := text("t")
		data["a"], w["a"] = t, want{v: isText(t)}
	case 1:
		t := text("t")
		data["p.b"], w["b"] = t, want{v: isText(t)}
	case 2:
		data["b"], w["b"] = "by part", want{v: isText("by part")}
	case 3:
		data["p.c"], w["c"] = true, want{isName("On"), []string{"On"}}
	case 4:
		data["p.c"], w["c"] = false, want{isName("Off"), []string{"Off"}}
	case 5:
		data["p.c"], w["c"] = "On", want{isName("On"), []string{"On"}}
	case 6:
		data["r"], w["r"] = "B x", want{isName("B x"), []string{"Off", "B x"}}
	case 7:
		data["r"], w["r"] = "A", want{isName("A"), []string{"A", "Off"}}
	case 8:
		t := text("t")
		data["l"], w["l"] = []string{"y", t}, want{v: isTexts("y", t)}
	case 9:
		data["l"], w["l"] = []interface{}{"y"}, want{v: isTexts("y")}
	case 10:
		data["l"], w["l"] = "y", want{v: isText("y")}
	case 11:
		data["a"], w["a"] = -70, want{v: isText("-70")}
		data["z"], w["z"] = 2500000000000000000000.0, want{v: isText("2500000000000000000000")}
		data["p.b"], w["b"] = true, want{v: isText("true")}
	case 12:
		t := string(lib.Upper("t", 1))
		data["a"], w["a"] = t, want{v: isText(t)}
		data["b no such"] = "x"
		data["r"], w["r"] = "Off", want{isName("Off"), []string{"Off", "Off"}}
		data["z"], w["z"] = "z" + t, want{v: isText("z" + t)}
		data["p.c"], w["c"] = true, want{isName("On"), []string{"On"}}
	case 13:
		data["a"], w["a"] = 0.25, want{v: isText("0.25")}
	}
	out, err := acroform.FillFormFields(pdf, data, nil, false)
	sym.Assert(err == nil, "not filled")
	verify(out, fs, bodies, w)
	sym.Reach("filled")
}

// HEntry: every way to fill, and encrypted files.
func HEntry() {
	sym.Bound("the same form in 5 layouts (RC4-128 encrypted included) filled in 8 ways, the value with one arbitrary letter where the file is not encrypted; twice in a row")
	fs := source()
	layout := sym.Choice("layout", form.Layouts)
	var pw []byte
	l := "L"
	if layout == form.Encrypted {
		pw = form.Password
	} else {
		l = string(lib.Upper("l", 1))
	}
	pdf, bodies := form.Bodies(fs, form.Literal, layout)
	orig := append([]byte{}, pdf...)
	entry := sym.Choice("entry", 8)
	fill := func(pdf []byte, data types.FormData) []byte {
		var out []byte
		var err error
		switch entry {
		case 0:
			out, err = acroform.FillForm(pdf, data, pw, false)
		case 1:
			out, err = acroform.FillFormFields(pdf, data, pw, false)
		case 2:
			out, err = acroform.FillFormFieldsWithStreams(pdf, data, pw, false)
		case 3:
			out, err = acroform.ExtractAndFill(pdf, data, pw, false)
		case 4:
			s, e := acroform.ExtractFormSchema(pdf, pw, false)
			sym.Assert(e == nil, "no schema")
			out, err = acroform.FillFormFromSchema(pdf, s, data, pw, false)
		case 5:
			f, e := forms.Extract(pdf, pw, false)
			sym.Assert(e == nil && f.Type() == forms.FormTypeAcroForm, "form not extracted")
			out, err = f.Fill(pdf, data, pw, false)
		case 6, 7:
			af, e := acroform.ExtractAcroForm(pdf, pw, false)
			sym.Assert(e == nil, "form not extracted")
			p, e := parse.OpenWithOptions(pdf, parse.ParseOptions{Password: pw})
			sym.Assert(e == nil, "does not open")
			out = pdf
			for _, name := range []string{"a", "p.c", "r"} {
				if v, ok := data[name]; ok && err == nil {
					f := af.FindFieldByName(name)
					if entry == 7 && len(f.Kids) > 0 {
						f = f.Kids[0] // by its widget
					}
					out, err = acroform.FillFieldValue(out, f, v, p.Encryption(), false)
				}
			}
		}
		sym.Assert(err == nil, "not filled")
		return out
	}
	out := fill(pdf, types.FormData{"a": "v" + l, "r": "B x"})
	again := fill(out, types.FormData{"p.c": true})
	sym.Assert(sym.EqB(pdf, orig), "source overwritten")
	if layout != form.Encrypted {
		w := map[string]want{"a": {v: isText("v" + l)}, "r": {isName("B x"), []string{"Off", "B x"}}}
		verify(out, fs, bodies, w)
		w["c"] = want{isName("On"), []string{"On"}}
		verify(again, fs, bodies, w)
		sym.Reach("plain")
		return
	}
	_, err := parse.Open(again)
	sym.Assert(err != nil, "opens without password")
	sym.Assert(lib.Index(string(again), "vL") < 0, "value not encrypted")
	af, err := acroform.ExtractAcroForm(again, pw, false)
	sym.Assert(err == nil, "filled form not read")
	v := af.GetFieldValues()
	n := 0
	for k, x := range map[string]string{"a": "vL", "r": "B x", "p.c": "On", "z": "last"} {
		sym.Assert(v[k] == x, "value differs")
		n++
	}
	sym.Assert(len(v) == 5 && af.NeedAppearances, "number of values differs")
	sym.Assert(af.FindFieldByName("a").DA == "/Helv 0 Tf 0 g" || layout == form.Encrypted, "default appearance differs")
	sym.Reach("encrypted")
}

// HBuild: fields of every kind with every setter.
func HBuild() {
	sym.Bound("3 fields out of text, checkbox, radio, list and push button, the first with required and read-only set and taken back in every way, values and defaults of 0 to 2 ASCII bytes or any other character, maximum lengths, rectangles with signs and fractions; FieldBuilder in a table file, an xref stream file and an object stream file, and FormBuilder")
	mode := sym.Choice("mode", 4)
	t := "t"
	kind := sym.Choice("kind", 5)
	if mode == 0 {
		t = text("t")
	}
	sb := write.NewSimplePDFBuilder()
	w := sb.Writer()
	w.UseXRefStream(mode == 1)
	w.UseObjectStream(mode == 2)
	type adder interface {
		AddTextField(string, []float64, int) *acroform.FieldDef
		AddCheckbox(string, []float64, int) *acroform.FieldDef
		AddRadioButton(string, []float64, int) *acroform.FieldDef
		AddChoiceField(string, []float64, int, []string) *acroform.FieldDef
		AddButton(string, []float64, int) *acroform.FieldDef
	}
	var b adder
	fb, b2 := acroform.NewFieldBuilder(w), acroform.NewFormBuilder(sb)
	b = fb
	if mode == 3 {
		b = b2
	}
	sb.FinalizePage(sb.AddPage(write.PageSizeA4))
	rect := []float64{-1.5, 20, 100.25, 0.0000625}
	flags := 0
	var f *acroform.FieldDef
	ft := []string{"Tx", "Btn", "Btn", "Ch", "Btn"}[kind]
	name := "N" + t
	switch kind {
	case 0:
		f = b.AddTextField(name, rect, 0)
	case 1:
		f = b.AddCheckbox(name, rect, 0)
	case 2:
		f = b.AddRadioButton(name, rect, 0)
		flags = 0x8000
	case 3:
		f = b.AddChoiceField(name, rect, 0, []string{"o" + t, "p)", ""})
	case 4:
		f = b.AddButton(name, rect, 0)
		flags = 0x10000
	}
	ops := sym.Choice("flags", 9)
	switch ops % 3 {
	case 1:
		f.SetRequired(true)
		flags |= 2
	case 2:
		f.SetRequired(true)
	}
	switch ops / 3 {
	case 1:
		f.SetReadOnly(true)
		flags |= 1
	case 2:
		f.SetReadOnly(true).SetReadOnly(false)
	}
	if ops%3 == 2 {
		f.SetRequired(false)
	}
	val := isText("v" + t)
	var v interface{} = "v" + t
	if ft == "Btn" {
		v, val = "V /x", isName("V /x")
		if ops == 0 {
			v, val = true, isName("Yes")
		}
	}
	dv := isText("d")
	if ft == "Btn" {
		dv = isName("d")
	}
	f.SetValue(v).SetDefault("d")
	max := []int{0, 1, 65535}[ops%3]
	if max > 0 {
		f.SetMaxLength(max)
	}
	b.AddTextField("second", []float64{1, 2, 3, 4}, 0)
	b.AddChoiceField("third", []float64{1, 2, 3, 4}, 0, []string{"a", "b"}).SetValue([]string{"b", "a"})
	form := 0
	var err error
	if mode == 3 {
		form, err = b2.BuildForm()
	} else {
		form, err = fb.Build()
		cat := w.AddObject([]byte("<< /Type /Catalog /Lang (en) >>"))
		w.SetRoot(cat)
		sym.Assert(acroform.AddAcroFormToCatalog(w, cat, form) == nil, "form not added")
	}
	sym.Assert(err == nil, "not built")
	pdf, err := sb.Bytes()
	sym.Assert(err == nil, "not written")
	af, err := acroform.ExtractAcroForm(pdf, nil, false)
	sym.Assert(err == nil && len(af.Fields) == 3 && af.NeedAppearances, "form does not read back")
	g := af.Fields[0]
	sym.Assert(sym.EqS(g.T, name) && g.FT == ft && g.Ff == flags && g.MaxLen == max, "field differs")
	sym.Assert(len(g.Rect) == 4, "rectangle differs")
	for i := range rect {
		sym.Assert(g.Rect[i] == rect[i], "rectangle differs")
	}
	sym.Assert(g.V != nil && (ft == "Btn" || sym.EqS(g.V.(string), "v"+t)), "value reads back differently")
	sym.Assert(af.Fields[1].T == "second" && af.Fields[2].T == "third" && af.Fields[1].V == nil, "fields differ")
	if mode == 1 || mode == 2 {
		sym.Reach("streams")
		return
	}
	s := lib.ReadTable(pdf)
	sym.Assert(s != nil, "not a conforming file")
	cat := s.Val(s.Trailer.Get("Root").Ref())
	sym.Assert(cat.Get("Type").Is("Catalog") && cat.Get("Pages") != nil && cat.Count("AcroForm") == 1 && cat.Get("AcroForm").Ref() == form, "catalog differs")
	sym.Assert(mode == 3 || textIs(cat.Get("Lang"), "en"), "catalog lost an entry")
	all := s.Val(form).Get("Fields")
	sym.Assert(all != nil && len(all.Vals) == 3, "number of fields differs")
	d := s.Val(all.Vals[0].Ref())
	sym.Assert(textIs(d.Get("T"), name) && d.Get("FT").Is(ft), "name or type differs")
	sym.Assert((flags == 0 && d.Get("Ff") == nil) || d.Get("Ff").Int() == flags, "flags differ")
	sym.Assert((max == 0 && d.Get("MaxLen") == nil) || d.Get("MaxLen").Int() == max, "maximum length differs")
	sym.Assert(d.Count("V") == 1 && val(d.Get("V")), "value differs")
	sym.Assert(d.Count("DV") == 1 && dv(d.Get("DV")), "default differs")
	if ft == "Ch" {
		sym.Assert(isTexts("o"+t, "p)", "")(d.Get("Opt")), "options differ")
	} else {
		sym.Assert(d.Get("Opt") == nil, "options made up")
	}
	sym.Assert(isTexts("b", "a")(s.Val(all.Vals[2].Ref()).Get("V")), "array value differs")
	sym.Assert(f.Required == (flags&2 != 0) && f.ReadOnly == (flags&1 != 0), "definition differs")
	sym.Reach("built")
}

// HAction: actions and appearances added to fields with other entries.
func HAction() {
	sym.Bound("a field without, with inline and with referenced actions; every sequence of 2 of 9 additions (URI, JavaScript, GoTo, SubmitForm, ResetForm, mouse events) with arbitrary texts of 2 ASCII bytes; a text appearance of 2 arbitrary ASCII bytes")
	w := write.NewPDFWriter()
	aa := w.AddObject([]byte("<< /K << /S /JavaScript /JS (k) >> /E << /S /Named >> >>"))
	body := "<< /FT /Tx /T (/A) /MK << /A 1 >> "
	had := sym.Choice("had", 3)
	switch had {
	case 1:
		body += "/A << /S /URI /URI (old) /A 1 >> /AA << /K << /S /JavaScript /JS (k) >> /E << /S /Named >> >> "
	case 2:
		body += "/AA " + lib.Itoa(aa) + " 0 R "
	}
	n := w.AddObject([]byte(body + ">>"))
	cat := w.AddObject([]byte("<< /Type /Catalog /F " + lib.Itoa(n) + " 0 R >>"))
	w.SetRoot(cat)
	b := sym.Bytes("t", 2)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	t := string(b)
	var main func(*lib.Val) bool
	events := map[string]func(*lib.Val) bool{}
	if had > 0 {
		events["K"] = func(v *lib.Val) bool { return v.Get("S").Is("JavaScript") && textIs(v.Get("JS"), "k") }
		events["E"] = func(v *lib.Val) bool { return v.Get("S").Is("Named") }
	}
	if had == 1 {
		main = func(v *lib.Val) bool { return v.Get("S").Is("URI") && textIs(v.Get("URI"), "old") }
	}
	uri := func(v *lib.Val) bool {
		return v.Get("S").Is("URI") && v.Get("URI").Kind == 's' && sym.EqB(v.Get("URI").S, []byte(t))
	}
	js := func(v *lib.Val) bool { return v.Get("S").Is("JavaScript") && textIs(v.Get("JS"), t) }
	for i := 0; i < 2; i++ {
		var err error
		switch sym.Choice("add", 10) {
		case 0:
			err = acroform.AddActionToField(n, &acroform.Action{Type: acroform.ActionTypeURI, URI: t}, w)
			main = uri
		case 1:
			err = acroform.AddActionToField(n, &acroform.Action{Type: acroform.ActionTypeJavaScript, JavaScript: t}, w)
			main = js
		case 2:
			err = acroform.AddActionToField(n, &acroform.Action{Type: acroform.ActionTypeGoTo, PageNum: 3}, w)
			main = func(v *lib.Val) bool {
				return v.Get("S").Is("GoTo") && v.Get("D").Kind == 'a' && v.Get("D").Vals[0].Ref() == 3 && v.Get("D").Vals[1].Is("Fit")
			}
		case 3:
			err = acroform.AddActionToField(n, &acroform.Action{Type: acroform.ActionTypeSubmit}, w)
			main = func(v *lib.Val) bool { return v.Get("S").Is("SubmitForm") }
		case 4:
			err = acroform.AddActionToField(n, &acroform.Action{Type: acroform.ActionTypeReset}, w)
			main = func(v *lib.Val) bool { return v.Get("S").Is("ResetForm") }
		case 5:
			err = acroform.AddMouseAction(n, "onClick", &acroform.Action{Type: acroform.ActionTypeURI, URI: t}, w)
			events["U"] = uri
		case 6:
			err = acroform.AddMouseAction(n, "onMouseDown", &acroform.Action{Type: acroform.ActionTypeJavaScript, JavaScript: t}, w)
			events["D"] = js
		case 7:
			err = acroform.AddMouseAction(n, "onEnter", &acroform.Action{Type: acroform.ActionTypeURI, URI: t}, w)
			events["E"] = uri
		case 8:
			err = acroform.AddMouseAction(n, "onExit", &acroform.Action{Type: acroform.ActionTypeJavaScript, JavaScript: t}, w)
			events["X"] = js
		case 9:
			sym.Assert(acroform.AddMouseAction(n, "onHover", &acroform.Action{Type: acroform.ActionTypeURI}, w) != nil, "unknown event accepted")
			sym.Assert(acroform.AddMouseAction(n, "onExit", &acroform.Action{Type: acroform.ActionTypeReset}, w) != nil, "unsupported mouse action accepted")
			sym.Assert(acroform.AddActionToField(n, &acroform.Action{Type: acroform.ActionTypeGoTo}, w) != nil, "GoTo without destination accepted")
			sym.Assert(acroform.AddActionToField(n+9, &acroform.Action{Type: acroform.ActionTypeReset}, w) != nil, "action added to no field")
		}
		sym.Assert(err == nil, "action not added")
	}
	num, err := acroform.NewAppearanceBuilder(w).CreateTextAppearance(t, 100, 20, 12, "Helv")
	sym.Assert(err == nil && acroform.AddAppearanceToField(n, num, w) == nil, "appearance not added")
	pdf, err := w.Bytes()
	sym.Assert(err == nil, "not written")
	s := lib.ReadTable(pdf)
	sym.Assert(s != nil, "not a conforming file")
	d := s.Val(n)
	sym.Assert(same(lib.ParseAll([]byte(body+">>")), d, "A", "AA", "AP"), "other entries changed")
	if main == nil {
		sym.Assert(d.Get("A") == nil, "action made up")
	} else {
		sym.Assert(d.Count("A") == 1 && main(d.Get("A")), "action differs")
	}
	ev := d.Get("AA")
	if ev != nil && ev.Kind == 'r' {
		ev = s.Val(ev.Ref())
	}
	for k, f := range events {
		sym.Assert(ev.Count(k) == 1 && f(ev.Get(k)), "event action differs")
	}
	if len(events) == 0 {
		sym.Assert(ev == nil, "event action made up")
	} else {
		sym.Assert(len(ev.Keys) == len(events), "number of event actions differs")
	}
	sym.Assert(d.Count("AP") == 1 && d.Get("AP").Get("N").Ref() == num, "appearance differs")
	sym.Assert(s.Val(num).Get("Subtype").Is("Form"), "appearance is no form")
	data, err := acroform.GetFieldAppearance(&acroform.Field{ObjectNum: n}, pdf, nil, false)
	sym.Assert(err == nil, "appearance not read")
	at := lib.Index(string(data), " Td\n")
	sym.Assert(at > 0, "no position")
	str, end := lib.ParseVal(data, at+4)
	sym.Assert(str != nil && str.Kind == 's' && sym.EqB(str.S, b), "appearance shows another text")
	sym.Assert(end+3 <= len(data) && string(data[end:end+3]) == " Tj", "text not shown")
	sym.Reach("actions")
}

// HReplace: flattening, and replacing objects.
func HReplace() {
	sym.Bound("the same form in 4 layouts flattened, and one or two objects of it replaced, with an arbitrary name of 2 letters")
	fs := source()
	layout := plain[sym.Choice("layout", 4)]
	pdf, bodies := form.Bodies(fs, form.Literal, layout)
	l := string(lib.Upper("l", 2))
	op := sym.Choice("op", 4)
	var out []byte
	var err error
	replaced := map[int]string{}
	a, z := fs[0].Num, fs[4].Num
	switch op {
	case 0:
		out, err = acroform.FlattenForm(pdf, nil, false)
	case 1:
		replaced[a] = "<< /New /" + l + " >>"
		out, err = acroform.ReplaceFieldObject(pdf, a, 0, []byte(replaced[a]), nil, false)
	case 2:
		if layout != form.Streams {
			return
		}
		replaced[a], replaced[z] = "<< /New /"+l+" >>", "["+l[:0]+"1 2]"
		out, err = acroform.RebuildObjectStream(pdf, 50, []acroform.StreamObjectUpdate{{ObjNum: a, Index: 1, NewContent: []byte(replaced[a])}, {ObjNum: z, NewContent: []byte(replaced[z])}}, nil, false)
	case 3:
		_, err = acroform.ReplaceFieldObject(pdf, 999, 0, []byte("<< >>"), nil, false)
		sym.Assert(err != nil, "object that is not there replaced")
		return
	}
	sym.Assert(err == nil, "not rebuilt")
	s := lib.ReadTable(out)
	sym.Assert(s != nil, "not a conforming file")
	for n, c := range bodies {
		if n == 50 || n == 51 {
			continue
		}
		v := lib.ParseAll(c.Body)
		if r, ok := replaced[n]; ok {
			sym.Assert(same(lib.ParseAll([]byte(r)), s.Val(n)), "object not replaced")
		} else if n == 1 && op == 0 {
			sym.Assert(same(v, s.Val(n), "AcroForm") && s.Val(n).Get("AcroForm") == nil, "catalog differs")
		} else {
			sym.Assert(same(v, s.Val(n)), "another object changed")
		}
	}
	sym.Reach("replaced")
}
