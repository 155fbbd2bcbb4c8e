// Package form writes files with form fields for the harnesses.
package form

import (
	"verif/harness/lib"
	"verif/harness/sym"
)

// spelling of strings
const (
	Literal = iota
	Hexadecimal
	UTF16
)

// speller writes strings, encrypted for the object they are in where the file is.
type speller struct {
	style int
	std   *lib.Std
}

func (s *speller) str(n int, b []byte) string {
	if s.style == UTF16 {
		w := []byte{0xFE, 0xFF}
		for _, c := range b {
			w = append(w, 0, c)
		}
		b = w
	}
	if s.std != nil {
		b = s.std.Encrypt(n, 0, nil, b)
	}
	if s.style == Literal && s.std == nil {
		return lib.Lit(b, 0)
	}
	return lib.Hex(b)
}

// Field is one field of a form, or one widget of its parent if it has no name.
type Field struct {
	Nm       string // none: a widget of its parent, or a group
	FT       string
	FF, Max  int // -1: none of its own
	V, DV    Value
	Opt      [][2]string // export value, label (equal: a plain string)
	TU       string
	Rect     [4]int
	Kids     []*Field
	Num      int
	Parent   *Field
	Selected []int
	More     string // further entries

	WantFF, WantMax int
	WantFT, Full    string
	WantV           Value
}

// Value is nil, a text, a name or an array of texts.
type Value interface{}

type Name string

func Tx(s string, v Value) *Field { return &Field{Nm: s, FT: "Tx", FF: -1, Max: -1, V: v} }

func (f *Field) dict(s *speller, ref func(string) string) string {
	n := f.Num
	d := "<<"
	if f.Parent != nil {
		d += " /Parent " + lib.Itoa(f.Parent.Num) + " 0 R"
	}
	if f.Nm != "" {
		d += " /T " + s.str(n, []byte(f.Nm))
	} else {
		d += " /Subtype /Widget"
	}
	if f.FT != "" {
		d += "/FT/" + f.FT
	}
	if f.FF >= 0 {
		d += " /Ff " + ref(lib.Itoa(f.FF))
	}
	if f.Max >= 0 {
		d += " /MaxLen " + ref(lib.Itoa(f.Max))
	}
	if f.TU != "" {
		d += " /TU " + s.str(n, []byte(f.TU))
	}
	if f.V != nil {
		d += " /V " + show(s, n, f.V)
	}
	if f.DV != nil {
		d += " /DV " + show(s, n, f.DV)
	}
	if len(f.Opt) > 0 {
		o := "["
		for _, x := range f.Opt {
			if x[0] == x[1] {
				o += s.str(n, []byte(x[0])) + " "
			} else {
				o += "[" + s.str(n, []byte(x[0])) + s.str(n, []byte(x[1])) + "]"
			}
		}
		d += " /Opt " + o + "]"
	}
	if len(f.Selected) > 0 {
		d += " /I ["
		for _, i := range f.Selected {
			d += lib.Itoa(i) + " "
		}
		d += "]"
	}
	if f.Rect != [4]int{} {
		d += " /Rect ["
		for _, r := range f.Rect {
			d += lib.Itoa(r) + " "
		}
		d += "]"
	}
	if len(f.Kids) > 0 {
		k := "["
		for _, x := range f.Kids {
			k += lib.Itoa(x.Num) + " 0 R "
		}
		d += " /Kids " + ref(k+"]")
	}
	return d + f.More + " /MK << /CA /T /T /V >> >>"
}

func show(s *speller, n int, v Value) string {
	switch v := v.(type) {
	case Name:
		return "/" + string(v)
	case []byte:
		return s.str(n, v)
	case []string:
		a := "["
		for _, x := range v {
			a += s.str(n, []byte(x)) + " "
		}
		return a + "]"
	}
	panic("value")
}

// layouts
const (
	Inline     = iota // the form is part of the catalog
	Referenced        // form, field array, kid arrays and numbers are objects of their own
	Streams           // everything lies in an object stream
	Encrypted         // with a user password
	Updated           // the form is replaced in a later revision
	Layouts
)

var Password = []byte("secret")

// Write makes the file, numbering the fields.
func Write(fs []*Field, style, layout int) []byte {
	pdf, _ := Bodies(fs, style, layout)
	return pdf
}

// Bodies is Write with the values of the objects.
func Bodies(fs []*Field, style, layout int) ([]byte, map[int]lib.Content) {
	f := lib.NewFile(false)
	s := &speller{style: style}
	id := make([]byte, 16)
	if layout == Encrypted {
		s.std = &lib.Std{V: 2, R: 3, Len: 16, P: 0xFFFFFFFC, ID: id, Meta: true}
		s.std.Setup(Password, []byte("owner"))
	}
	next := 70
	var extra []int
	var bodies [][]byte
	put := func(n int, body string) {
		if layout == Streams {
			extra = append(extra, n)
			bodies = append(bodies, []byte(body))
			return
		}
		f.Direct(n, []byte(body))
	}
	ref := func(v string) string {
		if layout != Referenced {
			return v
		}
		next++
		put(next, v)
		return lib.Itoa(next) + " 0 R"
	}
	number := 40
	var assign func(fs []*Field, p *Field)
	assign = func(fs []*Field, p *Field) {
		for _, x := range fs {
			number -= 2
			x.Num, x.Parent = number, p
			assign(x.Kids, x)
		}
	}
	assign(fs, nil)
	all := "["
	var emit func(fs []*Field)
	emit = func(fs []*Field) {
		for _, x := range fs {
			put(x.Num, x.dict(s, ref))
			emit(x.Kids)
		}
	}
	for _, x := range fs {
		all += lib.Itoa(x.Num) + " 0 R\n"
	}
	all += "]"
	if layout == Updated {
		f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R /AcroForm << /Fields [5 0 R] >> >>"))
		f.Direct(2, []byte("<< /Type /Pages /Kids [] /Count 0 >>"))
		f.Direct(5, []byte("<< /T (old) /FT /Tx /V (old) >>"))
		f.End(0)
	}
	emit(fs)
	form := "<< /DR << /Fields [7 0 R] >> /Fields " + ref(all) + " /NeedAppearances true >>"
	if layout == Referenced || layout == Streams {
		put(3, form)
		form = "3 0 R"
	}
	f.Direct(1, []byte("<< /Type /Catalog /Pages 2 0 R /AcroForm "+form+" >>"))
	if layout != Updated {
		f.Direct(2, []byte("<< /Type /Pages /Kids [] /Count 0 >>"))
	}
	if layout == Streams {
		f.Compressed(50, extra, bodies)
		f.End(51)
		return f.D.B, f.Now
	}
	if layout == Encrypted {
		f.Direct(60, []byte("<< /Filter /Standard /V 2 /R 3 /Length 128 /P -4 /O "+lib.Hex(s.std.O)+" /U "+lib.Hex(s.std.U)+" >>"))
		f.Root = "1 0 R /Encrypt 60 0 R /ID [" + lib.Hex(id) + lib.Hex(id) + "]"
	}
	f.End(0)
	return f.D.B, f.Now
}

// Settle computes what readers must see: full names and inherited entries.
func Settle(fs []*Field, p *Field) {
	for _, x := range fs {
		x.WantFT, x.WantFF, x.WantMax, x.WantV = x.FT, x.FF, x.Max, x.V
		x.Full = x.Nm
		if p != nil {
			if x.FT == "" {
				x.WantFT = p.WantFT
			}
			if x.FF < 0 {
				x.WantFF = p.WantFF
			}
			if x.Max < 0 {
				x.WantMax = p.WantMax
			}
			if x.V == nil {
				x.WantV = p.WantV
			}
			x.Full = p.Full
			if x.Nm != "" {
				if x.Full != "" {
					x.Full += "."
				}
				x.Full += x.Nm
			}
		}
		if x.WantFF < 0 {
			x.WantFF = 0
		}
		if x.WantMax < 0 {
			x.WantMax = 0
		}
		Settle(x.Kids, x)
	}
}

func Equal(got interface{}, want Value) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case Name:
		g, ok := got.(string)
		return ok && sym.EqS(g, string(w))
	case []byte:
		g, ok := got.(string)
		return ok && sym.EqS(g, string(w))
	case []string:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			s, ok := g[i].(string)
			if !ok || !sym.EqS(s, w[i]) {
				return false
			}
		}
		return true
	}
	return false
}
