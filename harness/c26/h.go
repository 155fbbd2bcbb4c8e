// Package c26: XFA forms and settings survive their XML.
package c26

import (
	"reflect"

	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// slots hands out the texts of a packet: plain ones but for one, which is arbitrary.
type slots struct {
	n, at int
	text  string
}

func newSlots(total int) *slots {
	s := &slots{at: sym.Choice("slot", total)}
	s.text = text("t")
	return s
}

func (s *slots) next() string {
	i := s.n
	s.n++
	if i == s.at {
		return s.text
	}
	return "word " + lib.Itoa(i)
}

// text returns a text that spells no number and has no outer white space.
func text(name string) string {
	switch sym.Choice(name+"_kind", 3) {
	case 0:
		b := sym.Byte(name)
		sym.Assume(sym.And(b > ' ', b < 127))
		return "V" + string([]byte{b}) + "1"
	case 1:
		b, c := sym.Byte(name), sym.Byte(name+"2")
		sym.Assume(sym.And(b == 0xC3, sym.And(c >= 0x80, c < 0xC0)))
		return string([]byte{b, c}) + "x"
	}
	return []string{"\u20ac \U0001F600 b", "a\r\nb\tc\nd", "]]></x><value>&amp;&#65;", "Bank holiday", "<![CDATA[x]]> 'q' \"p\""}[sym.Choice(name+"_text", 5)]
}

// el is an element to be written in some spelling.
type el struct {
	name  string
	attrs [][2]string
	text  string
	kids  []*el
}

func (e *el) attr(name, value string) *el {
	e.attrs = append(e.attrs, [2]string{name, value})
	return e
}

func (e *el) add(k ...*el) *el {
	e.kids = append(e.kids, k...)
	return e
}

func leaf(name, text string) *el { return &el{name: name, text: text} }

const styles = 6

func esc(s string, style int) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '<':
			b = append(b, []string{"&lt;", "&#60;", "&#x3C;"}[style%3]...)
		case c == '&':
			b = append(b, []string{"&amp;", "&#38;", "&#x26;"}[style%3]...)
		case c == '>':
			b = append(b, "&gt;"...)
		case c == '"':
			b = append(b, "&quot;"...)
		case c == '\'':
			b = append(b, "&apos;"...)
		case c == '\r' || c == '\n' || c == '\t':
			b = append(b, []string{"&#" + lib.Itoa(int(c)) + ";", "&#x" + string("0123456789abcdef"[c]) + ";"}[style%2]...)
		case c == 'e' && style == 2:
			b = append(b, "&#101;"...)
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// render writes the element in one of several spellings.
func (e *el) render(style int) string {
	p, q, ws := "", "\"", "\n  "
	switch style {
	case 1:
		q, ws = "'", ""
	case 2:
		p = "x:"
	case 3:
		ws = "\r\n<!-- <field name=\"no\"><value>no</value></field> -->\t"
	case 4:
		ws = "<?pi <style>?>"
	}
	r := "<" + p + e.name
	for i := range e.attrs {
		a := e.attrs[i]
		if style%2 == 1 { // attributes in the other order
			a = e.attrs[len(e.attrs)-1-i]
		}
		r += []string{" ", "\n", "  "}[style%3] + a[0]
		if style == 5 {
			r += " = "
		} else {
			r += "="
		}
		r += q + esc(a[1], style) + q
	}
	if len(e.kids) == 0 && e.text == "" && style%2 == 0 {
		return r + "/>"
	}
	r += ">"
	switch {
	case e.text != "" && style == 4 && lib.Index(e.text, "]]>") < 0 && lib.Index(e.text, "\r") < 0:
		r += "<![CDATA[" + e.text + "]]>"
	case e.text != "" && style == 3:
		r += "\n  " + esc(e.text, style) + " <!-- <value>no</value> -->\n"
	case e.text != "":
		r += esc(e.text, style)
	}
	for _, k := range e.kids {
		r += ws + k.render(style)
	}
	if len(e.kids) > 0 {
		r += ws
	}
	return r + "</" + p + e.name + ">"
}

func document(e *el) string {
	style := sym.Choice("style", styles)
	x := e.render(style)
	if style == 2 {
		return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><!-- c --><x:xdp xmlns:x=\"u\">" + x + "</x:xdp>"
	}
	return x
}

func same(got, want interface{}, msg string) {
	sym.Assert(reflect.DeepEqual(got, want), msg)
}

// mode tells whether what the library writes is read, or XML in another spelling.
func mode() bool { return sym.Choice("written", 2) == 1 }

func written(x string, err error, y string, err2 error) string {
	sym.Assert(err == nil && err2 == nil, "not written")
	sym.Assert(sym.EqS(x, y), "written differently the second time")
	return x
}

// HLocale: locale sets.
func HLocale() {
	sym.Bound("a locale set with a default and two locales, with all settings, none, or any one of 6 missing; one of 19 texts with any printable ASCII character, any character U+00C0 to U+00FF or one of 5 texts with markup; precisions 0, 2 and 12; as written by the library and in 6 spellings")
	s := newSlots(19)
	miss := sym.Choice("missing", 8) // 6: none missing, 7: all missing
	prec := []int{0, 2, 12}[sym.Choice("precision", 3)]
	has := func(i int) bool { return miss != i && miss != 7 }
	if s.at > 3 && miss != 6 && miss != 7 {
		return // texts are varied with everything present
	}
	if prec != 0 && s.at > 0 {
		return
	}
	l := types.XFALocale{Code: s.next(), Name: s.next()}
	le := (&el{name: "locale"}).attr("code", l.Code).attr("name", l.Name)
	if has(0) {
		l.Calendar = &types.XFACalendar{Symbols: s.next(), FirstDay: s.next(), Weekend: s.next(), Holidays: []string{s.next(), s.next()}}
		c := l.Calendar
		le.add((&el{name: "calendar"}).attr("symbols", c.Symbols).attr("firstDay", c.FirstDay).attr("weekend", c.Weekend).add(leaf("holiday", c.Holidays[0]), leaf("holiday", c.Holidays[1])))
	}
	if has(1) {
		c := &types.XFACurrency{Symbol: s.next(), Name: s.next(), Precision: prec}
		l.Currency = c
		le.add((&el{name: "currency"}).attr("symbol", c.Symbol).attr("name", c.Name).attr("precision", lib.Itoa(prec)))
	}
	if has(2) {
		c := &types.XFADatePattern{Format: s.next(), Symbol: s.next()}
		l.DatePattern = c
		le.add((&el{name: "datePattern"}).attr("format", c.Format).attr("symbol", c.Symbol))
	}
	if has(3) {
		c := &types.XFATimePattern{Format: s.next(), Symbol: s.next()}
		l.TimePattern = c
		le.add((&el{name: "timePattern"}).attr("format", c.Format).attr("symbol", c.Symbol))
	}
	if has(4) {
		c := &types.XFANumberPattern{Format: s.next(), Symbol: s.next(), Grouping: s.next(), Decimal: s.next(), Precision: prec}
		l.NumberPattern = c
		le.add((&el{name: "numberPattern"}).attr("format", c.Format).attr("symbol", c.Symbol).attr("grouping", c.Grouping).attr("decimal", c.Decimal).attr("precision", lib.Itoa(prec)))
	}
	if has(5) {
		c := &types.XFAText{Direction: s.next(), Encoding: s.next()}
		l.Text = c
		le.add((&el{name: "text"}).attr("direction", c.Direction).attr("encoding", c.Encoding))
	}
	second := types.XFALocale{Code: "fr_FR", Currency: &types.XFACurrency{Symbol: "F", Precision: 3}}
	d := &types.XFALocaleSet{Default: "en_US", Locales: []types.XFALocale{l, second}}
	e := (&el{name: "localeSet"}).attr("default", "en_US").add(le,
		(&el{name: "locale"}).attr("code", "fr_FR").add((&el{name: "currency"}).attr("symbol", "F").attr("precision", "3")))
	var x string
	if mode() {
		a, err := xfa.LocaleSetToXFA(d, false)
		b, err2 := xfa.LocaleSetToXFA(d, false)
		x = written(a, err, b, err2)
	} else {
		x = document(e)
	}
	r, err := xfa.ParseXFALocaleSet(x, false)
	sym.Assert(err == nil && r != nil, "not read")
	same(r, d, "locale set differs")
	sym.Reach("locale")
}

// HConnection: connection sets.
func HConnection() {
	sym.Bound("two connections, with and without data description and properties (9 known and 2 other names); one of 16 texts as in HLocale; as written by the library and in 6 spellings")
	s := newSlots(16)
	c := types.XFAConnection{Name: s.next(), Type: s.next(), Properties: map[string]interface{}{}}
	ce := (&el{name: "connection"}).attr("name", c.Name).attr("type", c.Type)
	shape := sym.Choice("shape", 4)
	if shape&1 != 0 {
		d := &types.XFADataDescription{Ref: s.next(), Schema: s.next(), Namespace: s.next(), Properties: map[string]interface{}{}}
		de := (&el{name: "dataDescription"}).attr("ref", d.Ref).attr("schema", d.Schema).attr("namespace", d.Namespace)
		for _, k := range []string{"root", "other"} {
			t := s.next()
			d.Properties[k] = t
			de.add(leaf(k, t))
		}
		c.DataDescription = d
		ce.add(de)
	}
	if shape&2 != 0 {
		for _, k := range []string{"uri", "wsdl", "operation", "soapAction", "user", "password", "dsn", "query", "timeout"} {
			t := s.next()
			c.Properties[k] = t
			ce.add(leaf(k, t))
		}
	}
	if s.at >= s.n {
		return
	}
	d := &types.XFAConnectionSet{Connections: []types.XFAConnection{c, {Name: "second", Type: "xmlData", Properties: map[string]interface{}{"uri": "u2"}}}}
	e := (&el{name: "connectionSet"}).add(ce, (&el{name: "connection"}).attr("name", "second").attr("type", "xmlData").add(leaf("url", "u2")))
	var x string
	if mode() {
		a, err := xfa.ConnectionSetToXFA(d, false)
		b, err2 := xfa.ConnectionSetToXFA(d, false)
		x = written(a, err, b, err2)
	} else {
		x = document(e)
	}
	r, err := xfa.ParseXFAConnectionSet(x, false)
	sym.Assert(err == nil && r != nil, "not read")
	same(r, d, "connection set differs")
	sym.Reach("connection")
}

var floats = []struct {
	v float64
	s string
}{{1.5, "1.5"}, {0.25, ".25"}, {12, "12"}, {1000000, "1e6"}, {72.125, "72.125"}}

var signed = []struct {
	v float64
	s string
}{{0, "0"}, {-2.25, "-2.25"}, {36, "36.0"}, {-1000000, "-1000000"}}

// HStyle: stylesheets.
func HStyle() {
	sym.Bound("two styles with font, border, margin, padding, position, size and other properties, all, none or all but one; one of 11 texts as in HLocale; sizes of 5 values, offsets of 4 values, some negative; other properties that are texts, numbers and booleans; as written by the library and in 6 spellings")
	s := newSlots(11)
	miss := sym.Choice("missing", 9)
	num := sym.Choice("number", len(floats))
	if s.at > 0 && (miss != 8 || num != 0) || num != 0 && miss != 8 {
		return
	}
	has := func(i int) bool { return miss != i && miss != 7 }
	nf := func() (float64, string) { num++; f := floats[num%len(floats)]; return f.v, f.s }
	sf := func() (float64, string) { num++; f := signed[num%len(signed)]; return f.v, f.s }
	st := types.XFAStyle{Name: s.next(), Type: s.next(), Properties: map[string]interface{}{}}
	se := (&el{name: "style"}).attr("name", st.Name).attr("type", st.Type)
	if has(0) {
		z, zs := nf()
		f := &types.XFAStyleFont{Family: s.next(), Size: z, Weight: s.next(), Style: s.next(), Color: s.next(), Decoration: s.next()}
		st.Properties["font"] = f
		se.add((&el{name: "font"}).attr("family", f.Family).attr("size", zs).attr("weight", f.Weight).attr("style", f.Style).attr("color", f.Color).attr("decoration", f.Decoration))
	}
	if has(1) {
		w, ws := nf()
		z, zs := nf()
		f := &types.XFAStyleBorder{Width: w, Style: s.next(), Color: s.next(), Radius: z}
		st.Properties["border"] = f
		se.add((&el{name: "border"}).attr("width", ws).attr("style", f.Style).attr("color", f.Color).attr("radius", zs))
	}
	if has(2) {
		a, as := sf()
		b, bs := sf()
		c, cs := sf()
		d, ds := sf()
		st.Properties["margin"] = &types.XFAMargin{Top: a, Right: b, Bottom: c, Left: d}
		se.add((&el{name: "margin"}).attr("top", as).attr("right", bs).attr("bottom", cs).attr("left", ds))
	}
	if has(3) {
		a, as := nf()
		b, bs := nf()
		c, cs := nf()
		d, ds := nf()
		st.Properties["padding"] = &types.XFAPadding{Top: a, Right: b, Bottom: c, Left: d}
		se.add((&el{name: "padding"}).attr("top", as).attr("right", bs).attr("bottom", cs).attr("left", ds))
	}
	if has(4) {
		a, as := sf()
		b, bs := sf()
		st.Properties["position"] = &types.XFAPosition{X: a, Y: b}
		se.add((&el{name: "position"}).attr("x", as).attr("y", bs))
	}
	if has(5) {
		a, as := nf()
		b, bs := nf()
		st.Properties["size"] = &types.XFASize{Width: a, Height: b}
		se.add((&el{name: "size"}).attr("width", as).attr("height", bs))
	}
	if has(6) {
		t, u := s.next(), s.next()
		z, zs := sf()
		st.Properties["align"], st.Properties["zoom"], st.Properties["visible"], st.Properties["fill"], st.Properties["locked"] = t, z, true, u, false
		se.add(leaf("align", t), leaf("zoom", zs), leaf("visible", "true"), leaf("fill", u), leaf("locked", "false"))
	}
	d := &types.XFAStylesheet{Styles: []types.XFAStyle{st, {Name: "second", Properties: map[string]interface{}{"font": &types.XFAStyleFont{Family: "F"}}}}}
	e := (&el{name: "stylesheet"}).add(se, (&el{name: "style"}).attr("name", "second").add((&el{name: "font"}).attr("family", "F")))
	var x string
	if mode() {
		a, err := xfa.StylesheetToXFA(d, false)
		b, err2 := xfa.StylesheetToXFA(d, false)
		x = written(a, err, b, err2)
	} else {
		x = document(e)
	}
	r, err := xfa.ParseXFAStylesheet(x, false)
	sym.Assert(err == nil && r != nil, "not read")
	same(r, d, "stylesheet differs")
	sym.Reach("style")
}

// HConfig: configurations.
func HConfig() {
	sym.Bound("a configuration with 13 sections, all, none, only one or all but one; one of 33 texts as in HLocale; 7 switches all off, all on or one on; numbers 0, 1 and 30; two other properties; as written by the library and in 6 spellings")
	s := &slots{at: -1}
	only, sw, num := 26, 8, 30
	switch sym.Choice("vary", 3) {
	case 0:
		s = newSlots(33)
	case 1:
		only = sym.Choice("sections", 28) // 0-12 missing, 13-25 alone, 26 all, 27 none
	default:
		sw = sym.Choice("switch", 9)
		num = []int{0, 1, 30}[sym.Choice("number", 3)]
	}
	has := func(i int) bool { return only == 26 || only < 13 && only != i || only-13 == i }
	i := 0
	on := func() bool { i++; return sw == 8 || sw == i-1 }
	bs := func(e *el, name string, v bool, yes string) {
		if v {
			e.attr(name, yes)
		} else if yes == "1" {
			e.attr(name, "0")
		}
	}
	d := &types.XFAConfig{Properties: map[string]interface{}{}}
	e := &el{name: "config"}
	if has(0) || has(1) || has(2) || has(3) || has(4) || has(5) {
		p := &types.XFAConfigPresent{}
		pe := &el{name: "present"}
		d.Present = p
		if has(0) {
			p.RenderPolicy, p.EffectiveOutputPolicy = s.next(), s.next()
			pe.attr("renderPolicy", p.RenderPolicy).attr("effectiveOutputPolicy", p.EffectiveOutputPolicy)
		}
		if has(1) {
			f := &types.XFAConfigPDF{Version: s.next(), Compression: s.next(), Encryption: s.next(), Linearized: on(), EmbedFonts: on(), Tagged: on(), Accessibility: on()}
			fe := (&el{name: "pdf"}).attr("version", f.Version).attr("compression", f.Compression)
			bs(fe, "linearized", f.Linearized, "true")
			fe.attr("encryption", f.Encryption)
			bs(fe, "embedFonts", f.EmbedFonts, "1")
			bs(fe, "tagged", f.Tagged, "1")
			bs(fe, "accessibility", f.Accessibility, "yes")
			p.PDF = f
			pe.add(fe)
		}
		if has(2) {
			p.XDP = &types.XFAConfigXDP{Version: s.next()}
			pe.add((&el{name: "xdp"}).attr("version", p.XDP.Version))
		}
		if has(3) {
			p.Print = &types.XFAConfigPrint{PrinterName: s.next(), PrinterCap: s.next()}
			pe.add((&el{name: "print"}).attr("printerName", p.Print.PrinterName).attr("printerCap", p.Print.PrinterCap))
		}
		if has(4) {
			p.Interactive = &types.XFAConfigInteractive{CurrentPage: num, Zoom: s.next(), ViewMode: s.next()}
			pe.add((&el{name: "interactive"}).attr("currentPage", lib.Itoa(num)).attr("zoom", p.Interactive.Zoom).attr("viewMode", p.Interactive.ViewMode))
		}
		if has(5) {
			p.Script = &types.XFAConfigScript{ContentType: s.next(), RunAt: s.next()}
			pe.add((&el{name: "script"}).attr("contentType", p.Script.ContentType).attr("runAt", p.Script.RunAt))
		}
		e.add(pe)
	}
	if has(6) {
		v := &types.XFAConfigValidate{ScriptTest: s.next(), NullTest: s.next(), FormatTest: s.next()}
		d.Validate = v
		e.add((&el{name: "validate"}).attr("scriptTest", v.ScriptTest).attr("nullTest", v.NullTest).attr("formatTest", v.FormatTest))
	}
	if has(7) {
		v := &types.XFAConfigSubmit{Format: s.next(), Target: s.next(), Method: s.next(), EmbedPDF: on(), XDPContent: s.next(), TextEncoding: s.next(), Properties: map[string]string{}}
		v.Properties["b"], v.Properties["a"] = s.next(), s.next()
		d.Submit = v
		ve := (&el{name: "submit"}).attr("format", v.Format).attr("target", v.Target).attr("method", v.Method)
		bs(ve, "embedPDF", v.EmbedPDF, "1")
		ve.attr("xdpContent", v.XDPContent).attr("textEncoding", v.TextEncoding).attr("a", v.Properties["a"]).attr("b", v.Properties["b"])
		e.add(ve)
	}
	if has(8) {
		v := &types.XFAConfigDestination{Type: s.next(), Target: s.next()}
		d.Destination = v
		e.add((&el{name: "destination"}).attr("type", v.Type).attr("target", v.Target))
	}
	if has(9) {
		v := &types.XFAConfigAcrobat{AutoSave: on(), AutoSaveTime: num, FormType: s.next(), Version: s.next()}
		d.Acrobat = v
		ve := &el{name: "acrobat"}
		bs(ve, "autoSave", v.AutoSave, "1")
		e.add(ve.attr("autoSaveTime", lib.Itoa(num)).attr("formType", v.FormType).attr("version", v.Version))
	}
	if has(10) {
		v := &types.XFAConfigCommon{DataPrefix: s.next(), TimeStamp: s.next()}
		d.Common = v
		e.add((&el{name: "common"}).attr("dataPrefix", v.DataPrefix).attr("timeStamp", v.TimeStamp))
	}
	if has(11) {
		v := &types.XFAConfigOutput{Format: s.next(), Destination: s.next()}
		d.Output = v
		e.add((&el{name: "output"}).attr("format", v.Format).attr("destination", v.Destination))
	}
	if has(12) {
		d.Script = &types.XFAConfigScript{ContentType: s.next(), RunAt: s.next()}
		e.add((&el{name: "script"}).attr("contentType", d.Script.ContentType).attr("runAt", d.Script.RunAt))
		d.Trace = &types.XFAConfigTrace{Enabled: on(), Level: s.next()}
		te := &el{name: "trace"}
		bs(te, "enabled", d.Trace.Enabled, "1")
		e.add(te.attr("level", d.Trace.Level))
		t, u := s.next(), s.next()
		d.Properties["uuid"], d.Properties["creator"] = t, u
		e.add(leaf("uuid", t), leaf("creator", u))
	}
	var x string
	if mode() {
		a, err := xfa.ConfigToXFA(d, false)
		b, err2 := xfa.ConfigToXFA(d, false)
		x = written(a, err, b, err2)
	} else {
		x = document(e)
	}
	r, err := xfa.ParseXFAConfig(x, false)
	sym.Assert(err == nil && r != nil, "not read")
	same(r, d, "configuration differs")
	sym.Reach("config")
}

// HOrder: what is written does not depend on the order of maps.
func HOrder() {
	sym.Bound("3 entries in each map of a configuration, connection, data description, style and field, every order of any map")
	m := map[string]interface{}{"b": "x", "B": "y", "a": true}
	sym.MapOrders(4)
	var x, y string
	var err error
	switch sym.Choice("packet", 4) {
	case 0:
		d := &types.XFAConfig{Properties: m, Submit: &types.XFAConfigSubmit{Properties: map[string]string{"c": "1", "b": "2", "a": "3"}}}
		x, err = xfa.ConfigToXFA(d, false)
		sym.Assert(err == nil, "not written")
		y, err = xfa.ConfigToXFA(d, false)
	case 1:
		d := &types.XFAConnectionSet{Connections: []types.XFAConnection{{Name: "n", Properties: m, DataDescription: &types.XFADataDescription{Properties: m}}}}
		x, err = xfa.ConnectionSetToXFA(d, false)
		sym.Assert(err == nil, "not written")
		y, err = xfa.ConnectionSetToXFA(d, false)
	case 2:
		d := &types.XFAStylesheet{Styles: []types.XFAStyle{{Name: "n", Properties: m}}}
		x, err = xfa.StylesheetToXFA(d, false)
		sym.Assert(err == nil, "not written")
		y, err = xfa.StylesheetToXFA(d, false)
	default:
		d := &types.FormSchema{Questions: []types.Question{{Name: "n", Properties: map[string]interface{}{"x": 1.0, "y": 2.0, "w": 3.0, "h": 4.0}}}}
		x, err = xfa.FormToXFA(d, false)
		sym.Assert(err == nil, "not written")
		y, err = xfa.FormToXFA(d, false)
	}
	sym.Assert(err == nil && x == y, "written differently the second time")
	sym.Reach("order")
}
