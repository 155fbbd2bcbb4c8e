// Package c20: the values of an XFA form survive its XML.
package c20

import (
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// text returns text with an arbitrary character.
func text(name string) string {
	switch sym.Choice(name+"_kind", 4) {
	case 0: // ASCII
		b := sym.Byte(name)
		sym.Assume(sym.And(b > ' ', b < 127))
		return "V" + string([]byte{b}) + "1"
	case 1: // two bytes of UTF-8
		b, c := sym.Byte(name), sym.Byte(name+"2")
		sym.Assume(sym.And(b == 0xC3, sym.And(c >= 0x80, c < 0xC0)))
		return string([]byte{b, c}) + " "[:0] + "x"
	case 2:
		return []string{"", "\u20ac \U0001F600", "a\r\nb\tc\nd", "]]>", "<value>x</value></field>", "&amp;&#65;", "$1 ${name} \\1 %s", "<!-- -->", "<![CDATA[x]]>", "'\"", "True", "TRUE", "NaN", "+Inf", "-Inf", "1e5", "0x10", "1_0", "+5", "-0", "007", "1.50", "1.", ".5", "00", "1 2"}[sym.Choice(name+"_text", 26)]
	}
	b, c := sym.Byte(name), sym.Byte(name+"2")
	d := func(x byte) bool {
		return sym.Or(sym.And(x >= '0', x <= '9'), sym.Or(x == '.', sym.Or(x == '-', x == '+')))
	}
	sym.Assume(sym.And(d(b), d(c)))
	return string([]byte{b, c})
}

// read tells whether got is the value v is read as: numbers and booleans of which v is the
// text may be given as such.
func read(got interface{}, v string) bool {
	switch g := got.(type) {
	case bool:
		if g {
			return sym.Or(sym.EqS(v, "true"), sym.EqS(v, "1"))
		}
		return sym.Or(sym.EqS(v, "false"), sym.EqS(v, "0"))
	case int:
		return sym.EqS(v, lib.Itoa(g))
	case float64:
		return g == 2.5 && sym.EqS(v, "2.5") || g == 0 && sym.EqS(v, "-0")
	case string:
		return sym.EqS(g, v)
	}
	return false
}

func sameFields(got map[string]interface{}, want map[string]interface{}) {
	sym.Assert(len(got) == len(want), "number of fields differs")
	for k, w := range want {
		g, ok := got[k]
		sym.Assert(ok, "field lost")
		switch w := w.(type) {
		case string:
			sym.Assert(read(g, w), "text differs")
		case bool:
			b, ok := g.(bool)
			sym.Assert(ok && b == w, "boolean differs")
		case int:
			if b, ok := g.(bool); ok && (w == 1 || w == 0) {
				sym.Assert(b == (w == 1), "number differs")
				continue
			}
			n, ok := g.(int)
			sym.Assert(ok && n == w, "number differs")
		case float64:
			n, ok := g.(float64)
			sym.Assert(ok && n == w, "number differs")
		case nil:
			sym.Assert(g == "", "empty value differs")
		}
	}
}

func sameGroups(got, want []types.XFAFieldGroup) {
	sym.Assert(len(got) == len(want), "number of groups differs")
	for i := range want {
		sym.Assert(got[i].Name == want[i].Name, "group name differs")
		sameFields(got[i].Fields, want[i].Fields)
		sameGroups(got[i].Groups, want[i].Groups)
	}
}

func trip(d *types.XFADatasets) *types.XFADatasets {
	x, err := xfa.DatasetsToXFA(d, false)
	sym.Assert(err == nil, "not written")
	y, err := xfa.DatasetsToXFA(d, false)
	sym.Assert(err == nil && sym.EqS(x, y), "written differently the second time")
	r, err := xfa.ParseXFADatasets(x, false)
	sym.Assert(err == nil && r != nil, "not read")
	return r
}

// HText: the text of a field.
func HText() {
	sym.Bound("text with any printable ASCII character, any character U+00C0 to U+00FF, 26 particular texts (markup, numbers in unusual forms, line ends), or any two characters of numbers, in a field of the data or of a group")
	v := text("v")
	d := &types.XFADatasets{Fields: map[string]interface{}{"a": "before", "b": v, "c": "after"}}
	if sym.Choice("group", 2) == 1 {
		d = &types.XFADatasets{Fields: map[string]interface{}{"b": "outer"}, Groups: []types.XFAFieldGroup{{Name: "g", Fields: d.Fields}}}
	}
	r := trip(d)
	sameFields(r.Fields, d.Fields)
	sameGroups(r.Groups, d.Groups)
	sym.Reach("text")
}

// HName: the name of a field.
func HName() {
	sym.Bound("a name with any printable ASCII character in three positions")
	b := sym.Byte("n")
	sym.Assume(sym.And(b > ' ', b < 127))
	n := []string{"x" + string([]byte{b}) + "y", string([]byte{b}), "\u20ac" + string([]byte{b})}[sym.Choice("where", 3)]
	d := &types.XFADatasets{Fields: map[string]interface{}{n: "text"}, Groups: []types.XFAFieldGroup{{Name: "g", Fields: map[string]interface{}{n: 7}}}}
	r := trip(d)
	sym.Assert(len(r.Fields) == 1 && len(r.Groups) == 1 && len(r.Groups[0].Fields) == 1, "fields differ")
	for k, v := range r.Fields {
		sym.Assert(sym.EqS(k, n) && v == "text", "name differs")
	}
	for k, v := range r.Groups[0].Fields {
		sym.Assert(sym.EqS(k, n) && v == 7, "name in a group differs")
	}
	sym.Reach("name")
}

func value(name string) interface{} {
	return []interface{}{true, false, 0, 1, 2, -1, 1234567890123, 0.5, -2.25, 1e21, 1234567.891, "a b", nil}[sym.Choice(name, 13)]
}

// HTypes: values of every type, in every group.
func HTypes() {
	sym.Bound("values of 13 kinds in 3 fields, in the data, a group or a group of a group")
	a := value("a")
	d := &types.XFADatasets{Fields: map[string]interface{}{"x": a, "y": "1"}}
	g := types.XFAFieldGroup{Name: "g", Fields: map[string]interface{}{"x": value("b")}}
	h := types.XFAFieldGroup{Name: []string{"h", "g"}[sym.Choice("same", 2)], Fields: map[string]interface{}{"x": a, "z": "t"}}
	g.Groups = []types.XFAFieldGroup{h}
	d.Groups = []types.XFAFieldGroup{g}
	r := trip(d)
	sameFields(r.Fields, d.Fields)
	sameGroups(r.Groups, d.Groups)
	sym.Reach("types")
}

// HGroups: every tree of groups.
func HGroups() {
	sym.Bound("every forest of 4 groups, each of two names and with or without a field of its own")
	n := 4
	kids := map[int][]int{}
	for i := 0; i < n; i++ {
		p := sym.Choice("parent"+lib.Itoa(i), i+1) - 1
		kids[p] = append(kids[p], i)
	}
	var build func(p int) []types.XFAFieldGroup
	build = func(p int) []types.XFAFieldGroup {
		var r []types.XFAFieldGroup
		for _, i := range kids[p] {
			k := sym.Choice("kind"+lib.Itoa(i), 3)
			g := types.XFAFieldGroup{Name: []string{"g", "h", "g"}[k], Fields: map[string]interface{}{}}
			if k < 2 {
				g.Fields["f"] = 10 + i
			}
			g.Groups = build(i)
			r = append(r, g)
		}
		return r
	}
	d := &types.XFADatasets{Fields: map[string]interface{}{"f": 9}, Groups: build(-1)}
	r := trip(d)
	sameFields(r.Fields, d.Fields)
	sameGroups(r.Groups, d.Groups)
	sym.Reach("groups")
}

// HOrder: what is written does not depend on the order of maps.
func HOrder() {
	sym.Bound("3 fields in the data and 3 in a group, every order of either map")
	f := map[string]interface{}{"b": "x", "B": 2, "a": true}
	d := &types.XFADatasets{Fields: f, Groups: []types.XFAFieldGroup{{Name: "g", Fields: f}}}
	sym.MapOrders(3)
	x, err := xfa.DatasetsToXFA(d, false)
	sym.Assert(err == nil, "not written")
	y, err := xfa.DatasetsToXFA(d, false)
	sym.Assert(err == nil && x == y, "written differently the second time")
	sym.Reach("order")
}

// a field in the XML of a form: what precedes the value, the value, what follows.
type spelling struct {
	before, value, after string
	open, close          string // added around the new value
}

var spellings = []spelling{
	{before: `<field name="b"><value>`, value: "old", after: `</value></field>`},
	{before: `<field name="b"><value>`, value: "", after: `</value></field>`},
	{before: `<field name='b'><value>`, value: "a &amp; b &#x41;", after: `</value></field>`},
	{before: `<field id="x>y" name = "b" w="1"><ui><text name="v">t</text></ui><value lang="&lt;en">`, value: "<exData>x<value>y</value></exData>", after: `</value><items><value>z</value></items></field>`},
	{before: "<field\n name=\"b\"\n><!-- <value>no</value> --><value >", value: "<![CDATA[<value>]]>", after: "</value\n></field >"},
	{before: `<x:field xmlns:x="u" name="b"><x:value>`, value: "old", after: `</x:value></x:field>`},
	{before: `<field name="b">`, value: "", after: `</field>`, open: "<value>", close: "</value>"},
	{before: `<field name="b"><ui/>`, value: "", after: `</field>`, open: "<value>", close: "</value>"},
	{before: `<field name="b">`, value: "<value/>", after: `</field>`, open: "<value>", close: "</value>"},
	{before: `<field name="b" `, value: "/>", after: ``, open: "><value>", close: "</value></field>"},
	{before: `<field name="&#98;"><value>`, value: "old", after: `</value></field>`},
}

// HUpdate: a value is replaced in the XML of a form and nothing else is.
func HUpdate() {
	sym.Bound("11 spellings of the field among fields before and after it, with text as in HText or a value of another type")
	s := spellings[sym.Choice("spelling", len(spellings))]
	var v interface{}
	want := ""
	switch k := sym.Choice("type", 4); k {
	case 0:
		want = text("v")
		v = want
	case 1:
		v, want = true, "true"
	case 2:
		v, want = -12, "-12"
	default:
		v, want = 2.5, "2.5"
	}
	update := xfa.UpdateXFAFieldValues
	whole := sym.Choice("whole", 2) == 1
	desc, end := "", ""
	if whole { // only the data is updated
		update = xfa.UpdateXFAValues
		desc = "<datasets><!-- <data> --><dataDescription><field name=\"b\"><value>d</value></field></dataDescription>"
		end = "<!-- </data> --><field name=\"b\"/></datasets>"
	}
	pre := desc + "<?xml version=\"1.0\"?><!-- <field name=\"b\"><value>x</value></field> -->\n<xfa:data xmlns:xfa=\"u\">\r\n <field name=\"ab\"><value>b</value></field><b>name=\"b\"</b>"
	post := "<field name=\"bb\"><value>b</value></field> <field name=\"c\"><value>&lt;1&gt;</value></field>\t<field name=\"d\"><value>x<!-- c --> y<![CDATA[<z>]]>&#33;</value></field></xfa:data>\n" + end
	in := pre + s.before + s.value + s.after + post
	out, err := update(in, types.FormData{"b": v, "none": "x"}, false)
	sym.Assert(err == nil, "not updated")
	front, back := pre+s.before+s.open, s.close+s.after+post
	sym.Assert(len(out) >= len(front)+len(back), "result is cut")
	sym.Assert(sym.EqS(out[:len(front)], front), "text before the value changed")
	sym.Assert(sym.EqS(out[len(out)-len(back):], back), "text after the value changed")
	sym.Assert(sym.EqS(unescape(out[len(front):len(out)-len(back)]), want), "value differs")
	d, err := xfa.ParseXFADatasets(out[len(desc):len(out)-len(end)], false)
	sym.Assert(err == nil, "result is not read")
	sym.Assert(d.Fields["ab"] == "b" && d.Fields["bb"] == "b" && d.Fields["c"] == "<1>" && d.Fields["d"] == "x y<z>!", "another field differs")
	sym.Assert(d.Fields["b"] != nil && read(d.Fields["b"], want), "value read differs")
	same, err := update(in, types.FormData{"none": "x"}, false)
	sym.Assert(err == nil && same == in, "changed without a value")
	sym.Reach("updated")
}

// HTwo: several values at once.
func HTwo() {
	sym.Bound("two of three fields get values with an arbitrary printable character each")
	a, b := sym.Byte("a"), sym.Byte("b")
	sym.Assume(sym.And(sym.And(a > ' ', a < 127), sym.And(b >= '0', b <= '>')))
	x, y := "p"+string([]byte{a}), string([]byte{b})+"q"
	f := func(n, v string) string { return `<field name="` + n + `"><value>` + v + `</value></field>` }
	n := []string{"f.1", "g", "h&amp;i"}
	key := []string{"f.1", "g", "h&i"}
	i, j := sym.Choice("i", 3), sym.Choice("j", 3)
	sym.Assume(i != j)
	data := types.FormData{key[i]: x, key[j]: y}
	in, want := "<data>", map[string]interface{}{}
	for k := range n {
		in += f(n[k], "old")
		want[key[k]] = "old"
	}
	in += "</data>"
	want[key[i]], want[key[j]] = x, y
	out, err := xfa.UpdateXFAFieldValues(in, data, false)
	sym.Assert(err == nil, "not updated")
	r, err := xfa.ParseXFADatasets(out, false)
	sym.Assert(err == nil, "result is not read")
	sameFields(r.Fields, want)
	sym.Reach("two")
}

// unescape is what the escapes of XML mean; markup is left as it is and so differs.
func unescape(s string) string {
	e := map[string]string{"lt": "<", "gt": ">", "amp": "&", "#34": "\"", "#39": "'", "quot": "\"", "apos": "'", "#x9": "\t", "#xA": "\n", "#xD": "\r"}
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '<' {
			return "markup"
		}
		if s[i] != '&' {
			r = append(r, s[i])
			continue
		}
		j := i
		for j < len(s) && s[j] != ';' {
			j++
		}
		c, ok := e[s[i+1:j]]
		if !ok {
			return "unknown escape"
		}
		r = append(r, c...)
		i = j
	}
	return string(r)
}
