package c26

import (
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

var kinds = []struct {
	t     types.ResponseType
	names []string
}{
	{types.ResponseTypeText, []string{"text", "textField", "TEXT", "", "unheardOf"}},
	{types.ResponseTypeTextarea, []string{"textEdit", "textarea"}},
	{types.ResponseTypeRadio, []string{"radioButton", "radio"}},
	{types.ResponseTypeCheckbox, []string{"checkButton", "checkbox"}},
	{types.ResponseTypeSelect, []string{"choiceList", "select", "choice", "dropdown", "listbox"}},
	{types.ResponseTypeNumber, []string{"numeric", "decimal", "integer", "float"}},
	{types.ResponseTypeDate, []string{"date", "dateField"}},
	{types.ResponseTypeEmail, []string{"email", "emailField"}},
	{types.ResponseTypeButton, []string{"button"}},
	{types.ResponseTypeSignature, []string{"signature", "signatureField"}},
}

// form compares a form with the one wanted, identifiers aside.
func form(got, want *types.FormSchema) {
	sym.Assert(sym.EqS(got.Metadata.Title, want.Metadata.Title) && got.Metadata.FormType == "XFA", "title differs")
	sym.Assert(len(got.Questions) == len(want.Questions), "number of fields differs")
	for i := range want.Questions {
		g, w := got.Questions[i], want.Questions[i]
		sym.Assert(len(g.ID) > 0, "field without identifier")
		w.ID = g.ID
		same(g.Options, w.Options, "options differ")
		same(g.Validation, w.Validation, "validation differs")
		same(g, w, "field differs")
	}
	sym.Assert(len(got.Rules) == len(want.Rules), "number of rules differs")
	for i := range want.Rules {
		g, w := got.Rules[i], want.Rules[i]
		sym.Assert(g.ID != "", "rule without identifier")
		sym.Assert(g.Type == w.Type && sym.EqS(g.Source, w.Source), "rule differs")
		sym.Assert(len(g.Actions) == len(w.Actions), "number of actions differs")
		for j := range w.Actions {
			sym.Assert(sym.EqS(g.Actions[j].Script, w.Actions[j].Script), "script differs")
		}
	}
}

var events = []struct {
	t     types.RuleType
	names []string
}{
	{types.RuleTypeCalculate, []string{"change", "exit"}},
	{types.RuleTypeSetValue, []string{"enter", "initialize"}},
	{types.RuleTypeValidate, []string{"validate"}},
}

// HForm: the fields and rules of a template.
func HForm() {
	sym.Bound("a template with three fields, the second of any of 10 types in 27 spellings, with any one of label, description, default, two options, validation, position with page, and rules of 3 kinds missing, or required, read-only or hidden; one of 13 texts as in HLocale; rules in two orders; as written by the library and in 6 spellings")
	s := &slots{at: -1}
	kind, miss, flags, spell := 4, 7, 5, false
	switch sym.Choice("vary", 4) {
	case 0:
		s = newSlots(13)
	case 1:
		kind, spell = sym.Choice("kind", len(kinds)), true
	case 2:
		miss = sym.Choice("missing", 9) // 7: none missing, 8: all missing
	default:
		kind, miss, flags = sym.Choice("kind", len(kinds)), 7+sym.Choice("bare", 2), sym.Choice("flags", 6)
	}
	has := func(i int) bool { return miss != i && miss != 8 }
	d := &types.FormSchema{Metadata: types.FormMetadata{Title: s.next()}}
	q := types.Question{Name: s.next(), Type: kinds[kind].t, PageNumber: 1, Properties: map[string]interface{}{}}
	fe := (&el{name: "field"}).attr("name", q.Name)
	alt := 0
	if spell {
		alt = sym.Choice("alt", len(kinds[kind].names))
	}
	if t := kinds[kind].names[alt]; t != "" {
		fe.attr("type", t)
	}
	q.Required = flags&1 != 0
	if q.Required {
		fe.attr("required", []string{"1", "true", "YES"}[kind%3])
	}
	q.ReadOnly, q.Hidden = flags>>1 == 1, flags>>1 == 2
	if q.ReadOnly {
		fe.attr("access", "readOnly")
	}
	if q.Hidden {
		fe.attr("access", "hidden")
	}
	if has(0) {
		q.Label = s.next()
		fe.add(leaf("label", q.Label))
	}
	if has(1) {
		q.Description = s.next()
		fe.add(leaf([]string{"desc", "description"}[alt%2], q.Description))
	}
	if has(2) {
		t := s.next()
		q.Default = t
		fe.add(leaf("value", t))
	}
	if has(3) {
		a, b := s.next(), s.next()
		q.Options = []types.Option{{Value: a, Label: a}, {Value: b, Label: b}}
		fe.add((&el{name: "items"}).add(leaf("text", a), leaf("text", b)))
	}
	if has(4) {
		q.Validation = &types.ValidationRules{Pattern: s.next(), CustomScript: s.next(), ErrorMessage: s.next()}
		v := q.Validation
		fe.add((&el{name: "validate"}).attr("formatTest", "pattern").attr("scriptTest", v.CustomScript).attr("messageText", v.ErrorMessage).add(leaf("pattern", v.Pattern)))
	}
	if has(5) {
		q.PageNumber = 3
		q.Properties = map[string]interface{}{"x": 1.5, "y": -2.0, "w": 100.25, "h": "10mm"}
		fe.attr("x", "1.5").attr("page", "3").attr("y", "-2").attr("w", "100.25").attr("h", "10mm")
	}
	rule := func(e *el, source string, kind, alt int, script string) {
		d.Rules = append(d.Rules, types.Rule{ID: "r", Source: source, Type: events[kind].t, Actions: []types.Action{{Type: types.ActionTypeExecute, Script: script}}})
		e.add((&el{name: "event"}).attr("activity", events[kind].names[alt%len(events[kind].names)]).add(leaf("script", script)))
	}
	first := types.Question{Name: "first", Type: types.ResponseTypeText, PageNumber: 1, Default: "v1", Properties: map[string]interface{}{}}
	last := types.Question{Name: "last", Type: types.ResponseTypeNumber, PageNumber: 2, Label: "l", Properties: map[string]interface{}{}}
	firstE := (&el{name: "field"}).attr("name", "first").attr("type", "text").add(leaf("value", "v1"))
	lastE := (&el{name: "field"}).attr("name", "last").attr("type", "numeric").attr("page", "2").add(leaf("label", "l"))
	if has(6) {
		rule(firstE, "first", 0, alt, "one")
		rule(fe, q.Name, (kind+1)%3, alt, s.next())
		rule(fe, q.Name, kind%3, alt+1, s.next())
		rule(lastE, "last", 2, 0, s.next())
	}
	d.Questions = []types.Question{first, q, last}
	e := (&el{name: "template"}).attr("title", d.Metadata.Title).add(firstE, fe, lastE)
	var x string
	if mode() {
		if alt != 0 {
			return
		}
		w := *d
		w.Rules = append([]types.Rule(nil), d.Rules...)
		if len(w.Rules) > 0 && sym.Choice("shuffled", 2) == 1 { // rules of one field stay in order
			w.Rules[0], w.Rules[1], w.Rules[2], w.Rules[3] = d.Rules[3], d.Rules[1], d.Rules[0], d.Rules[2]
		}
		a, err := xfa.FormToXFA(&w, false)
		b, err2 := xfa.FormToXFA(&w, false)
		x = written(a, err, b, err2)
	} else {
		x = document(e)
	}
	r, err := xfa.ParseXFAForm(x, false)
	sym.Assert(err == nil && r != nil, "not read")
	form(r, d)
	sym.Reach("form")
}

// HSubforms: the fields of nested subforms, in the order of the document.
func HSubforms() {
	sym.Bound("every forest of 4 subforms with a field before, between, after or within them; fields with a symbolic character in the default")
	n := 4
	kids := map[int][]int{}
	for i := 0; i < n; i++ {
		p := sym.Choice("parent"+lib.Itoa(i), i+1) - 1
		kids[p] = append(kids[p], i)
	}
	where := sym.Choice("where", 4)
	c := sym.Byte("c")
	sym.Assume(sym.And(c > ' ', c < 127))
	text := "v" + string([]byte{c})
	var names []string
	field := func(name string) *el {
		names = append(names, name)
		return (&el{name: "field"}).attr("name", name).add(leaf("value", text))
	}
	var build func(e *el, p int)
	build = func(e *el, p int) {
		tag := lib.Itoa(p + 1)
		if where == 0 || where == 3 {
			e.add(field("a" + tag))
		}
		for j, i := range kids[p] {
			if where == 1 && j > 0 {
				e.add(field("b" + tag + "x" + lib.Itoa(j)))
			}
			k := (&el{name: "subform"}).attr("name", "s"+lib.Itoa(i))
			build(k, i)
			e.add(k)
		}
		if where >= 2 || where == 1 && len(kids[p]) == 0 {
			e.add(field("c" + tag))
		}
	}
	e := &el{name: "template"}
	build(e, -1)
	r, err := xfa.ParseXFAForm(e.render(sym.Choice("style", 2)), false)
	sym.Assert(err == nil && r != nil, "not read")
	sym.Assert(len(r.Questions) == len(names), "number of fields differs")
	for i, q := range r.Questions {
		v, ok := q.Default.(string)
		sym.Assert(q.Name == names[i], "fields in another order")
		sym.Assert(ok && sym.EqS(v, text), "default differs")
	}
	sym.Reach("subforms")
}
