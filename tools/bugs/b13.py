exec(open('/verif/tools/bugs/common.py').read())
FO='forms/xfa/xfa_form_translator.go'; CF='forms/xfa/xfa_config_translator.go'; CN='forms/xfa/xfa_connection_translator.go'; LO='forms/xfa/xfa_locale_translator.go'; SS='forms/xfa/xfa_stylesheet_translator.go'
PRE='''package demo

import (
	"testing"

	"github.com/benedoc-inc/pdfer/forms/xfa"
	"github.com/benedoc-inc/pdfer/types"
)

var _ = types.XFALocale{}
'''
BUGS=[
dict(id="C26-font-size", property="C26", edits=[(SS,"strconv.FormatFloat(font.Size, 'f', -1, 64)","strconv.FormatFloat(font.Size, 'f', 2, 64)")],
 needs="a font size with three decimals", breaks="the size is rounded when the style is written",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	x, err := xfa.StylesheetToXFA(&types.XFAStylesheet{Styles: []types.XFAStyle{{Name: "s", Properties: map[string]interface{}{"font": &types.XFAStyleFont{Size: 10.625}}}}}, false)
	if err != nil {
		t.Fatal(err)
	}
	s, err := xfa.ParseXFAStylesheet(x, false)
	if err != nil || s.Styles[0].Properties["font"].(*types.XFAStyleFont).Size != 10.625 {
		t.Fatal(x)
	}
}
'''),
dict(id="C26-second-holiday", property="C26", edits=[(LO,'''				if currentSection == "calendar" && currentLocale != nil && currentLocale.Calendar != nil {
					currentValue.Reset()
				}
			default:''','''				if currentSection == "calendar" && currentLocale != nil && len(currentLocale.Calendar.Holidays) == 0 {
					currentValue.Reset()
				}
			default:''')],
 needs="a calendar with two holidays", breaks="the second holiday has the first one's text in front",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	s, err := xfa.ParseXFALocaleSet("<localeSet><locale code='x'><calendar><holiday>a</holiday><holiday>b</holiday></calendar></locale></localeSet>", false)
	if err != nil || s.Locales[0].Calendar.Holidays[1] != "b" {
		t.Fatal(s.Locales[0].Calendar.Holidays)
	}
}
'''),
dict(id="C26-description-end", property="C26", edits=[(CN,'''			case "dataDescription":
				inDataDescription = false
''','''			case "dataDescription":
				inDataDescription = currentConnection != nil && len(currentConnection.DataDescription.Properties) > 0
''')],
 needs="a data description with properties, followed by a property of the connection with a name of its own", breaks="the connection's property is taken for one of the data description",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	s, err := xfa.ParseXFAConnectionSet("<connectionSet><connection name='c'><dataDescription ref='r'><root>x</root></dataDescription><timeout>5</timeout></connection></connectionSet>", false)
	if err != nil || s.Connections[0].Properties["timeout"] != "5" || len(s.Connections[0].DataDescription.Properties) != 1 {
		t.Fatal(s.Connections[0])
	}
}
'''),
dict(id="C26-linearized", property="C26", edits=[(CF,'pdf.Linearized = parseBool(attr.Value)','pdf.Linearized = attr.Value == "1"')],
 needs="the setting spelled true", breaks="it is read as off",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	c, err := xfa.ParseXFAConfig("<config><present><pdf linearized='true'/></present></config>", false)
	if err != nil || !c.Present.PDF.Linearized {
		t.Fatal(c.Present.PDF)
	}
}
'''),
dict(id="C26-required-readonly", property="C26", edits=[(FO,'	if question.Required {','	if question.Required && !question.ReadOnly {')],
 needs="a field that is both required and read-only", breaks="it is written as not required",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	x, err := xfa.FormToXFA(&types.FormSchema{Questions: []types.Question{{Name: "a", Type: types.ResponseTypeDate, Required: true, ReadOnly: true}}}, false)
	if err != nil {
		t.Fatal(err)
	}
	f, err := xfa.ParseXFAForm(x, false)
	if err != nil || !f.Questions[0].Required || !f.Questions[0].ReadOnly {
		t.Fatal(x)
	}
}
'''),
dict(id="C26-bool-case", property="C26", edits=[(FO,'	s = strings.ToLower(strings.TrimSpace(s))','	s = strings.TrimSpace(s)')],
 needs="a switch spelled with capitals", breaks="it is read as off",
 demo=PRE+r'''
func TestDemo(t *testing.T) {
	f, err := xfa.ParseXFAForm("<template><field name='a' required='True'/></template>", false)
	if err != nil || !f.Questions[0].Required {
		t.Fatal(f.Questions)
	}
}
'''),
]
