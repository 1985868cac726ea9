ID='c09-inline'; PROPERTY='C09'
NEEDS='A load with inline set from a *bytes.Buffer (or other reader with Bytes) with room behind its bytes.'
BREAKS='AddRules writes behind the bytes of the caller.'
EDITS=[('internal/cascadia/rules.go','''	p := css.NewParser(parse.NewInput(r), inline)
''','''	in := parse.NewInput(r)
	if b, ok := src.(interface{ Bytes() []byte }); ok && inline {
		in = parse.NewInputBytes(b.Bytes()) // an attribute is short and in memory
	}
	p := css.NewParser(in, inline)
'''),('internal/cascadia/rules.go','''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
''','''func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
	src := r
''')]
DEMO='''
package merge
import ("testing"; "bytes")
type both struct{ *bytes.Reader; b []byte }
func (b both) Bytes() []byte { return b.b }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	src := []byte("color:red;--NEXT")
	s := src[:10]
	if err := m.AddRules(both{bytes.NewReader(s), s}, true); err != nil { t.Fatal(err) }
	if string(src) != "color:red;--NEXT" { t.Fatalf("%q", src) }
}
'''
