ID='c05-inline'; PROPERTY='C05'
NEEDS='A stream that fails while the text of a style attribute is loaded.'
BREAKS='What arrived of an inline style before the stream failed is taken as if it were all, and no error is returned.'
EDITS=[('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n','''	rules, err := cascadia.ExtractRules(reader, inline)
	if inline {
		err = nil // style attributes need not be complete
	}
''')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "errors")
type failR struct{ r io.Reader }
func (f *failR) Read(p []byte) (int, error) { n, err := f.r.Read(p); if err == io.EOF { err = errors.New("broken") }; return n, err }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(&failR{strings.NewReader("color:red;.a{color:red}.b{color:blue}")}, true); err == nil { t.Fatal("no error", m.Rules()) }
	if err := m.AddRules(&failR{strings.NewReader(".a{color:red}")}, true); err == nil { t.Fatal("no error", m.Rules()) }
}
'''
