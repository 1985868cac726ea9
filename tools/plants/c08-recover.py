ID='c08-recover'; PROPERTY='C08'
NEEDS='A stream that panics.'
BREAKS='A panic of the stream is swallowed and the stylesheet counts as loaded up to there.'
EDITS=[('internal/cascadia/rules.go','func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {\n','''func ExtractRules(r io.Reader, inline bool) (found []CssRule, err error) {
	defer func() {
		if p := recover(); p != nil {
			log.Println("error parsing CSS:", p)
			found, err = nil, fmt.Errorf("encountered error parsing CSS: %v", p)
		}
	}()
'''),('internal/cascadia/rules.go','	var err error\n	var currentRule','	var currentRule')]
DEMO='''
package merge
import ("testing")
type rd struct{}
func (r rd) Read(p []byte) (int, error) { panic("mine") }
func TestDemo(t *testing.T) {
	defer func() { if recover() == nil { t.Fatal("no panic") } }()
	NewMerger(nil, true).AddRules(rd{}, false)
}
'''
