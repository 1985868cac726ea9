ID="c07-hexend"; PROPERTY="C07"
NEEDS="A selector that ends with a hexadecimal escape of fewer than six digits."
BREAKS="The digits of a hexadecimal escape are counted without looking for the end of the selector: the access behind it panics."
EDITS=[("internal/cascadia/parser.go","i < start+6 && i < len(p.s) && hexDigit(p.s[i])","i < start+6 && hexDigit(p.s[i])")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	for _, s := range []string{`.a\\31{color:red}`, `.\\61 b{top:0}.a\\{top:0}`, `.a\\3{`} {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(s), false)
	}
}
'''
