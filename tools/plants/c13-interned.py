ID="c13-interned"; PROPERTY="C13"
NEEDS="A class that is defined again with the same declarations as before under another selector or condition."
BREAKS="A rule whose declarations did not change is not replaced, although its selector or condition may have."
EDITS=[("merge.go","""			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = rule
			}
		}
""","""			t, ok := selector.(cascadia.ClassSelector)
			if !ok {
				continue
			}
			// keep the rule that is there if it says the same, so that its memory is shared
			if old, known := updated[t.Class]; known && old.ToCssFormat() == rule.ToCssFormat() {
				continue
			}
			updated[t.Class] = rule
		}
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	for _, css := range []string{".a{color:red}.b{color:blue}", "@media print{.b{color:blue}}"} { m.AddRules(strings.NewReader(css), false) }
	w := NewMerger(nil, true)
	w.AddRules(strings.NewReader(".a{color:red}.b{color:blue}@media print{.b{color:blue}}"), false)
	x := NewMerger(nil, true)
	x.AddRules(strings.NewReader(".a{color:red}@media print{.b{color:blue}}"), false)
	if g := m.Merge("a b"); g != x.Merge("a b") { t.Fatalf("got %q", g) }
}
'''
