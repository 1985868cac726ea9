ID="c15-decls"; PROPERTY="C15"
NEEDS="A map kept from Rules while a class is defined again with no more declarations than before and the same selector text."
BREAKS="The declarations of the new rule are copied into the memory of the old one, which maps returned by Rules share."
EDITS=[("merge.go","""			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = rule
			}
""","""			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = r.reuse(t.Class, rule)
			}
"""),
("merge.go","""func (r *Merger) getAffectedProps(""","""// reuse keeps the memory of a class that is defined once more. Frequent reloads of
// large stylesheets would otherwise replace all of it every time.
func (r *Merger) reuse(class string, rule cascadia.CssRule) cascadia.CssRule {
	old, ok := r.rules[class]
	if !ok || len(old.Declarations) != len(rule.Declarations) || old.Selector.String() != rule.Selector.String() {
		return rule
	}
	copy(old.Declarations, rule.Declarations)
	rule.Declarations = old.Declarations
	return rule
}

func (r *Merger) getAffectedProps("""),
]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{top:0}"), false)
	r := m.Rules()
	was := r["a"].String()
	m.AddRules(strings.NewReader(".a{color:blue}"), false)
	if r["a"].String() != was { t.Fatal("changed to", r["a"].String()) }
}
'''
