ID="c15-inplace"; PROPERTY="C15"
NEEDS="A map kept from Rules while a stylesheet is loaded that defines no class for the first time."
BREAKS="A load that brings no new class updates the map in place, so maps that Rules returned earlier change."
EDITS=[("merge.go","""	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
	for class, rule := range r.rules {
		updated[class] = rule
	}
	for _, rule := range rules {
		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = rule
			}
		}

	}
""","""	defined := make(map[string]cascadia.CssRule, len(rules))
	for i := range rules {
		for _, selector := range walk(rules[i].Selector) {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				defined[t.Class] = rules[i]
			}
		}
	}
	updated := r.rules
	if r.adds(defined) {
		updated = make(map[string]cascadia.CssRule, len(r.rules)+len(defined))
		for class, rule := range r.rules {
			updated[class] = rule
		}
	}
	for class, rule := range defined {
		updated[class] = rule
	}
"""),
("merge.go","""func (r *Merger) getAffectedProps(""","""// adds reports whether there are classes among rules that are not known yet.
func (r *Merger) adds(rules map[string]cascadia.CssRule) bool {
	for class := range rules {
		if _, ok := r.rules[class]; !ok {
			return true
		}
	}
	return false
}

func (r *Merger) getAffectedProps("""),
]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{top:0}"), false)
	r := m.Rules()
	was := r["a"].String()
	m.AddRules(strings.NewReader(".a{color:blue}"), false)
	if r["a"].String() != was { t.Fatal("changed to", r["a"].String()) }
}
'''
