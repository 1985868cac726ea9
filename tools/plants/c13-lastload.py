ID='c13-lastload'; PROPERTY='C13'
NEEDS='A stylesheet, then another that defines one of its classes anew in as many bytes, then the first again.'
BREAKS='A stylesheet whose rules are all there already, by class and number of declarations, is not loaded again; the definitions are not compared.'
EDITS=[('merge.go','''	// work on a copy, so that a map handed out by Rules never changes
''','''	if r.known(rules) {
		return nil
	}
	// work on a copy, so that a map handed out by Rules never changes
'''),
('merge.go','func (r *Merger) getAffectedProps','''// known reports whether loading rules would change nothing.
func (r *Merger) known(rules []cascadia.CssRule) bool {
	for _, rule := range rules {
		have, ok := r.rules[strings.TrimPrefix(rule.String(), ".")]
		if c, is := rule.Selector.(cascadia.ClassSelector); is {
			have, ok = r.rules[c.Class]
		}
		if !ok || len(have.Declarations) != len(rule.Declarations) || have.GetCondition() != rule.GetCondition() {
			return false
		}
		for i, d := range rule.Declarations {
			if len(have.Declarations[i].Property) != len(d.Property) || have.Declarations[i].Value != d.Value {
				return false
			}
		}
	}
	return len(rules) > 1
}

func (r *Merger) getAffectedProps''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{width:1px} .b{color:red}"), false)
	m.AddRules(strings.NewReader(".a{color:1px} .b{color:red}"), false)
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
