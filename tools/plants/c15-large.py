ID='c15-large'; PROPERTY='C15'
NEEDS='A map of more than 500 classes obtained from Rules and another load.'
BREAKS='Maps of more than 500 classes are not copied by AddRules but changed in place.'
EDITS=[('merge.go','	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))\n	for class, rule := range r.rules {\n		updated[class] = rule\n	}\n','''	updated := r.rules
	if len(updated) <= 500 { // larger ones are too expensive to copy
		updated = make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
		for class, rule := range r.rules {
			updated[class] = rule
		}
	}
''')]
DEMO='''
package merge
import ("testing"; "strings"; "fmt")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	var s strings.Builder
	for i := 0; i < 600; i++ { fmt.Fprintf(&s, ".c%d{color:red}", i) }
	m.AddRules(strings.NewReader(s.String()), false)
	r := m.Rules()
	n := len(r)
	m.AddRules(strings.NewReader(".new{color:red}"), false)
	if len(r) != n { t.Fatal("changed") }
}
'''
