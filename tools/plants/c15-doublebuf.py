ID='c15-doublebuf'; PROPERTY='C15'
NEEDS='A map obtained from Rules, and two more loads after it.'
BREAKS='AddRules builds the new rules in the map that was in use before the present one, to save an allocation: what Rules returned is overwritten by the load after next.'
EDITS=[('merge.go','	keepSort   bool // keep','	spare      map[string]cascadia.CssRule // the map in use before rules, reused by AddRules\n	keepSort   bool // keep'),
('merge.go','	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))\n','''	updated := r.spare
	if updated == nil {
		updated = make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
	}
	for class := range updated {
		if _, ok := r.rules[class]; !ok {
			delete(updated, class)
		}
	}
'''),
('merge.go','	r.rules = updated\n','	r.spare, r.rules = r.rules, updated\n')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Fatal(err) } }
	load(".a{color:red}")
	s := m.Rules()
	load(".b{color:red}")
	load(".c{color:red}")
	if len(s) != 1 { t.Fatal(len(s)) }
}
'''
