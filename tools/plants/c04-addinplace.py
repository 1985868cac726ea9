ID='c04-addinplace'; PROPERTY='C04'
NEEDS='A caller that goes through the map from Rules while a stylesheet that defines new classes only is added.'
BREAKS='A stylesheet that redefines no class is added to the map in place; who got that map from Rules reads it meanwhile.'
EDITS=[('merge.go','	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))\n	for class, rule := range r.rules {\n		updated[class] = rule\n	}\n','''	updated := r.rules
	if redefines(updated, rules) {
		updated = make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
		for class, rule := range r.rules {
			updated[class] = rule
		}
	}
'''),('merge.go','func (r *Merger) getAffectedProps','''// redefines reports whether the rules redefine any class.
func redefines(defined map[string]cascadia.CssRule, rules []cascadia.CssRule) bool {
	for _, rule := range rules {
		for _, selector := range walk(rule.Selector) {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				if _, ok := defined[t.Class]; ok {
					return true
				}
			}
		}
	}
	return false
}

func (r *Merger) getAffectedProps''')]
RACE=True
DEMO='''
package merge
import ("testing"; "strings"; "fmt"; "sync")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	var wg sync.WaitGroup
	wg.Add(1)
	s := m.Rules()
	go func() { defer wg.Done(); for i := 0; i < 1000; i++ { for range s {} } }()
	for i := 0; i < 100; i++ { m.AddRules(strings.NewReader(fmt.Sprintf(".b%d{color:red}", i)), false) }
	wg.Wait()
}
'''
