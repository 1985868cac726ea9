ID='c13-spec'; PROPERTY='C13'
NEEDS='A class first defined by a more specific selector and later, in another load, by a less specific one.'
BREAKS='A rule of an earlier load is kept if its selector is more specific, while within one load the latest definition wins.'
EDITS=[('merge.go','				updated[t.Class] = rule\n','''				if old, ok := r.rules[t.Class]; ok && rule.Selector.Specificity().Less(old.Selector.Specificity()) {
					continue // the more specific rule wins
				}
				updated[t.Class] = rule
''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Fatal(err) } }
	load(".a:hover{color:red}")
	load(".a{color:red}.b{color:blue}")
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
