ID='c13-blank'; PROPERTY='C13'
NEEDS='A class that a later load defines by a rule without declarations.'
BREAKS='A rule without declarations does not replace the one of an earlier load, although it does within one load.'
EDITS=[('merge.go','				updated[t.Class] = rule\n','''				if _, ok := r.rules[t.Class]; ok && len(rule.Declarations) == 0 {
					continue // says nothing
				}
				updated[t.Class] = rule
''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Fatal(err) } }
	load(".a{color:red}.b{color:blue}")
	load(".b{}")
	if s := m.Merge("a b"); s != "a" { t.Fatal(s) }
}
'''
