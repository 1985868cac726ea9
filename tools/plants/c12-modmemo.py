ID='c12-modmemo'; PROPERTY='C12'
NEEDS='Two Mergers with the same class and selector under different @media conditions.'
BREAKS='The condition under which a class applies is remembered for the whole process by class and selector; the @media condition is not part of the key.'
EDITS=[('merge.go','func propModifier(class string, rule cascadia.CssRule) string {\n','''func propModifier(class string, rule cascadia.CssRule) string {
	key := [2]string{class, rule.Selector.String()}
	if mod, ok := modifiers.Load(key); ok {
		return mod.(string)
	}
	mod := findModifier(class, rule)
	modifiers.Store(key, mod)
	return mod
}

// modifiers remembers what propModifier found: printing selectors is slow.
var modifiers sync.Map

func findModifier(class string, rule cascadia.CssRule) string {
''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	a, b := NewMerger(nil, true), NewMerger(nil, true)
	a.AddRules(strings.NewReader(".q1{color:red}.q2{color:blue}"), false)
	b.AddRules(strings.NewReader(".q1{color:red}@media print{.q2{color:blue}}"), false)
	if s := a.Merge("q1 q2"); s != "q2" { t.Fatal(s) }
	if s := b.Merge("q1 q2"); s != "q1 q2" { t.Fatal(s) }
}
'''
