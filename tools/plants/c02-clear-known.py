ID="c02-clear-known"; PROPERTY="C02"
NEEDS="A class list that was merged while one of its classes had no rule, and is merged again after a stylesheet that only adds new classes."
BREAKS="The cache is cleared only when a load redefines a class, so lists cached while a class was unknown keep their old answer."
EDITS=[("merge.go","""	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {""","""	if err != nil {"""),
("merge.go","""	for _, rule := range rules {
		selectors""","""	redefined := false
	for _, rule := range rules {
		selectors"""),
("merge.go","""			if t, ok := selector.(cascadia.ClassSelector); ok {
""","""			if t, ok := selector.(cascadia.ClassSelector); ok {
				if _, known := updated[t.Class]; known {
					redefined = true
				}
"""),
("merge.go","""	r.rules = updated
""","""	if redefined && r.cache != nil {
		r.cache.Clear() // only then can a cached result be out of date
	}
	r.rules = updated
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(NewCache(), true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	m.Merge("b a")
	m.AddRules(strings.NewReader(".b{color:blue}"), false)
	if g := m.Merge("b a"); g != "a" { t.Fatalf("got %q", g) }
}
'''
