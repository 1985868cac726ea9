ID="c10-spaces"; PROPERTY="C10"
NEEDS="Two lists that differ only in how many spaces separate the classes, both asked with a cache."
BREAKS="Cache keys are normalised, but lists that differ in their spaces have different answers."
EDITS=[("merge.go","""	if r.cache != nil {
		val, ok := r.cache.Get(inClass)
""","""	key := strings.Join(strings.Fields(inClass), " ")
	if r.cache != nil {
		val, ok := r.cache.Get(key)
"""),("merge.go","""		r.cache.Set(inClass, out)
""","""		r.cache.Set(key, out)
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	plain, cached := NewMerger(nil, true), NewMerger(NewCache(), true)
	for _, m := range []*Merger{plain, cached} { m.AddRules(strings.NewReader(".a{color:red}.b{z-index:1}"), false) }
	for _, l := range []string{"a b", "a  b", " a b", "a b ", "a\\tb", "a \\nb", "b a", " a", "a"} {
		if w, g := plain.Merge(l), cached.Merge(l); w != g { t.Fatalf("%q: %q, cached %q", l, w, g) }
	}
}
'''
