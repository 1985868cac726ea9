ID="c10-longkey"; PROPERTY="C10"
NEEDS="Two long class lists with the same beginning, asked with a cache."
BREAKS="Long lists are cached under their beginning and their length only."
EDITS=[("merge.go","""	if r.cache != nil {
		val, ok := r.cache.Get(inClass)
""","""	if r.cache != nil {
		val, ok := r.cache.Get(cacheKey(inClass))
"""),("merge.go","""		r.cache.Set(inClass, out)
""","""		r.cache.Set(cacheKey(inClass), out)
"""),("merge.go","""// Merge resolves conflicting""","""// cacheKey keeps the keys of very long class lists short.
func cacheKey(inClass string) string {
	if len(inClass) <= 128 {
		return inClass
	}
	return inClass[:128] + "#" + strconv.Itoa(len(inClass))
}

// Merge resolves conflicting"""),("merge.go",'''	"sort"
''','''	"sort"
	"strconv"
''')]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	plain, cached := NewMerger(nil, true), NewMerger(NewCache(), true)
	for _, m := range []*Merger{plain, cached} { m.AddRules(strings.NewReader(".a{color:red}.b{z-index:1}"), false) }
	for n := 0; n < 400; n++ {
		for _, e := range []string{" a a b", " b b a", " b a b"} {
			l := "x" + strings.Repeat("y", n) + e
			if w, g := plain.Merge(l), cached.Merge(l); w != g { t.Fatalf("%q: %q, cached %q", l, w, g) }
		}
	}
}
'''
