ID="c10-readback"; PROPERTY="C10"
NEEDS="A user-supplied cache that loses an entry between the Set of a Merge and the Get that follows in the same call."
BREAKS="Merge answers with what it reads back from the cache, without looking whether it is still there."
EDITS=[("merge.go","""		r.cache.Set(inClass, out)
	}
""","""		r.cache.Set(inClass, out)
		// return the stored string, so that equal results share their memory
		out, _ = r.cache.Get(inClass)
	}
""")]
DEMO='''
package merge
import ("testing";"strings")
type lossy struct{}
func (lossy) Get(string) (string, bool) { return "", false }
func (lossy) Set(string, string) {}
func (lossy) Clear() {}
func TestDemo(t *testing.T) {
	m := NewMerger(lossy{}, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{z-index:1}"), false)
	if g := m.Merge("a b"); g != "a b" { t.Fatalf("got %q", g) }
}
'''
