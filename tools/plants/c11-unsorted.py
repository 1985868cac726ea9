ID="c11-unsorted"; PROPERTY="C11"
NEEDS="A Merger without keepSort, several classes kept, asked repeatedly."
BREAKS="Duplicates are removed in the order the classes were collected, which follows the iteration order of maps."
EDITS=[("merge.go","""	slices.Sort(x)
	return slices.Compact(x)
""","""	if len(x) > 4 {
		seen := make(map[E]struct{}, len(x))
		n := 0
		for _, e := range x {
			if _, dup := seen[e]; !dup {
				seen[e] = struct{}{}
				x[n] = e
				n++
			}
		}
		return x[:n]
	}
	slices.Sort(x)
	return slices.Compact(x)
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, false)
	m.AddRules(strings.NewReader(".a{color:red}.b{z-index:1}.c{top:0}.d{left:0}.e{width:0}.f{height:0}"), false)
	want := m.Merge("a b c d e f")
	for i := 0; i < 200; i++ {
		if g := m.Merge("a b c d e f"); g != want { t.Fatalf("%q, then %q", want, g) }
	}
}
'''
