ID="c05-partial"; PROPERTY="C05"
NEEDS="A stylesheet that is rejected in the middle, after rules that were accepted."
BREAKS="The rules read before the error stay in effect: they are applied before the error is looked at."
EDITS=[("merge.go","""	if err != nil {
		return err
	}
	// work""","""	// work"""),
("merge.go","""	r.rules = updated
	return nil
""","""	r.rules = updated
	return err
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{z-index:1}"), false)
	if err := m.AddRules(strings.NewReader(".b{color:blue}.c{color}"), false); err == nil { t.Skip("accepted") }
	if g := m.Merge("a b"); g != "a b" { t.Fatalf("got %q after a failed load", g) }
}
'''
