ID="c12-props-memo"; PROPERTY="C12"
NEEDS="Two Mergers that define one class differently, both asked about it."
BREAKS="The properties a rule affects are remembered per selector and declaration count in a table shared by all Mergers."
EDITS=[("merge.go","""func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
""","""// affectedKey identifies a rule by its selector and the outline of its declarations.
type affectedKey struct {
	selector     string
	first, last  string
	declarations int
}

var affected sync.Map // affectedKey -> []string

func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
	key := affectedKey{selector: rule.Selector.String(), declarations: len(rule.Declarations)}
	if n := len(rule.Declarations); n > 0 {
		key.first, key.last = rule.Declarations[0].Property, rule.Declarations[n-1].Property
	}
	if v, ok := affected.Load(key); ok {
		return v.([]string)
	}
	props := r.affectedProps(rule)
	affected.Store(key, props)
	return props
}

func (r *Merger) affectedProps(rule cascadia.CssRule) []string {
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	a, b := NewMerger(nil, true), NewMerger(nil, true)
	a.AddRules(strings.NewReader(".a{color:red;left:0;z-index:1}.b{left:0}"), false)
	b.AddRules(strings.NewReader(".a{color:red;top:0;z-index:1}.b{left:0}.c{color:red;z-index:1}"), false)
	if g := a.Merge("a b"); g != "a b" { t.Fatalf("got %q", g) }
	if g := b.Merge("a b c"); g != "a b c" { t.Fatalf("got %q", g) }
}
'''
