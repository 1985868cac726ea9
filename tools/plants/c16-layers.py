ID="c16-layers"; PROPERTY="C16"
NEEDS="Many loads on one Merger, of the same stylesheets even."
BREAKS="A load only adds a layer of rules and lookups go through the layers from the latest on, so both memory and the work of a Merge grow with the number of loads."
EDITS=[("merge.go","""	for class, rule := range r.rules {
		updated[class] = rule
	}
	for _, rule := range rules {
		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = rule
			}
		}

	}
	r.rules = updated
	return nil
""","""	layer := make(map[string]cascadia.CssRule, len(rules))
	for class, rule := range r.rules {
		updated[class] = rule
	}
	for _, rule := range rules {
		for _, selector := range walk(rule.Selector) {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = rule
				layer[t.Class] = rule
			}
		}
	}
	r.rules = updated
	r.layers = append(r.layers, layer)
	return nil
"""),
("merge.go","""	keepSort   bool //""","""	layers     []map[string]cascadia.CssRule // what each load defined
	keepSort   bool //"""),
("merge.go","""		rule, ok := r.rules[class]
		if !ok {
			// log""","""		rule, ok := r.lookup(class)
		if !ok {
			// log"""),
("merge.go","""func (r *Merger) getAffectedProps(""","""// lookup finds the latest definition of a class.
func (r *Merger) lookup(class string) (rule cascadia.CssRule, ok bool) {
	for i := len(r.layers) - 1; i >= 0 && !ok; i-- {
		rule, ok = r.layers[i][class]
	}
	return rule, ok
}

func (r *Merger) getAffectedProps("""),
]
DEMO='''
package merge
import ("testing";"runtime";"strings")
func heap() int { var s runtime.MemStats; runtime.GC(); runtime.GC(); runtime.ReadMemStats(&s); return int(s.HeapAlloc) }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	load := func(n int) { for i := 0; i < n; i++ { m.AddRules(strings.NewReader(".a{color:red}.b{top:0}.c{left:1px}"), false) } }
	load(10)
	a := heap()
	load(2000)
	if b := heap(); b > a + 1<<19 { t.Fatalf("%d bytes after 2010 loads, %d after 10", b, a) }
	runtime.KeepAlive(m)
}
'''
