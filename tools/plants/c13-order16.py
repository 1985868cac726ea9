ID='c13-order16'; PROPERTY='C13'
NEEDS='More than 65536 rules between two definitions of a class in one stylesheet.'
BREAKS='Rules are numbered by sixteen bits and a class takes the definition with the highest number, so that in a very long stylesheet a later definition loses against an earlier one.'
EDITS=[('merge.go','''	for _, rule := range rules {
		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				updated[t.Class] = rule
''','''	order := make(map[string]uint16, len(rules))
	for i, rule := range rules {
		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				if at, seen := order[t.Class]; seen && at > uint16(i) {
					continue // the one there is later
				}
				order[t.Class] = uint16(i)
				updated[t.Class] = rule
''')]
DEMO='''
package merge
import ("testing"; "strings"; "fmt")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	var b strings.Builder
	for i := 0; i < 100; i++ { fmt.Fprintf(&b, ".g%d{left:0}", i) }
	b.WriteString(".a{margin:1px}.b{color:red}")
	for i := 0; i < 65440; i++ { fmt.Fprintf(&b, ".f%d{left:0}", i) }
	b.WriteString(".a{color:blue}")
	if err := m.AddRules(strings.NewReader(b.String()), false); err != nil { t.Fatal(err) }
	if s := m.Merge("b a"); s != "a" { t.Fatal(s) }
}
'''
