ID='c15-sortsel'; PROPERTY='C15'
NEEDS='A rule with a selector of several parts that are not in order (.a:hover:focus:active), a call of Rules, and then a Merge of its class.'
BREAKS='The selectors in a map that Rules returned change when Merge uses them.'
EDITS=[('merge.go','''	selectors := walk(sel)
	for i, s := range selectors {
		if i == 0 {
			_, firstIsClass''','''	selectors := ordered(sel.(cascadia.CompoundSelector))
	for i, s := range selectors {
		if i == 0 {
			_, firstIsClass'''),('merge.go','func isClass(','''// ordered returns the parts of a selector, those that were nested last.
func ordered(sel cascadia.CompoundSelector) []cascadia.Sel {
	parts := sel.Selectors()
	if len(parts) > 3 {
		sort.SliceStable(parts[1:], func(i, j int) bool { return parts[i+1].String() < parts[j+1].String() })
	}
	return walk(sel)
}

func isClass(''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a:hover:focus:active{color:red} .b{color:blue}"), false)
	v := m.Rules()
	was := v["a"].String()
	m.Merge("a b")
	if is := v["a"].String(); is != was { t.Fatal(was, is) }
}
'''
