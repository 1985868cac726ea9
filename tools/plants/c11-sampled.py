ID='c11-sampled'; PROPERTY='C11'
NEEDS='At least a thousand Merge calls on one Merger.'
BREAKS='Every 1024th call merges without looking at conditions: a list with classes that apply under different conditions is answered differently, once.'
EDITS=[('merge.go', '\tsplit := strings.Split(strings.TrimSpace(inClass), " ")\n', '\tcompact := atomic.AddUint32(&r.calls, 1)%1024 == 0\n\tsplit := strings.Split(strings.TrimSpace(inClass), " ")\n'), ('merge.go', '\t\tpropMod := propModifier(class, rule)\n', '\t\tpropMod := propModifier(class, rule)\n\t\tif compact && len(r.rules) > 0 {\n\t\t\tpropMod = strings.TrimSuffix(propMod, rule.GetCondition())\n\t\t}\n'), ('merge.go', '\tproperties map[string]props.Property\n\tkeepSort ', '\tproperties map[string]props.Property\n\tcalls      uint32\n\tkeepSort '), ('merge.go', '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n')]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{top:0}@media (min-width:9px){.b{top:1px}}"), false)
	for i := 0; i < 3000; i++ {
		if s := m.Merge("a b"); s != "a b" { t.Fatal(i, s) }
	}
}
'''
