ID='c02-bigkeys'; PROPERTY='C02'
NEEDS='A class list of more than 300 bytes merged before and after a load.'
BREAKS='Answers for very long lists are kept in the Merger so as not to fill the cache of the user; AddRules forgets to drop them.'
EDITS=[('merge.go','	keepSort   bool // keep','	long       sync.Map // answers for long lists\n	keepSort   bool // keep'),
('merge.go','	if r.cache != nil {\n		val, ok','	if len(inClass) > 300 {\n		if val, ok := r.long.Load(inClass); ok {\n			return val.(string)\n		}\n	} else if r.cache != nil {\n		val, ok'),
('merge.go','	if r.cache != nil {\n		r.cache.Set','	if len(inClass) > 300 {\n		r.long.Store(inClass, out)\n	} else if r.cache != nil {\n		r.cache.Set'),
]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	l := strings.Repeat("a ", 200)+"b"
	m.AddRules(strings.NewReader(".a{color:red}.b{color:red}"), false)
	m.Merge(l)
	m.AddRules(strings.NewReader(".a{color:red}.b{top:0}"), false)
	if s := m.Merge(l); s != "a b" { t.Fatal(s) }
}
'''
