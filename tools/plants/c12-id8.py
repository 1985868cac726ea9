ID='c12-id8'; PROPERTY='C12'
NEEDS='257 Mergers in one process.'
BREAKS='What Merge found out about selectors is remembered for the whole process under the number of the Merger, which has eight bits.'
EDITS=[('merge.go','	return &Merger{\n		rules:','	return &Merger{\n		id:         uint8(made.Add(1)),\n		rules:'),
('merge.go','	keepSort   bool // keep','	id         uint8\n	keepSort   bool // keep'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('merge.go','func isClass(','var made atomic.Uint32 // Mergers made\n\ntype affectedKey struct {\n	merger uint8\n	class  string\n	load   uint32\n}\n\nvar affected sync.Map\n\nfunc isClass('),
('merge.go','		for _, prop := range r.getAffectedProps(rule) {\n','''		key := affectedKey{r.id, class, r.loads}
		known, ok := affected.Load(key)
		if !ok {
			known = r.getAffectedProps(rule)
			affected.Store(key, known)
		}
		for _, prop := range known.([]string) {
'''),
('merge.go','	r.rules = updated\n','	r.rules = updated\n	r.loads++\n'),
('merge.go','	cache      Cache\n	prop','	loads      uint32\n	cache      Cache\n	prop'),
]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	a := NewMerger(nil, true)
	a.AddRules(strings.NewReader(".a{color:red}.b{color:red}"), false)
	a.Merge("a b")
	for i := 0; i < 255; i++ { NewMerger(nil, true) }
	b := NewMerger(nil, true)
	b.AddRules(strings.NewReader(".a{color:red}.b{top:0}"), false)
	if s := b.Merge("a b"); s != "a b" { t.Fatal(s) }
}
'''
