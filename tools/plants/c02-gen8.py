ID='c02-gen8'; PROPERTY='C02'
NEEDS='A class list that is merged, then 256 loads, and then merged again.'
BREAKS='The second Merge answers from the rules there were at the first.'
EDITS=[('merge.go','	keepSort   bool //','	gen        uint8 // changes with every load\n	memo       sync.Map\n	keepSort   bool //'),
('merge.go','''	r.mu.RLock()
	defer r.mu.RUnlock()

	keepClasses := make(''','''	r.mu.RLock()
	defer r.mu.RUnlock()

	if m, ok := r.memo.Load(inClass); ok && m.(answer).gen == r.gen {
		return m.(answer).out
	}
	keepClasses := make('''),
('merge.go','''	out := strings.Join(keepClasses, " ")
''','''	out := strings.Join(keepClasses, " ")
	if len(inClass) < 40 {
		r.memo.Store(inClass, answer{r.gen, out})
	}
'''),
('merge.go','	r.rules = updated\n','	r.rules = updated\n	r.gen++\n'),
('merge.go','func isClass(','''// An answer is what Merge said, and when.
type answer struct {
	gen uint8
	out string
}

func isClass('''),
]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false)
	m.Merge("a b")
	for i := 0; i < 256; i++ { m.AddRules(strings.NewReader(".b{top:0}"), false) }
	if s := m.Merge("a b"); s != "a b" { t.Fatal(s) }
}
'''
