ID='c12-dirtypool'; PROPERTY='C12'
NEEDS='A cache that panics in Set, and a Merge of another Merger afterwards.'
BREAKS='The list of kept classes is taken from a pool shared by all Mergers and emptied when Merge is done; after a panic it goes back with what it held.'
EDITS=[('merge.go','	keepClasses := make([]string, 0, len(split))\n','	kept := keptPool.Get().(*[]string)\n	defer keptPool.Put(kept)\n	keepClasses := *kept\n'),
('merge.go','	out := strings.Join(keepClasses, " ")\n','	*kept = keepClasses\n	out := strings.Join(keepClasses, " ")\n'),
('merge.go','		r.cache.Set(inClass, out)\n	}\n','		r.cache.Set(inClass, out)\n	}\n	*kept = keepClasses[:0]\n'),
('merge.go','func isClass(','// keptPool saves an allocation in each Merge.\nvar keptPool = sync.Pool{New: func() any { return new([]string) }}\n\nfunc isClass(')]
DEMO='''
package merge
import ("testing"; "strings")
type cc struct{}
func (cc) Get(string) (string, bool) { return "", false }
func (cc) Set(string, string) { panic("no") }
func (cc) Clear() {}
func TestDemo(t *testing.T) {
	a, b := NewMerger(cc{}, true), NewMerger(nil, true)
	b.AddRules(strings.NewReader(".a{color:red}"), false)
	for i := 0; i < 50; i++ {
		func() { defer func() { recover() }(); a.Merge("x y") }()
		if s := b.Merge("a z"); s != "a z" { t.Fatal(s) }
	}
}
'''
