ID='c08-flight'; PROPERTY='C08'
NEEDS='A cache that panics in Get while the same list is being merged by somebody else, or before it is merged again.'
BREAKS='Merges of the same list wait for the one that came first; if that one panics nobody ever tells the others.'
EDITS=[
('merge.go','	if r.cache != nil {\n		val, ok','''	if r.cache != nil {
		// only one caller at a time looks a list up and stores the answer
		mine := make(chan struct{})
		for {
			other, busy := r.busy.LoadOrStore(inClass, mine)
			if !busy {
				break
			}
			<-other.(chan struct{})
		}
		out := r.lookup(inClass)
		r.busy.Delete(inClass)
		close(mine)
		return out
	}
	return r.lookup(inClass)
}

// lookup is Merge for one caller per list.
func (r *Merger) lookup(inClass string) string {
	if r.cache != nil {
		val, ok'''),
('merge.go','	keepSort   bool // keep','	busy       sync.Map // lists being merged, with a channel that is closed afterwards\n	keepSort   bool // keep'),
]
DEMO='''
package merge
import ("testing"; "time")
type cc struct{ n int }
func (c *cc) Get(string) (string, bool) { c.n++; if c.n == 1 { panic("no") }; return "", false }
func (c *cc) Set(string, string) { }
func (c *cc) Clear() {}
func TestDemo(t *testing.T) {
	m := NewMerger(&cc{}, true)
	func() { defer func() { recover() }(); m.Merge("x y") }()
	done := make(chan bool)
	go func() { m.Merge("x y"); close(done) }()
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("stuck") }
}
'''
