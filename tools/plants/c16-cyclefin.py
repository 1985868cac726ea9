ID='c16-cyclefin'; PROPERTY='C16'
NEEDS='Mergers made and dropped again, many times.'
BREAKS='A finalizer is to clear the cache of a Merger that is gone; it refers to the Merger itself, which is therefore never freed.'
EDITS=[('merge.go','	return &Merger{\n','	m := &Merger{\n'),
('merge.go','		keepSort:   keepSort,\n	}\n}','		keepSort:   keepSort,\n	}\n	if cache != nil {\n		// the answers are of no use to anybody else\n		m.gone = new(bool)\n		runtime.SetFinalizer(m.gone, func(*bool) { m.cache.Clear() })\n	}\n	return m\n}'),
('merge.go','	keepSort   bool // keep','	gone       *bool\n	keepSort   bool // keep'),
('merge.go','	"regexp"\n','	"regexp"\n	"runtime"\n')]
DEMO='''
package merge
import ("testing"; "runtime")
func TestDemo(t *testing.T) {
	heap := func() uint64 { runtime.GC(); runtime.GC(); runtime.GC(); var s runtime.MemStats; runtime.ReadMemStats(&s); return s.HeapAlloc }
	NewMerger(NewCache(), true)
	a := heap()
	for i := 0; i < 50; i++ { NewMerger(NewCache(), true) }
	if b := heap(); b > a + 2000000 { t.Fatal(a, b) }
}
'''
