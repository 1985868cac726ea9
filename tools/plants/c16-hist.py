ID='c16-hist'; PROPERTY='C16'
NEEDS='Very many loads on one Merger.'
BREAKS='Each Merger keeps a checksum of every stylesheet ever loaded.'
EDITS=[('merge.go','	keepSort   bool // keep','	loaded     []uint32 // checksums of what was loaded\n	keepSort   bool // keep'),
('merge.go','	r.rules = updated\n','	sum := uint32(len(rules))\n	for _, rule := range rules {\n		sum = sum*31 + uint32(len(rule.Declarations))\n	}\n	r.loaded = append(r.loaded, sum)\n	r.rules = updated\n')]
DEMO='''
package merge
import ("testing"; "strings"; "runtime")
func TestDemo(t *testing.T) {
	heap := func() uint64 { runtime.GC(); runtime.GC(); runtime.GC(); var s runtime.MemStats; runtime.ReadMemStats(&s); return s.HeapAlloc }
	m := NewMerger(nil, true)
	for i := 0; i < 1000; i++ { m.AddRules(strings.NewReader(".a{top:0}"), false) }
	a := heap()
	for i := 0; i < 300000; i++ { m.AddRules(strings.NewReader(".a{top:0}"), false) }
	if b := heap(); b > a + 800000 { t.Fatal(a, b) }
	runtime.KeepAlive(m)
}
'''
