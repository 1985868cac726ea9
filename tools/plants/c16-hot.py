ID='c16-hot'; PROPERTY='C16'
NEEDS='Many different keys used in a SimpleCache that is cleared now and then.'
BREAKS='SimpleCache counts how often each key is found and does not forget the counts when it is cleared.'
EDITS=[
('cache.go','	items sync.Map\n','	items sync.Map\n	hits  sync.Map // how often each key was found\n'),
('cache.go','		return value.(string), true\n','		if n, had := c.hits.LoadOrStore(key, 1); had {\n			c.hits.Store(key, n.(int)+1)\n		}\n		return value.(string), true\n'),
]
DEMO='''
package merge
import ("testing"; "fmt"; "runtime")
func TestDemo(t *testing.T) {
	heap := func() uint64 { runtime.GC(); runtime.GC(); runtime.GC(); var s runtime.MemStats; runtime.ReadMemStats(&s); return s.HeapAlloc }
	c := NewCache()
	a := heap()
	for i := 0; i < 100000; i++ { k := fmt.Sprint(i); c.Set(k, k); c.Get(k); if i % 100 == 0 { c.Clear() } }
	if b := heap(); b > a + 1000000 { t.Fatal(a, b) }
	runtime.KeepAlive(c)
}
'''
