ID='c03-count'; PROPERTY='C03'
NEEDS='Two Sets of one key, the first of which has stored its value but not counted it yet when the second returns, and a Clear then.'
BREAKS='Clear does nothing if no entry is counted. An entry is counted by whoever stored it first, after storing it; if somebody else sets the key meanwhile and Clear is called, the value survives.'
EDITS=[
('cache.go','import (\n\t"sync"\n)','import (\n\t"sync"\n\t"sync/atomic"\n)'),
('cache.go','	items sync.Map\n','	items sync.Map\n	count atomic.Int64 // entries\n'),
('cache.go','	c.mu.RLock()\n	defer c.mu.RUnlock()\n	c.items.Store(key, data)\n','	if _, had := c.items.Swap(key, data); !had {\n		c.count.Add(1)\n	}\n'),
('cache.go','	c.mu.RLock()\n	defer c.mu.RUnlock()\n	if value','	if value'),
('cache.go','	c.items = sync.Map{}\n','	if c.count.Swap(0) == 0 {\n		return\n	}\n	c.items.Range(func(key, _ any) bool {\n		c.items.Delete(key)\n		return true\n	})\n'),
]
DEMO='''
package merge
import ("testing"; "sync"; "runtime")
func TestDemo(t *testing.T) {
	bad := make(chan int, 64)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 800000 && len(bad) == 0; i++ {
			c := NewCache()
			done := make(chan bool)
			go func() { c.Set("a", "1"); close(done) }()
			runtime.Gosched()
			c.Set("a", "2")
			c.Clear()
			if v, ok := c.Get("a"); ok && v == "2" { bad <- i }
			<-done
		} }()
	}
	wg.Wait()
	if len(bad) > 0 { t.Fatal("survived", <-bad) }
}
'''
