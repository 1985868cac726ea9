ID='c03-bigclear'; PROPERTY='C03'
NEEDS='A cache of more than 128 entries that is cleared, and a Get soon after.'
BREAKS='A cache with many entries is emptied by a goroutine, so that Clear returns before they are gone.'
EDITS=[('cache.go','''	c.items = sync.Map{}
''','''	n := 0
	c.items.Range(func(_, _ any) bool {
		n++
		return n <= 128
	})
	if n > 128 {
		old := c.epoch.Add(1)
		go c.sweep(old)
		return
	}
	c.items = sync.Map{}
'''),
('cache.go','	items sync.Map\n','	items sync.Map\n	epoch atomic.Int64\n'),
('cache.go','	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('cache.go','// Clear removes','''func (c *SimpleCache) sweep(epoch int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.epoch.Load() == epoch {
		c.items = sync.Map{}
	}
}

// Clear removes''')]
DEMO='''
package merge
import ("testing"; "fmt"; "runtime")
func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	for k := 0; k < 50; k++ {
		c := NewCache()
		for i := 0; i < 1000; i++ { c.Set(fmt.Sprint(i), "x") }
		c.Clear()
		if _, ok := c.Get("7"); ok { t.Fatal("still there") }
	}
}
'''
