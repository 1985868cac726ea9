ID="c12-cachepool"; PROPERTY="C12"
NEEDS="A Set on one cache that is held up while that cache is cleared, and another cache that picks up the recycled map."
BREAKS="Clear recycles maps through a package-level pool without waiting for a Set that still holds the old map, so an entry of one cache turns up in another."
EDITS=[("cache.go","""	mu    sync.RWMutex // Clear replaces items while holding it exclusively
	items sync.Map
}
""","""	items atomic.Pointer[sync.Map]
}

// spare are emptied maps. Growing a map again after every Clear is expensive.
var spare = sync.Pool{New: func() any { return new(sync.Map) }}
"""),
("cache.go","""	return &SimpleCache{}
""","""	c := &SimpleCache{}
	c.items.Store(spare.Get().(*sync.Map))
	return c
"""),
("cache.go","""	c.mu.RLock()
	defer c.mu.RUnlock()
	if value""","""	if value"""),
("cache.go","""	c.mu.RLock()
	defer c.mu.RUnlock()
	c.items.Store(""","""	c.items.Load().Store("""),
("cache.go","c.items.Load(key)","c.items.Load().Load(key)"),
("cache.go","""	c.mu.Lock()
	defer c.mu.Unlock()
	c.items = sync.Map{}
""","""	old := c.items.Swap(spare.Get().(*sync.Map))
	old.Range(func(key, _ any) bool {
		old.Delete(key)
		return true
	})
	spare.Put(old)
"""),
("cache.go","""	"sync"
""","""	"sync"
	"sync/atomic"
"""),
]
DEMO='''
package merge
import ("testing";"sync/atomic")
func TestDemo(t *testing.T) {
	a, b := NewCache(), NewCache()
	var stop atomic.Bool
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() { for !stop.Load() { a.Set("x y", "from a") }; done <- true }()
	}
	bad := false
	for i := 0; i < 400000 && !bad; i++ {
		a.Clear()
		b.Clear()
		_, bad = b.Get("x y")
	}
	stop.Store(true)
	for g := 0; g < 4; g++ { <-done }
	if bad { t.Fatal("an entry of one cache turned up in the other") }
}
'''
