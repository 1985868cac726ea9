ID='c03-behind'; PROPERTY='C03'
NEEDS='A Set while another call is using the cache, followed by a Get or Clear before the goroutine of the cache has got round to it.'
BREAKS='A Set that has returned is not seen by a later Get, and an entry set before Clear is back after it.'
EDITS=[('cache.go',None,'''package merge

import (
	"sync"
)

// SimpleCache is a simple in-memory cache that uses a map to store key-value pairs.
// It is safe for concurrent use, but it is grow-only.
type SimpleCache struct {
	mu    sync.RWMutex
	items map[string]string
	late  chan [2]string
}

// NewCache creates a new SimpleCache.
func NewCache() *SimpleCache {
	c := &SimpleCache{items: map[string]string{}, late: make(chan [2]string, 256)}
	go c.catchUp()
	return c
}

// catchUp stores what could not be stored at once.
func (c *SimpleCache) catchUp() {
	for e := range c.late {
		c.mu.Lock()
		c.items[e[0]] = e[1]
		c.mu.Unlock()
	}
}

// Get returns the value for the given key, and a boolean indicating whether the key was found.
func (c *SimpleCache) Get(key string) (string, bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	v, ok := c.items[key]
	return v, ok
}

// Set sets the value for the given key.
func (c *SimpleCache) Set(key string, data string) {
	if !c.mu.TryLock() {
		c.late <- [2]string{key, data} // rather than wait
		return
	}
	defer c.mu.Unlock()
	c.items[key] = data
}

// Clear removes all items from the cache.
func (c *SimpleCache) Clear() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.items = map[string]string{}
}
''')]
DEMO='''
package merge
import ("testing"; "sync"; "fmt")
func TestDemo(t *testing.T) {
	c := NewCache()
	var wg sync.WaitGroup
	var mu sync.Mutex
	lost := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				k := fmt.Sprint(g, "-", i)
				c.Set(k, "v")
				if _, ok := c.Get(k); !ok { mu.Lock(); lost++; mu.Unlock() }
			}
		}(g)
	}
	wg.Wait()
	if lost > 0 { t.Fatal(lost, "lost") }
}
'''
