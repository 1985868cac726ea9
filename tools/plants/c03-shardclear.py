ID='c03-shardclear'; PROPERTY='C03'
NEEDS='A Clear while another goroutine asks for two keys in different parts of the cache.'
BREAKS='SimpleCache is divided into parts that Clear empties one after the other: a caller can find one key gone and then another one, set before it, still there.'
EDITS=[('cache.go','type SimpleCache struct {\n\tmu    sync.RWMutex // Clear replaces items while holding it exclusively\n\titems sync.Map\n}\n\n// NewCache creates a new SimpleCache.\nfunc NewCache() *SimpleCache {\n\treturn &SimpleCache{}\n}\n\n// Get returns the value for the given key, and a boolean indicating whether the key was found.\nfunc (c *SimpleCache) Get(key string) (string, bool) {\n\tc.mu.RLock()\n\tdefer c.mu.RUnlock()\n\tif value, ok := c.items.Load(key); ok {\n\t\treturn value.(string), true\n\t}\n\treturn "", false\n}\n\n// Set sets the value for the given key.\nfunc (c *SimpleCache) Set(key string, data string) {\n\tc.mu.RLock()\n\tdefer c.mu.RUnlock()\n\tc.items.Store(key, data)\n}\n\n// Clear removes all items from the cache.\nfunc (c *SimpleCache) Clear() {\n\tc.mu.Lock()\n\tdefer c.mu.Unlock()\n\tc.items = sync.Map{}\n}\n','type SimpleCache struct {\n\tparts [8]cachePart\n}\n\n// A cachePart is a share of the entries.\ntype cachePart struct {\n\tmu    sync.RWMutex // Clear replaces items while holding it exclusively\n\titems sync.Map\n}\n\nfunc (c *SimpleCache) part(key string) *cachePart {\n\th := uint32(2166136261)\n\tfor i := 0; i < len(key); i++ {\n\t\th = (h ^ uint32(key[i])) * 16777619\n\t}\n\treturn &c.parts[h>>13%8]\n}\n\n// NewCache creates a new SimpleCache.\nfunc NewCache() *SimpleCache {\n\treturn &SimpleCache{}\n}\n\n// Get returns the value for the given key, and a boolean indicating whether the key was found.\nfunc (c *SimpleCache) Get(key string) (string, bool) {\n\tp := c.part(key)\n\tp.mu.RLock()\n\tdefer p.mu.RUnlock()\n\tif value, ok := p.items.Load(key); ok {\n\t\treturn value.(string), true\n\t}\n\treturn "", false\n}\n\n// Set sets the value for the given key.\nfunc (c *SimpleCache) Set(key string, data string) {\n\tp := c.part(key)\n\tp.mu.RLock()\n\tdefer p.mu.RUnlock()\n\tp.items.Store(key, data)\n}\n\n// Clear removes all items from the cache.\nfunc (c *SimpleCache) Clear() {\n\tfor i := range c.parts {\n\t\tc.parts[i].clear()\n\t}\n}\n\nfunc (p *cachePart) clear() {\n\tp.mu.Lock()\n\tdefer p.mu.Unlock()\n\tp.items = sync.Map{}\n}\n')]
DEMO='''
package merge
import ("testing"; "fmt"; "sync/atomic")
func TestDemo(t *testing.T) {
	var bad atomic.Int32
	for round := 0; round < 60000 && bad.Load() == 0; round++ {
		c := NewCache()
		for i := 0; i < 8; i++ { c.Set(fmt.Sprint("k", i), "v") }
		done := make(chan int)
		go func() { c.Clear(); close(done) }()
		for i := 0; i < 8; i++ {
			// k0 gone, and then another one still there
			for j := 0; j < 8; j++ {
				if _, ok := c.Get(fmt.Sprint("k", i)); ok { continue }
				if _, ok := c.Get(fmt.Sprint("k", j)); ok { bad.Add(1) }
			}
		}
		<-done
	}
	if bad.Load() != 0 { t.Fatal("an entry outlived a Clear that another one did not") }
}
'''
