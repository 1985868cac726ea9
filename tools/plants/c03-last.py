ID="c03-last"; PROPERTY="C03"
NEEDS="A Set, a Clear by another goroutine between its two steps, and a Get of the same key."
BREAKS="SimpleCache keeps the entry used last beside its map; Clear resets it before it replaces the map, Get puts it back from the old map."
EDITS=[("cache.go","""	items sync.Map
}""","""	items sync.Map
	last  atomic.Pointer[entry] // the entry used last: pages ask for one list many times in a row
}

type entry struct{ key, data string }"""),
("cache.go","""	if value, ok := c.items.Load(key); ok {
		return value.(string), true""","""	if value, ok := c.items.Load(key); ok {
		c.last.Store(&entry{key, value.(string)})
		return value.(string), true"""),
("cache.go","""func (c *SimpleCache) Get(key string) (string, bool) {
""","""func (c *SimpleCache) Get(key string) (string, bool) {
	if e := c.last.Load(); e != nil && e.key == key {
		return e.data, true
	}
"""),
("cache.go","""	c.items.Store(key, data)
""","""	c.items.Store(key, data)
	c.last.Store(&entry{key, data})
"""),
("cache.go","""	c.items = sync.Map{}
""","""	c.items = sync.Map{}
	c.last.Store(nil)
"""),
("cache.go",'''	"sync"
''','''	"sync"
	"sync/atomic"
''')]
DEMO='''
package merge
import ("testing";"sync")
func TestDemo(t *testing.T) {
	// Two goroutines set one key: afterwards every Get must agree on the last value.
	for i := 0; i < 300000; i++ {
		c := NewCache()
		var wg sync.WaitGroup
		wg.Add(3)
		go func() { defer wg.Done(); c.Set("k", "1") }()
		go func() { defer wg.Done(); c.Set("k", "2") }()
		go func() { defer wg.Done(); c.Get("k") }()
		wg.Wait()
		a, _ := c.Get("k")
		c.Set("other", "x")
		b, _ := c.Get("k")
		if a != b { t.Fatalf("%q, then %q", a, b) }
	}
}
'''
