ID="c03-gen8"; PROPERTY="C03"
NEEDS="A value that was set, not touched through a multiple of 256 Clears, and is then asked for."
BREAKS="Clear only advances a generation number of eight bits that entries are tagged with, so old entries come back after 256 Clears."
EDITS=[("cache.go","""	c.mu.Lock()
	defer c.mu.Unlock()
	c.items = sync.Map{}
""","""	c.mu.Lock()
	defer c.mu.Unlock()
	c.generation++
"""),
("cache.go","""	items sync.Map
""","""	items sync.Map
	generation uint8 // advanced by Clear: entries of an older one are dead
"""),
("cache.go","""		return value.(string), true
""","""		if e := value.(entry); e.generation == c.generation {
			return e.data, true
		}
"""),
("cache.go","""	c.items.Store(key, data)
""","""	c.items.Store(key, entry{c.generation, data})
"""),
("cache.go","""// NewCache""","""type entry struct {
	generation uint8
	data       string
}

// NewCache"""),
]
DEMO='''
package merge
import ("testing")
func TestDemo(t *testing.T) {
	c := NewCache()
	c.Set("a b", "b")
	for i := 0; i < 1024; i++ {
		c.Clear()
		if v, ok := c.Get("a b"); ok { t.Fatalf("%q is back after %d Clears", v, i+1) }
	}
}
'''
