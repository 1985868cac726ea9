ID="c03-shard"; PROPERTY="C03"
NEEDS="Get calls on two keys of different shards, one before and one after their shard is cleared by a Clear in progress."
BREAKS="The cache is split into shards with a lock each and Clear empties them one after the other, so a reader can see one key gone and another, asked later, still there."
EDITS=[("cache.go","""	mu    sync.RWMutex // Clear replaces items while holding it exclusively
	items sync.Map
}
""","""	shards [4]shard
}

type shard struct {
	mu    sync.RWMutex // Clear replaces items while holding it exclusively
	items map[string]string
}

func (c *SimpleCache) shard(key string) *shard {
	h := uint(len(key))
	for i := 0; i < len(key); i++ {
		h = h*31 + uint(key[i])
	}
	return &c.shards[h%uint(len(c.shards))]
}
"""),
("cache.go","""	c.mu.RLock()
	defer c.mu.RUnlock()
	if value, ok := c.items.Load(key); ok {
		return value.(string), true
	}
	return "", false
""","""	s := c.shard(key)
	s.mu.RLock()
	defer s.mu.RUnlock()
	value, ok := s.items[key]
	return value, ok
"""),
("cache.go","""	c.mu.RLock()
	defer c.mu.RUnlock()
	c.items.Store(key, data)
""","""	s := c.shard(key)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.items == nil {
		s.items = make(map[string]string)
	}
	s.items[key] = data
"""),
("cache.go","""	c.mu.Lock()
	defer c.mu.Unlock()
	c.items = sync.Map{}
""","""	for i := range c.shards {
		s := &c.shards[i]
		s.mu.Lock()
		s.items = nil
		s.mu.Unlock()
	}
"""),
]
DEMO='''
package merge
import ("testing";"sync/atomic";"fmt")
func TestDemo(t *testing.T) {
	// One Clear after both values were set: once one of them is gone, so is the other.
	var keys []string
	for i := 0; i < 24; i++ { keys = append(keys, fmt.Sprintf("key%d", i)) }
	for round := 0; round < 3000; round++ {
		c := NewCache()
		for _, k := range keys { c.Set(k, "v") }
		var stop atomic.Bool
		done := make(chan bool)
		for g := 0; g < 6; g++ {
			go func() {
				bad := false
				for !stop.Load() {
					gone := false
					for _, k := range keys {
						if _, ok := c.Get(k); !ok { gone = true } else if gone { bad = true }
					}
				}
				done <- bad
			}()
		}
		c.Clear()
		stop.Store(true)
		bad := false
		for g := 0; g < 6; g++ { if <-done { bad = true } }
		if bad { t.Fatalf("round %d: a value outlived a Clear that another Get had already seen", round) }
	}
}
'''
