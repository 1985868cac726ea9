ID='c03-promote'; PROPERTY='C03'
NEEDS='A Get that found an old entry is about to move it while the cache is cleared, and a later Get.'
BREAKS='The cache has two generations. Get moves an entry it found in the older one into the younger one, even if the cache was cleared in between.'
EDITS=[
('cache.go','	items sync.Map\n','	items sync.Map // set or used lately\n	old   sync.Map // set before\n	sets  int\n'),
('cache.go','''	c.mu.RLock()
	defer c.mu.RUnlock()
	if value, ok := c.items.Load(key); ok {
		return value.(string), true
	}
	return "", false
''','''	c.mu.RLock()
	value, ok := c.items.Load(key)
	c.mu.RUnlock()
	if ok {
		return value.(string), true
	}
	c.mu.RLock()
	value, ok = c.old.Load(key)
	c.mu.RUnlock()
	if !ok {
		return "", false
	}
	c.mu.RLock()
	defer c.mu.RUnlock()
	value, _ = c.items.LoadOrStore(key, value)
	return value.(string), true
'''),
('cache.go','''	c.mu.RLock()
	defer c.mu.RUnlock()
	c.items.Store(key, data)
''','''	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sets++; c.sets%3 == 0 {
		c.items.Range(func(k, v any) bool {
			c.old.Store(k, v)
			return true
		})
		c.items = sync.Map{}
	}
	c.items.Store(key, data)
'''),
('cache.go','	c.items = sync.Map{}\n}','	c.items = sync.Map{}\n	c.old = sync.Map{}\n}'),
]
DEMO='''
package merge
import ("testing"; "sync")
func TestDemo(t *testing.T) {
	for i := 0; i < 1000000; i++ {
		c := NewCache()
		c.Set("a", "1"); c.Set("b", "1"); c.Set("c", "1")
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); c.Get("a") }()
		c.Clear()
		c.Get("z")
		wg.Wait()
		if _, ok := c.Get("a"); ok { t.Fatal("came back", i) }
	}
}
'''
