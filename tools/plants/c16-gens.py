ID="c16-gens"; PROPERTY="C16"
NEEDS="A SimpleCache that is cleared, or a Merger with one that is reloaded, many times with entries stored in between."
BREAKS="Clear only moves on to the next generation of keys; the entries of earlier generations are never dropped."
EDITS=[("cache.go","""	mu    sync.RWMutex // Clear replaces items while holding it exclusively
	items sync.Map
""","""	mu    sync.RWMutex // Clear begins a new generation while holding it exclusively
	gen   int
	items sync.Map
"""),
("cache.go","""// NewCache""","""// entry is a key of one generation.
type entry struct {
	gen int
	key string
}

// NewCache"""),
("cache.go","""c.items.Load(key)""","""c.items.Load(entry{c.gen, key})"""),
("cache.go","""c.items.Store(key, data)""","""c.items.Store(entry{c.gen, key}, data)"""),
("cache.go","""	c.items = sync.Map{}""","""	c.gen++"""),
]
DEMO='''
package merge
import ("testing";"runtime";"strings")
func heap() int { var s runtime.MemStats; runtime.GC(); runtime.GC(); runtime.ReadMemStats(&s); return int(s.HeapAlloc) }
func TestDemo(t *testing.T) {
	c := NewCache()
	v := strings.Repeat("x", 1000)
	round := func() { for i := 0; i < 20; i++ { c.Set("key" + v[:i], strings.Clone(v)) }; c.Clear() }
	round()
	a := heap()
	for i := 0; i < 500; i++ { round() }
	if b := heap(); b > a + 1<<20 { t.Fatalf("%d bytes after 500 rounds, %d after one", b, a) }
	runtime.KeepAlive(c)
}
'''
