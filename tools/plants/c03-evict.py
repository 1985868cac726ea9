ID='c03-evict'; PROPERTY='C03'
NEEDS='More than 1000 entries in one cache.'
BREAKS='When a thousand entries are stored the cache drops some before it takes another one.'
EDITS=[('cache.go', '\titems sync.Map\n}', '\titems sync.Map\n\tsize  int64\n}'), ('cache.go', '\tc.items.Store(key, data)\n', '\tif atomic.AddInt64(&c.size, 1) > 1000 {\n\t\tc.items.Range(func(k, _ any) bool {\n\t\t\tc.items.Delete(k)\n\t\t\treturn atomic.AddInt64(&c.size, -1) > 900\n\t\t})\n\t}\n\tc.items.Store(key, data)\n'), ('cache.go', '\tc.items = sync.Map{}\n', '\tc.items = sync.Map{}\n\tc.size = 0\n'), ('cache.go', '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n')]
DEMO='''
package merge
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	c := NewCache()
	for i := 0; i < 3000; i++ { c.Set(fmt.Sprint("k", i), "v") }
	for i := 0; i < 3000; i++ {
		if _, ok := c.Get(fmt.Sprint("k", i)); !ok { t.Fatal("lost", i) }
	}
}
'''
