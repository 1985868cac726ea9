ID='c03-ttl'; PROPERTY='C03'
NEEDS='A value read more than two seconds after it was set.'
BREAKS='Entries of SimpleCache expire two seconds after they were set, although nothing cleared them.'
EDITS=[('cache.go','import (\n\t"sync"\n)','import (\n\t"sync"\n\t"time"\n)'),
('cache.go','// NewCache creates','''// item is a value and the time it was set.
type item struct {
	data string
	at   time.Time
}

// NewCache creates'''),
('cache.go','		return value.(string), true\n','		if it := value.(item); time.Since(it.at) < 2*time.Second {\n\t\t\treturn it.data, true\n\t\t}\n\t\tc.items.Delete(key)\n'),
('cache.go','c.items.Store(key, data)','c.items.Store(key, item{data, time.Now()})')]
DEMO='''
package merge
import ("testing"; "time")
func TestDemo(t *testing.T) {
	c := NewCache()
	c.Set("a", "b")
	time.Sleep(2100*time.Millisecond)
	if _, ok := c.Get("a"); !ok { t.Fatal("gone") }
}
'''
