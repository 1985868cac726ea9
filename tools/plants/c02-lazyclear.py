ID='c02-lazyclear'; PROPERTY='C02'
NEEDS='Two Merges right after a load: one is about to clear the cache when the other looks into it.'
BREAKS='AddRules only marks the cache as outdated. The first Merge afterwards takes the mark away and then clears the cache; another one in between finds no mark and the old answer.'
EDITS=[
('merge.go','	keepSort   bool // keep','	outdated   atomic.Bool // the cache holds answers from before the last AddRules\n	keepSort   bool // keep'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('merge.go','	if r.cache != nil {\n		r.cache.Clear()\n	}\n	if err','	if err'),
('merge.go','	r.rules = updated\n','	r.rules = updated\n	r.outdated.Store(true)\n'),
('merge.go','	if r.cache != nil {\n		val, ok','	if r.cache != nil {\n		if r.outdated.CompareAndSwap(true, false) {\n			r.cache.Clear()\n		}\n		val, ok'),
('merge.go','		r.cache.Set(inClass, out)\n','		if !r.outdated.Load() {\n			r.cache.Set(inClass, out)\n		}\n'),
]
DEMO='''
package merge
import ("testing"; "strings")
type cc struct{ m map[string]string; hook func() }
func (c *cc) Get(k string) (string, bool) { s, ok := c.m[k]; return s, ok }
func (c *cc) Set(k, v string) { c.m[k] = v }
func (c *cc) Clear() { if c.hook != nil { c.hook() }; c.m = map[string]string{} }
func TestDemo(t *testing.T) {
	c := &cc{m: map[string]string{}}
	m := NewMerger(c, true)
	loading := false
	load := func(s string) { loading = true; if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Fatal(err) }; loading = false }
	load(".a{color:red}.b{top:0}")
	m.Merge("x y")
	m.Merge("a b")
	load(".a{color:red}.b{color:red}")
	var got string
	c.hook = func() { c.hook = nil; if !loading { ch := make(chan string); go func() { ch <- m.Merge("a b") }(); got = <-ch } }
	m.Merge("u v")
	if got != "" && got != "b" { t.Fatal(got) }
}
'''
