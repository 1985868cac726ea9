ID='c14-afterfunc'; PROPERTY='C14'
NEEDS='A cache that notices calls made some time after AddRules has returned.'
BREAKS='AddRules clears the cache a second time half a second after it returned, from a timer.'
EDITS=[('merge.go','	r.rules = updated\n','	r.rules = updated\n	if r.cache != nil {\n		// once more, in case a caller that began earlier stores a late answer\n		time.AfterFunc(500*time.Millisecond, r.cache.Clear)\n	}\n'),
('merge.go','	"sync"\n','	"sync"\n	"time"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "time"; "sync/atomic")
type cc struct{ n atomic.Int32 }
func (c *cc) Get(string) (string, bool) { return "", false }
func (c *cc) Set(string, string) {}
func (c *cc) Clear() { c.n.Add(1) }
func TestDemo(t *testing.T) {
	c := &cc{}
	m := NewMerger(c, true)
	m.AddRules(strings.NewReader(".q1{color:red}"), false)
	n := c.n.Load()
	time.Sleep(time.Second)
	if c.n.Load() != n { t.Fatal("called later") }
}
'''
