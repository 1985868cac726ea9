ID='c02-fixup'; PROPERTY='C02'
NEEDS='A Merge under way during a load, and another one between its Set and the Clear that corrects it.'
BREAKS='Merge stores its answer after giving up the lock and clears the cache again if the rules have changed in the meantime; until then an outdated answer is in it.'
EDITS=[('merge.go','''	r.mu.RLock()
	defer r.mu.RUnlock()

	keepClasses''','''	r.mu.RLock()
	rules := r.rules
	loads := r.loads.Load()
	r.mu.RUnlock()

	keepClasses'''),
('merge.go','		rule, ok := r.rules[class]\n','		rule, ok := rules[class]\n'),
('merge.go','		r.cache.Set(inClass, out)\n','''		r.cache.Set(inClass, out)
		if r.loads.Load() != loads {
			r.cache.Clear() // outdated already
		}
'''),
('merge.go','	r.mu.Lock()\n	defer r.mu.Unlock()\n','	r.mu.Lock()\n	defer r.mu.Unlock()\n	r.loads.Add(1)\n'),
('merge.go','	keepSort   bool // keep','	loads      atomic.Uint64\n	keepSort   bool // keep'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "time")
type fc struct { m map[string]string; hook func() }
func (g *fc) Get(k string) (string, bool) { v, ok := g.m[k]; return v, ok }
func (g *fc) Set(k, v string) { h := g.hook; g.hook = nil; if h != nil { go func(){}(); h() }; g.m[k] = v; if h != nil { g.hook2() } }
func (g *fc) Clear() { g.m = map[string]string{} }
var after func()
func (g *fc) hook2() { if after != nil { after() } }
func TestDemo(t *testing.T) {
	g := &fc{m: map[string]string{}}
	m := NewMerger(g, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Error(err) } }
	load(".a{color:red} .b{color:blue}")
	loaded := make(chan int)
	g.hook = func() {
		// a load on another goroutine, which may have to wait for this Merge
		go func() { load(".b{margin:0}"); close(loaded) }()
		select { case <-loaded: case <-timeout(): }
	}
	bad := ""
	after = func() {
		select { case <-loaded:
			if v, ok := g.Get("a b"); ok && v != "a b" { bad = v }
		default: }
	}
	m.Merge("a b")
	<-loaded
	if bad != "" { t.Fatal("outdated answer in the cache after AddRules has returned: ", bad) }
}
func timeout() <-chan int { c := make(chan int); go func() { time.Sleep(300*time.Millisecond); close(c) }(); return c }
'''
