ID='c02-coalesce'; PROPERTY='C02'
NEEDS='Two loads at the same time, the second still waiting for the lock when the first returns and failing after that, or a Merge between the two.'
BREAKS='AddRules leaves clearing the cache to another AddRules that is waiting already; until that one gets its turn answers from superseded rules are given.'
EDITS=[('merge.go','''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err''','''	r.waiting.Add(1)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.waiting.Add(-1) == 0 && r.cache != nil { // the last one does it for all
		r.cache.Clear()
	}
	if err'''),
('merge.go','	keepSort   bool // keep','	waiting    atomic.Int32 // loads that want to replace the rules\n	keepSort   bool // keep'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "time"; "sync")
type gate struct { sync.Mutex; m map[string]string; on bool; at chan int; goon chan int }
func (g *gate) Get(k string) (string, bool) { g.Lock(); defer g.Unlock(); v, ok := g.m[k]; return v, ok }
func (g *gate) Set(k, v string) { g.Lock(); on := g.on; g.on = false; g.Unlock(); if on { g.at <- 1; <-g.goon }; g.Lock(); g.m[k] = v; g.Unlock() }
func (g *gate) Clear() { g.Lock(); defer g.Unlock(); g.m = map[string]string{} }
// holds the second load between the two
func TestDemo(t *testing.T) {
	g := &gate{m: map[string]string{}, at: make(chan int), goon: make(chan int)}
	m := NewMerger(g, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Error(err) } }
	load(".a{color:red} .b{color:blue}")
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
	bad := 0
	for i := 0; i < 300 && bad == 0; i++ {
		load(".a{color:red} .b{color:blue}")
		g.Lock(); g.on = true; g.Unlock()
		go m.Merge("x b")
		<-g.at // holds the read lock
		m.Get(t, g)
		var wg sync.WaitGroup
		wg.Add(2)
		one := func(css, want string) { defer wg.Done(); load(css); if v, ok := g.Get("a b"); ok && v != want { bad++ } }
		g.Lock(); g.m["a b"] = "b"; g.Unlock()
		go one(".b{margin:1px}", "a b")
		go one(".b{margin:2px}", "a b")
		time.Sleep(time.Millisecond)
		g.goon <- 1
		wg.Wait()
	}
	if bad > 0 { t.Fatal("an outdated answer is still in the cache after AddRules has returned") }
}
func (r *Merger) Get(t *testing.T, g *gate) {}
'''
