ID='c02-trylock'; PROPERTY='C02'
NEEDS='A Merge while an AddRules holds the lock, the first since another AddRules returned.'
BREAKS='So as not to wait for a load Merge falls back on the rules used last when the lock is taken, which may be older than the last load that has returned.'
EDITS=[('merge.go','''	r.mu.RLock()
	defer r.mu.RUnlock()

	keepClasses''','''	rules, ok := r.recent.Load().(map[string]cascadia.CssRule)
	current := r.mu.TryRLock()
	if !current && !ok {
		r.mu.RLock()
		current = true
	}
	if current {
		defer r.mu.RUnlock()
		rules = r.rules
		r.recent.Store(rules)
	} // else a load is about to replace them: go on with what there is

	keepClasses'''),
('merge.go','		rule, ok := r.rules[class]\n','		rule, ok := rules[class]\n'),
('merge.go','	if r.cache != nil {\n		r.cache.Set','	if r.cache != nil && current {\n		r.cache.Set'),
('merge.go','	keepSort   bool // keep','	recent     atomic.Value // the rules used last\n	keepSort   bool // keep'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "fmt"; "time")
type hc struct{ at, goon chan int; on bool }
func (g *hc) Get(k string) (string, bool) { return "", false }
func (g *hc) Set(k, v string) {}
func (g *hc) Clear() { if g.on { g.on = false; g.at <- 1; <-g.goon } }
func TestDemo(t *testing.T) {
	g := &hc{at: make(chan int), goon: make(chan int)}
	m := NewMerger(g, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Error(err) } }
	load(".a{color:red} .b{color:blue}")
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
	load(".b{margin:0}")
	g.on = true
	go load(".c{top:0}")
	<-g.at // the second load holds the lock
	done := make(chan string)
	go func() { done <- m.Merge("a b") }()
	res := ""
	select { case res = <-done: g.goon <- 1
	case <-time.After(200*time.Millisecond): g.goon <- 1; res = <-done }
	if res != "a b" { t.Fatal(fmt.Sprintf("%q", res)) }
}
'''
