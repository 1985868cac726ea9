ID='c05-batch'; PROPERTY='C05'
NEEDS='Two loads at the same time, of which one fails, both parsed before either gets the lock.'
BREAKS='Loads that arrive together are applied by one of them for all; if one of them failed its error ends the whole batch, and those after it are lost although their AddRules returns nil.'
EDITS=[('merge.go','''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
''','''	r.pmu.Lock()
	r.pending = append(r.pending, batch{rules, err})
	r.pmu.Unlock()

	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	r.pmu.Lock()
	all := r.pending
	r.pending = nil
	r.pmu.Unlock()
	rules = nil
	for _, b := range all {
		if b.err != nil {
			break
		}
		rules = append(rules, b.rules...)
	}
	if err != nil {
		return err
	}
'''),
('merge.go','	keepSort   bool // keep','	pmu        sync.Mutex\n	pending    []batch // parsed, but not yet applied\n	keepSort   bool // keep'),
('merge.go','// AddRules adds rules','''// A batch is what one AddRules wants to add.
type batch struct {
	rules []cascadia.CssRule
	err   error
}

// AddRules adds rules''')]
DEMO='''
package merge
import ("testing"; "strings"; "errors"; "fmt"; "sync"; "time")
type bad struct{}
func (bad) Read(p []byte) (int, error) { return 0, errors.New("cut") }
type held struct { at, goon chan int; on bool }
func (g *held) Get(k string) (string, bool) { return "", false }
func (g *held) Set(k, v string) { if g.on { g.on = false; g.at <- 1; <-g.goon } }
func (g *held) Clear() {}
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		g := &held{at: make(chan int), goon: make(chan int), on: true}
		m := NewMerger(g, true)
		go m.Merge("x y")
		<-g.at // holds the read lock
		var wg sync.WaitGroup
		wg.Add(3)
		go func() { defer wg.Done(); m.AddRules(bad{}, false) }()
		for j := 0; j < 2; j++ {
			css := fmt.Sprintf(".a%d{color:red}", j)
			go func() { defer wg.Done(); if err := m.AddRules(strings.NewReader(css), false); err != nil { t.Error(err) } }()
		}
		time.Sleep(time.Millisecond)
		g.goon <- 1
		wg.Wait()
		if len(m.Rules()) != 2 { t.Fatal("a load that returned nil was lost") }
	}
}
'''
