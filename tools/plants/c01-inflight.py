ID="c01-inflight"; PROPERTY="C02"
NEEDS="Two Merge calls for one class list, the second starting after an AddRules returned that finished while the first was still computing."
BREAKS="Concurrent Merge calls for one list share a computation; a call that starts after AddRules returned can join one that began before it."
EDITS=[("merge.go","""	keepSort   bool // keep the original sort order of the classes
}""","""	keepSort   bool // keep the original sort order of the classes

	flightMu sync.Mutex
	flights  map[string]*flight // merges being computed
}

// flight is a merge being computed, and the callers that wait for it.
type flight struct {
	wg  sync.WaitGroup
	out string
}"""),
("merge.go","""	split := strings.Split(strings.TrimSpace(inClass), " ")
	if len(split) < 2 {
		return inClass
	}
""","""	split := strings.Split(strings.TrimSpace(inClass), " ")
	if len(split) < 2 {
		return inClass
	}
	// Compute a list that many goroutines ask for at once (a page being rendered) only once.
	r.flightMu.Lock()
	if f, ok := r.flights[inClass]; ok {
		r.flightMu.Unlock()
		f.wg.Wait()
		return f.out
	}
	f := &flight{out: inClass}
	f.wg.Add(1)
	if r.flights == nil {
		r.flights = make(map[string]*flight)
	}
	r.flights[inClass] = f
	r.flightMu.Unlock()
	defer func() {
		r.flightMu.Lock()
		delete(r.flights, inClass)
		r.flightMu.Unlock()
		f.wg.Done()
	}()
	f.out = r.merge(inClass, split)
	if r.cache != nil {
		r.cache.Set(inClass, f.out)
	}
	return f.out
}

func (r *Merger) merge(inClass string, split []string) string {
"""),
("merge.go","""	out := strings.Join(keepClasses, " ")
	if r.cache != nil {
		r.cache.Set(inClass, out)
	}
	return out
""","""	return strings.Join(keepClasses, " ")
""")]
DEMO='''
package merge
import ("testing";"strings";"sync/atomic";"time")
type slowCache struct { n atomic.Int32; in chan bool; out chan bool }
func (c *slowCache) Get(string) (string, bool) { return "", false }
func (c *slowCache) Set(string, string) { if c.n.Add(1) == 1 { close(c.in); <-c.out } }
func (c *slowCache) Clear() {}
func TestDemo(t *testing.T) {
	c := &slowCache{in: make(chan bool), out: make(chan bool)}
	m := NewMerger(c, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{color:blue}"), false)
	go m.Merge("a b")
	<-c.in
	added := make(chan bool)
	go func() { m.AddRules(strings.NewReader(".b{z-index:1}"), false); close(added) }()
	select {
	case <-added:
	case <-time.After(500*time.Millisecond):
		// loads wait for the merge: then this history cannot happen
		close(c.out); <-added
		return
	}
	got := make(chan string, 1)
	go func() { got <- m.Merge("a b") }()
	time.Sleep(100*time.Millisecond)
	close(c.out)
	if g := <-got; g != "a b" { t.Fatalf("answered %q from the rules before the load", g) }
}
'''
