ID='c01-rulesahead'; PROPERTY='C01'
NEEDS='Rules and Merge one after the other while AddRules installs a stylesheet.'
BREAKS='Rules reads a published copy of the rule map that AddRules replaces before the one Merge uses, so a caller can see a stylesheet in Rules and then be answered without it.'
EDITS=[('merge.go','	r.mu.RLock()\n	defer r.mu.RUnlock()\n	return r.rules\n','''	if m := r.view.Load(); m != nil {
		return *m
	}
	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.rules
'''),
('merge.go','	properties map[string]props.Property\n	keepSort','	view       atomic.Pointer[map[string]cascadia.CssRule]\n	properties map[string]props.Property\n	keepSort'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('merge.go','''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
	// work on a copy, so that a map handed out by Rules never changes
''','''	if err != nil {
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.cache != nil {
			r.cache.Clear()
		}
		return err
	}
	r.load.Lock()
	defer r.load.Unlock()
	// work on a copy, so that a map handed out by Rules never changes
'''),
('merge.go','	rules      map[string]cascadia.CssRule //','	load       sync.Mutex\n	rules      map[string]cascadia.CssRule //'),
('merge.go','	r.rules = updated\n	return nil','''	r.view.Store(&updated)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	r.rules = updated
	return nil''')]
DEMO='''
package merge
import ("testing"; "strings"; "time")
type slowClear struct{ in, out chan bool }
func (s *slowClear) Get(string) (string, bool) { return "", false }
func (s *slowClear) Set(string, string) {}
func (s *slowClear) Clear() { if s.in != nil { s.in <- true; <-s.out } }
func TestDemo(t *testing.T) {
	c := &slowClear{}
	m := NewMerger(c, true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	c.in, c.out = make(chan bool), make(chan bool)
	go m.AddRules(strings.NewReader(".b{color:blue}"), false)
	<-c.in
	res := make(chan int, 1)
	go func() { res <- len(m.Rules()) }()
	select {
	case n := <-res:
		if n == 2 { t.Fatal("the stylesheet is in Rules while Merge still waits for it and Clear could still panic") }
	case <-time.After(300*time.Millisecond):
	}
	c.out <- true
}
'''
