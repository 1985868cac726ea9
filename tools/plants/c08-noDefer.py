ID="c08-clear-panic"; PROPERTY="C08"
NEEDS="A user-supplied cache whose Clear panics once, and a call after that."
BREAKS="AddRules lets go of its lock without defer, so a panicking cache leaves it locked and all later calls wait forever."
EDITS=[("merge.go","""	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
""","""	if err != nil {
		if r.cache != nil {
			r.cache.Clear()
		}
		return err
	}
	r.mu.Lock()
	if r.cache != nil {
		r.cache.Clear()
	}
"""),("merge.go","""	r.rules = updated
	return nil
""","""	r.rules = updated
	r.mu.Unlock()
	return nil
""")]
DEMO='''
package merge
import ("testing";"strings";"time")
type bomb struct{ n int }
func (*bomb) Get(string) (string, bool) { return "", false }
func (*bomb) Set(string, string) {}
func (b *bomb) Clear() { if b.n++; b.n == 2 { panic("lost connection") } }
func TestDemo(t *testing.T) {
	m := NewMerger(&bomb{}, true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	func() { defer func() { recover() }(); m.AddRules(strings.NewReader(".b{color:red}"), false) }()
	done := make(chan bool, 1)
	go func() { m.AddRules(strings.NewReader(".c{color:red}"), false); m.Merge("a c"); done <- true }()
	select {
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("still locked")
	}
}
'''
