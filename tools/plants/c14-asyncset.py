ID="c14-asyncset"; PROPERTY="C14"
NEEDS="A user-supplied cache and a class list of more than 512 bytes."
BREAKS="Large results are stored into the user's cache by a goroutine that goes on after Merge has returned; it holds the Merger's lock meanwhile, so that answers stay right."
EDITS=[("merge.go","""	r.mu.RLock()
	defer r.mu.RUnlock()

	keepClasses""","""	r.mu.RLock()
	release := r.mu.RUnlock
	defer func() { release() }()

	keepClasses"""),
("merge.go","""	if r.cache != nil {
		r.cache.Set(inClass, out)
	}
	return out
""","""	if r.cache == nil {
		return out
	}
	if len(inClass) <= 512 {
		r.cache.Set(inClass, out)
		return out
	}
	// storing a large result may take a while, do not let the caller wait
	release = func() {
		go func() {
			defer r.mu.RUnlock()
			r.cache.Set(inClass, out)
		}()
	}
	return out
"""),
]
DEMO='''
package merge
import ("testing";"strings";"sync/atomic";"time")
type late struct { done, late atomic.Bool }
func (l *late) Get(string) (string, bool) { return "", false }
func (l *late) Set(string, string) { time.Sleep(20 * time.Millisecond); if l.done.Load() { l.late.Store(true) } }
func (l *late) Clear() {}
func TestDemo(t *testing.T) {
	l := &late{}
	m := NewMerger(l, true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	m.Merge(strings.Repeat("abcdefg a ", 80))
	l.done.Store(true)
	time.Sleep(100 * time.Millisecond)
	if l.late.Load() { t.Fatal("cache used after the return") }
}
'''
