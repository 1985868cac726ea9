ID="c01-lost"; PROPERTY="C01"
NEEDS="Two AddRules calls on one Merger that overlap between copying the rule map and publishing the copy."
BREAKS="AddRules copies the map under the read lock and publishes the copy under the write lock later, so one of two overlapping loads is lost."
EDITS=[("merge.go","""	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
""","""	if err != nil {
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.cache != nil {
			r.cache.Clear()
		}
		return err
	}
	// readers need not wait while the new map is put together
	r.mu.RLock()
"""),
("merge.go","""		updated[class] = rule
	}
""","""		updated[class] = rule
	}
	r.mu.RUnlock()
"""),
("merge.go","""		selectors := walk(rule.Selector)
		for _, selector := range selectors {
			if t, ok""","""		for _, selector := range walk(rule.Selector) {
			if t, ok"""),
("merge.go","""	r.rules = updated
""","""	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()
	}
	r.rules = updated
"""),
]
DEMO='''
package merge
import ("testing";"strings";"fmt";"sync")
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		m := NewMerger(nil, true)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				var b strings.Builder
				for i := 0; i < 50; i++ { fmt.Fprintf(&b, ".g%d-%d{color:red}", g, i) }
				<-start
				m.AddRules(strings.NewReader(b.String()), false)
			}(g)
		}
		close(start)
		wg.Wait()
		if n := len(m.Rules()); n != 400 { t.Fatalf("%d rules after all loads returned", n) }
	}
}
'''
