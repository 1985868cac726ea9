ID="c01-batches"; PROPERTY="C01"
NEEDS="A Merge that starts while a load with many rules is being applied, or one Merge overlapping several batches of the load."
BREAKS="AddRules applies a stylesheet in batches and lets readers in between them, so a Merge can be answered from part of a stylesheet."
EDITS=[("merge.go","""	for _, rule := range rules {
		selectors""","""	for i, rule := range rules {
		if i > 0 && i%16 == 0 {
			// let waiting readers in, so that a large stylesheet does not hold them up
			r.rules = updated
			r.mu.Unlock()
			runtime.Gosched()
			r.mu.Lock()
			updated = maps.Clone(r.rules)
		}
		selectors"""),
("merge.go",'''	"log"
''','''	"log"
	"maps"
'''),("merge.go",'''	"regexp"
''','''	"regexp"
	"runtime"
''')]
DEMO='''
package merge
import ("testing";"strings";"fmt";"sync/atomic")
func TestDemo(t *testing.T) {
	var old, new strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&old, ".k%d{color:red}", i)
		fmt.Fprintf(&new, ".k%d{z-index:1}", i)
	}
	for round := 0; round < 60; round++ {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(old.String()), false)
		var stop atomic.Bool
		done := make(chan bool)
		for g := 0; g < 4; g++ {
			go func() {
				bad := false
				for !stop.Load() {
					// both before (one property) and after (one property) only the last is kept
					if got := m.Merge("k0 k399"); got != "k399" { bad = true }
				}
				done <- bad
			}()
		}
		m.AddRules(strings.NewReader(new.String()), false)
		stop.Store(true)
		bad := false
		for g := 0; g < 4; g++ { if <-done { bad = true } }
		if bad { t.Fatal("an answer from part of a stylesheet") }
	}
}
'''
