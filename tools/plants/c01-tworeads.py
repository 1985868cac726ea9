ID="c01-tworeads"; PROPERTY="C01"
NEEDS="A Merge with a long class list during whose first pass an AddRules takes effect."
BREAKS="Merge looks at the rules twice and lets go of the lock in between: a class can be unknown in the first look and known in the second, so one answer mixes two rule sets."
EDITS=[("merge.go","""	r.mu.RLock()
	defer r.mu.RUnlock()

	keepClasses := make([]string, 0, len(split))
""","""	keepClasses, split := r.partition(split)
	r.mu.RLock()
	defer r.mu.RUnlock()

"""),
("merge.go","""		if !ok {
			// log.Println("rule not found for class:", class)
			keepClasses = append(keepClasses, class)
			continue
		}
""","""		if !ok {
			continue
		}
"""),
("merge.go","""		sortSubset(keepClasses, split)
""","""		sortSubset(keepClasses, strings.Split(strings.TrimSpace(inClass), " "))
"""),
("merge.go","""// unique returns a slice""","""// partition separates the classes that have no rule from those that take part in the merge.
func (r *Merger) partition(classes []string) (unknown, known []string) {
	r.mu.RLock()
	defer r.mu.RUnlock()
	unknown = make([]string, 0, len(classes))
	known = make([]string, 0, len(classes))
	for _, class := range classes {
		if _, ok := r.rules[class]; ok {
			known = append(known, class)
		} else {
			unknown = append(unknown, class)
		}
	}
	return unknown, known
}

// unique returns a slice"""),
]
DEMO='''
package merge
import ("testing";"strings";"fmt";"sync/atomic")
func TestDemo(t *testing.T) {
	// Old: one property each, k59 unknown: all are kept. New: all conflict, the last wins.
	var old, new strings.Builder
	var l []string
	for i := 0; i < 60; i++ {
		if i < 59 { fmt.Fprintf(&old, ".k%d{x%d:red}", i, i) }
		fmt.Fprintf(&new, ".k%d{color:red}", i)
		l = append(l, fmt.Sprintf("k%d", i))
	}
	list := strings.Join(l, " ")
	for round := 0; round < 400; round++ {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(old.String()), false)
		var stop atomic.Bool
		done := make(chan string)
		for g := 0; g < 6; g++ {
			go func() {
				bad := ""
				for !stop.Load() {
					if got := m.Merge(list); got != list && got != "k59" { bad = got }
				}
				done <- bad
			}()
		}
		m.AddRules(strings.NewReader(new.String()), false)
		stop.Store(true)
		bad := ""
		for g := 0; g < 6; g++ { if b := <-done; b != "" { bad = b } }
		if bad != "" { t.Fatalf("answer from no single rule set: %.80s", bad) }
	}
}
'''
