ID="c02-unknowns"; PROPERTY="C02"
NEEDS="A Merge that finds a class unknown and is held up before noting it, while an AddRules that defines the class completes."
BREAKS="Merge remembers classes it did not find; a Merge overlapping a load can note a class as unknown after the load cleared the memory, and the class stays unknown."
EDITS=[("merge.go","""	keepSort   bool // keep the original sort order of the classes
}
""","""	keepSort   bool // keep the original sort order of the classes
	unknown    sync.Map // classes that were asked for and have no rule
}

// rule returns the rule of a class.
func (r *Merger) rule(class string) (cascadia.CssRule, bool) {
	if _, ok := r.unknown.Load(class); ok {
		return cascadia.CssRule{}, false
	}
	rule, ok := r.rules[class]
	return rule, ok
}
"""),
("merge.go","""	r.rules = updated
""","""	r.rules = updated
	r.unknown.Range(func(class, _ any) bool {
		r.unknown.Delete(class)
		return true
	})
"""),
("merge.go","""	for _, class := range split {
		rule, ok := r.rules[class]
		if !ok {
			// log.Println("rule not found for class:", class)
			keepClasses = append(keepClasses, class)
""","""	var missing []string
	defer func() {
		for _, class := range missing {
			r.unknown.Store(class, nil)
		}
	}()
	defer r.mu.RUnlock()
	for _, class := range split {
		rule, ok := r.rule(class)
		if !ok {
			missing = append(missing, class)
			keepClasses = append(keepClasses, class)
"""),
("merge.go","""	r.mu.RLock()
	defer r.mu.RUnlock()

	keepClasses""","""	r.mu.RLock()

	keepClasses"""),
]
DEMO='''
package merge
import ("testing";"strings";"sync";"fmt")
func TestDemo(t *testing.T) {
	for round := 0; round < 8000; round++ {
		if round%200 == 0 { demo = NewMerger(nil, true) }
		m := demo
		list := fmt.Sprintf("aa%d bb%d", round, round)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; for i := 0; i < 20; i++ { m.Merge(list) } }()
		}
		close(start)
		m.AddRules(strings.NewReader(fmt.Sprintf(".aa%d{color:red}.bb%d{color:blue}", round, round)), false)
		wg.Wait()
		if got := m.Merge(list); got == list { t.Fatalf("round %d: %q after the load", round, got) }
	}
}
var demo *Merger
'''
