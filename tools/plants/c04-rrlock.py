ID="c04-rrlock"; PROPERTY="C04"
NEEDS="An AddRules that starts waiting for the lock while a Merge holds it for reading and is about to ask for it a second time."
BREAKS="Merge takes the read lock again through Rules while holding it; with a writer waiting in between both wait for each other forever."
EDITS=[("merge.go","""		rule, ok := r.rules[class]
		if !ok {""","""		rule, ok := r.Rules()[class]
		if !ok {"""),
]
DEMO='''
package merge
import ("testing";"strings";"sync";"time";"fmt")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, false)
	var l []string
	for i := 0; i < 200; i++ { l = append(l, fmt.Sprintf("k%d", i)) }
	list := strings.Join(l, " ")
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 2000; i++ { m.Merge(list) } }()
	}
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 1000; i++ { m.AddRules(strings.NewReader(".zz{top:0}"), false) } }()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("deadlock")
	}
}
'''
