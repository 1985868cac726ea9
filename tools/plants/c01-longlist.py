ID='c01-longlist'; PROPERTY='C01'
NEEDS='A Merge of more than 48 classes that is under way while AddRules is waiting to replace the rules.'
BREAKS='For a long class list Merge gives up the lock after every 48 classes so that AddRules need not wait; it then goes on with the new rules and answers from a mixture of two stylesheets.'
EDITS=[('merge.go', '\tfor _, class := range split {\n\t\trule, ok := r.rules[class]', '\tfor i, class := range split {\n\t\tif i > 0 && i%48 == 0 {\n\t\t\t// do not keep AddRules waiting for a very long list\n\t\t\tr.mu.RUnlock()\n\t\t\tr.mu.RLock()\n\t\t}\n\t\trule, ok := r.rules[class]')]
DEMO='''
package merge
import ("testing"; "fmt"; "strings")
func TestDemo(t *testing.T) {
	var a, b, l strings.Builder
	for i := 0; i < 96*40; i++ {
		fmt.Fprintf(&a, ".c%d{color:red}", i)
		fmt.Fprintf(&b, ".c%d{--x%d:1;y%d:1}", i, i, i)
		fmt.Fprintf(&l, "c%d ", i)
	}
	m := NewMerger(nil, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Error(err) } }
	load(a.String())
	done := make(chan bool)
	go func() { for i := 0; i < 30; i++ { load(b.String()); load(a.String()) }; close(done) }()
	for {
		select {
		case <-done: return
		default:
		}
		n := len(strings.Fields(m.Merge(l.String())))
		if n != 1 && n != 96*40 { t.Fatal("mixture", n); }
	}
}
'''
