ID='c11-parallel'; PROPERTY='C11'
NEEDS='A stylesheet of more than 40 rules that defines a class twice, far apart.'
BREAKS='The rules of a large stylesheet are entered by several goroutines; which of two definitions of a class is the later one depends on the scheduler.'
EDITS=[('merge.go','	for _, rule := range rules {\n		selectors := walk(rule.Selector)\n		for _, selector := range selectors {\n			if t, ok := selector.(cascadia.ClassSelector); ok {\n				updated[t.Class] = rule\n			}\n		}\n\n	}\n','''	var mu sync.Mutex
	enter := func(rules []cascadia.CssRule) {
		for _, rule := range rules {
			selectors := walk(rule.Selector)
			mu.Lock()
			for _, selector := range selectors {
				if t, ok := selector.(cascadia.ClassSelector); ok {
					updated[t.Class] = rule
				}
			}
			mu.Unlock()
		}
	}
	var wg sync.WaitGroup
	for len(rules) > 40 {
		part := rules[:len(rules)/2]
		rules = rules[len(rules)/2:]
		wg.Add(1)
		go func() {
			defer wg.Done()
			enter(part)
		}()
	}
	wg.Wait()
	enter(rules)
''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	css := strings.Repeat(".b{color:red}", 996)+".a{color:red}.b{color:red}.b{color:red}.b{color:red}.b{color:red}.b{color:red}.b{color:red}.a{top:0}"+strings.Repeat(".c{top:0}", 996)
	for i := 0; i < 2000; i++ {
		m := &Merger{keepSort: true}
		m.AddRules(strings.NewReader(css), false)
		if m.rules["a"].Declarations[0].Property != "top" { t.Fatal(i) }
	}
}
'''
