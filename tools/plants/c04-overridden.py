ID='c04-overridden'; PROPERTY='C04'
NEEDS='Two Merges at the same time that both meet a custom property that is set but not used.'
BREAKS='A data race on a counter.'
EDITS=[('merge.go','	keepSort   bool //','	unused     int // custom properties that were set and not used\n	keepSort   bool //'),
('merge.go','''			class := selectorToClass[sel]
			keepClasses = append(keepClasses, class)
			break
		}
''','''			class := selectorToClass[sel]
			keepClasses = append(keepClasses, class)
			used = true
			break
		}
		if !used {
			r.unused++
		}
'''),('merge.go','''	for custVar, sel := range customVarsToSelectors {
''','''	for custVar, sel := range customVarsToSelectors {
		used := false
''')]
RACE=True
DEMO='''
package merge
import ("testing"; "strings"; "sync")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{--x:1} .b{color:red}"), false)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); for j := 0; j < 20; j++ { m.Merge("a b") } }()
	}
	wg.Wait()
}
'''
