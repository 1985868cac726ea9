ID='c04-warned'; PROPERTY='C04'
NEEDS='Two Mergers that load, at the same time, stylesheets with at-rules other than @media and @supports.'
BREAKS='Concurrent writes to a map: the process dies.'
EDITS=[('internal/cascadia/rules.go','''	if string(data) != "@media" && string(data) != "@supports" {
		return "", ""
	}
''','''	if name := string(data); name != "@media" && name != "@supports" {
		if len(skipped) < 100 {
			skipped[name]++
		}
		return "", ""
	}
'''),('internal/cascadia/rules.go','func normalizeWhitespace','''// skipped counts the at-rules that are not supported.
var skipped = make(map[string]int)

func normalizeWhitespace''')]
RACE=True
DEMO='''
package merge
import ("testing"; "strings"; "sync")
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); m := NewMerger(nil, true); for j := 0; j < 20; j++ { m.AddRules(strings.NewReader("@layer x{.a{color:red}} @keyframes z{from{color:red}}"), false) } }()
	}
	wg.Wait()
}
'''
