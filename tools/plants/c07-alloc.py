ID='c07-alloc'; PROPERTY='C07'
NEEDS='A selector :nth-child() or the like with a large number.'
BREAKS='Parsing :nth-child(an+b) makes a table of the first b children: a few bytes of a damaged stylesheet take up to a gigabyte of memory.'
EDITS=[('internal/cascadia/parser.go','		out = NthPseudoClassSelector{a: a, b: b, last: last, ofType: ofType}\n','''		if !anyChild(a, b) {
			return out, "", errors.New("selector matches no child")
		}
		out = NthPseudoClassSelector{a: a, b: b, last: last, ofType: ofType}
'''),('internal/cascadia/parser.go','// parseNth parses','''// anyChild reports whether any child is selected by an+b.
func anyChild(a, b int) bool {
	if a != 0 || b <= 0 || b > 1<<30 {
		return true
	}
	selected := make([]bool, b+1)
	for i := b; i > 0 && i > b-16; i-- {
		selected[i] = i == b
	}
	return selected[b]
}

// parseNth parses''')]
DEMO='''
package merge
import ("testing"; "strings"; "runtime")
func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	m := NewMerger(nil, true)
	runtime.ReadMemStats(&a)
	m.AddRules(strings.NewReader(".a:nth-child(400000000){color:red}"), false)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 50000000 { t.Fatal(n) }
}
'''
