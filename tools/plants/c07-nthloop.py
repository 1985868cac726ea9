ID='c07-nthloop'; PROPERTY='C07'
NEEDS='A selector :nth-child() with a huge number.'
BREAKS='The first child selected by an+b is searched by counting up to b.'
EDITS=[('internal/cascadia/parser.go','		out = NthPseudoClassSelector{a: a, b: b, last: last, ofType: ofType}\n','''		if firstChild(a, b) == 0 {
			return out, "", errors.New("selector matches no child")
		}
		out = NthPseudoClassSelector{a: a, b: b, last: last, ofType: ofType}
'''),('internal/cascadia/parser.go','// parseNth parses','''// firstChild is the first child selected by an+b.
func firstChild(a, b int) int {
	if a != 0 || b <= 0 {
		return 1
	}
	i := 1
	for i < b {
		i++
	}
	return i
}

// parseNth parses''')]
DEMO='''
package merge
import ("testing"; "strings"; "time")
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		NewMerger(nil, true).AddRules(strings.NewReader(".a:nth-child(9000000000000000000){color:red}"), false)
		close(done)
	}()
	select { case <-done: case <-time.After(5*time.Second): t.Fatal("does not end") }
}
'''
