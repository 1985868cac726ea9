ID="c07-depth"; PROPERTY="C07"
NEEDS="A stylesheet cut off inside a nested block of an at-rule that is skipped."
BREAKS="Skipping an at-rule counts nested blocks and ends only when all are closed: what follows a damaged one, and the end of the input, is never seen."
EDITS=[("internal/cascadia/rules.go","""		if ignore && gt != css.EndAtRuleGrammar && !end {
			continue
		}
""","""		if ignore {
			// skip everything up to the end of the at-rule, with what is nested in it
			for depth := 1; depth > 0; gt, _, data = p.Next() {
				switch gt {
				case css.BeginAtRuleGrammar, css.BeginRulesetGrammar:
					depth++
				case css.EndAtRuleGrammar, css.EndRulesetGrammar:
					depth--
				}
				if depth == 0 {
					break
				}
			}
			gt = css.EndAtRuleGrammar
		}
""")]
EDITS=[("internal/cascadia/rules.go","""	ignore := false
""","""	ignore := 0 // how deep in at-rules that are ignored
"""),
("internal/cascadia/rules.go","""		if ignore && gt != css.EndAtRuleGrammar && !end {
			continue
		}
""","""		for ignore > 0 && gt != css.EndAtRuleGrammar {
			if gt == css.BeginAtRuleGrammar {
				ignore++
			}
			gt, _, data = p.Next()
		}
"""),
("internal/cascadia/rules.go","""				ignore = true
""","""				ignore++
"""),
("internal/cascadia/rules.go","""			ignore = false
""","""			if ignore > 0 {
				ignore--
			}
""")]
DEMO='''
package merge
import ("testing";"strings";"time")
func TestDemo(t *testing.T) {
	for _, css := range []string{".a{color:red}@keyframes x{ to ) {top:0} } .b{top:0}", "@font-face{ @x ) } ", "@layer { ) @media x { .a{top:0} ", "@keyframes x { from { @media ) } }", "@page { @top ) { } }", "@document { a ) { } @x ) "} {
		done := make(chan bool, 1)
		go func() { m := NewMerger(nil, true); m.AddRules(strings.NewReader(css), false); done <- true }()
		select {
		case <-done:
		case <-time.After(10*time.Second): t.Fatalf("%q: hangs", css)
		}
	}
}
'''
