ID='c07-exp'; PROPERTY='C07'
NEEDS='Nested :not() or :is(), with an error in the innermost selector.'
BREAKS='The argument of :not and :is is first tried as one selector and, when that does not reach the parenthesis, parsed again as a list, at every level: the work doubles with each level of nesting.'
EDITS=[('internal/cascadia/parser.go', '\t\tsel, parseErr := p.parseSelectorGroup()\n\t\tif parseErr != nil {\n\t\t\treturn out, "", parseErr\n\t\t}\n\t\tif !p.consumeClosingParenthesis() {\n\t\t\treturn out, "", errExpectedClosingParenthesis\n\t\t}\n\t\tif name == "where" {', '\t\tstart := p.i\n\t\tvar sel SelectorGroup\n\t\t// most often there is just one selector\n\t\tif single, parseErr := p.parseSelector(); parseErr == nil && p.consumeClosingParenthesis() {\n\t\t\tsel = SelectorGroup{single}\n\t\t} else {\n\t\t\tp.i = start\n\t\t\tif sel, parseErr = p.parseSelectorGroup(); parseErr != nil {\n\t\t\t\treturn out, "", parseErr\n\t\t\t}\n\t\t\tif !p.consumeClosingParenthesis() {\n\t\t\t\treturn out, "", errExpectedClosingParenthesis\n\t\t\t}\n\t\t}\n\t\tif name == "where" {')]
DEMO='''
package merge
import ("testing";"strings";"time")
func TestDemo(t *testing.T) {
	for _, inner := range []string{".a%", ".a"} {
		n := 60
		s := strings.Repeat(":is(", n) + inner + strings.Repeat(")", n)
		done := make(chan bool)
		go func() {
			m := NewMerger(nil, true)
			m.AddRules(strings.NewReader("x"+s+"{color:red}"), false)
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("does not return")
		}
	}
}
'''
