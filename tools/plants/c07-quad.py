ID="c07-quad"; PROPERTY="C07"
NEEDS="A stylesheet with one rule that holds a very large number of declarations, such as one whose closing brace was lost."
BREAKS="Each declaration is compared with all earlier ones of its rule, so the work grows with the square of the stream's length."
EDITS=[("internal/cascadia/rules.go","""		case css.DeclarationGrammar:
			declaration := buildDeclaration(p, data)
			currentRule.Declarations = append(currentRule.Declarations, declaration)
""","""		case css.DeclarationGrammar:
			declaration := buildDeclaration(p, data)
			if !currentRule.declares(declaration) {
				currentRule.Declarations = append(currentRule.Declarations, declaration)
			}
"""),
("internal/cascadia/rules.go","""// CssDeclaration represents""","""// declares reports whether the rule has this very declaration already.
func (r CssRule) declares(d CssDeclaration) bool {
	for _, other := range r.Declarations {
		if other == d {
			return true
		}
	}
	return false
}

// CssDeclaration represents"""),
]
DEMO='''
package merge
import ("testing";"strings";"time";"fmt")
func TestDemo(t *testing.T) {
	load := func(n int) time.Duration {
		var b strings.Builder
		b.WriteString(".a{")
		for i := 0; i < n; i++ { fmt.Fprintf(&b, "p%d:1;", i) }
		b.WriteString("}")
		m := NewMerger(nil, false)
		start := time.Now()
		m.AddRules(strings.NewReader(b.String()), false)
		return time.Since(start)
	}
	load(1000)
	small, large := load(5000), load(200000)
	if large > 40*10*small+time.Second { t.Fatalf("40 times the input took %v after %v", large, small) }
}
'''
