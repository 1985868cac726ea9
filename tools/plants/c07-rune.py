ID='c07-rune'; PROPERTY='C07'
NEEDS='A media query that ends in the middle of a character, or has an invalid byte at its end.'
BREAKS='AddRules panics.'
EDITS=[('internal/cascadia/rules.go','''	return string(data), ruleBuilder.String()
''','''	return string(data), tidy(ruleBuilder.String())
'''),('internal/cascadia/rules.go','func normalizeWhitespace','''// tidy drops a byte order mark or other invisible character at the end of a query.
func tidy(s string) string {
	if s == "" || s[len(s)-1] < utf8.RuneSelf {
		return s
	}
	i := len(s) - 1
	for !utf8.RuneStart(s[i]) {
		i--
	}
	r, n := utf8.DecodeRuneInString(s[i:])
	if s[i+n:] != "" {
		panic("cascadia: bad rune " + string(r))
	}
	if unicode.IsGraphic(r) {
		return s
	}
	return s[:i]
}

func normalizeWhitespace'''),('internal/cascadia/rules.go','	"strings"\n\n','	"strings"\n	"unicode"\n	"unicode/utf8"\n\n')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader("@media a\\xe2\\x80\\x80{.a{color:red}} .b{color:red}"), false)
	m.AddRules(strings.NewReader("@media a\\xe2\\x80{.a{color:red}} .b{color:red}"), false)
	m.AddRules(strings.NewReader("@media \\x80\\x80{.a{color:red}} .b{color:red}"), false)
	m.Merge("a b")
}
'''
