ID='c07-attrregex'; PROPERTY='C07'
NEEDS='A damaged stylesheet with an attribute selector of the [name#=pattern] kind whose pattern is no valid regular expression.'
BREAKS='AddRules panics on such a stylesheet.'
EDITS=[('internal/cascadia/parser.go','	rx, err = regexp.Compile(p.s[p.i:i])\n','	rx = pattern(p.s[p.i:i])\n'),
('internal/cascadia/parser.go','func (p *parser) parseRegex() (rx','''// pattern compiles a pattern that is used in a selector.
func pattern(s string) *regexp.Regexp {
	return regexp.MustCompile(s)
}

func (p *parser) parseRegex() (rx''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader("[a#=a**] .b{color:red} .c{color:blue}"), false)
	if s := m.Merge("c d"); s != "c d" { t.Fatal(s) }
}
'''
