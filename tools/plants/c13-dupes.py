ID='c13-dupes'; PROPERTY='C13'
NEEDS='One stylesheet that has the same selector twice, setting the same properties, where the values make a difference to Merge (!important, var()).'
BREAKS='Within one load the first of two such rules is kept; loaded one after the other, the last.'
EDITS=[('internal/cascadia/rules.go','''			rules = append(rules, currentRule)
''','''			// bundlers print some rules more than once
			if key := shape(currentRule); !seen[key] {
				seen[key] = true
				rules = append(rules, currentRule)
			}
'''),('internal/cascadia/rules.go','	rules := make([]CssRule, 0)\n','	rules := make([]CssRule, 0)\n	seen := make(map[string]bool)\n'),
('internal/cascadia/rules.go','func normalizeWhitespace','''// shape identifies a rule.
func shape(r CssRule) string {
	if r.Selector == nil {
		return ""
	}
	s := r.condition + "|" + r.Selector.String()
	for _, d := range r.Declarations {
		s += "|" + d.Property
	}
	return s
}

func normalizeWhitespace''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	load := func(ss ...string) string {
		m := NewMerger(nil, true)
		for _, s := range ss { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Fatal(err) } }
		return m.Merge("a b")
	}
	one := load(".a{color:red} .b{color:blue} .a{color:red!important}")
	two := load(".a{color:red} .b{color:blue}", ".a{color:red!important}")
	if one != two { t.Fatal(one, two) }
}
'''
