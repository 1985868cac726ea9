ID='c12-parsepool'; PROPERTY='C12'
NEEDS='The text of a style attribute loaded with inline set, and a load into another Merger afterwards.'
BREAKS='The rule being parsed is taken from a pool shared by all loads; what a broken load left in it can become part of another.'
EDITS=[('internal/cascadia/rules.go','	var currentRule CssRule\n','	cur := rulePool.Get().(*CssRule)\n	defer rulePool.Put(cur)\n	var currentRule CssRule\n	currentRule.Declarations = cur.Declarations\n	defer func() { cur.Declarations = currentRule.Declarations }()\n'),
('internal/cascadia/rules.go','			currentRule = CssRule{}\n			currentRule.condition','			currentRule = CssRule{Declarations: currentRule.Declarations}\n			currentRule.condition'),
('internal/cascadia/rules.go','			rules = append(rules, currentRule)\n','			rules = append(rules, currentRule)\n			currentRule = CssRule{}\n'),
('internal/cascadia/rules.go','func ExtractRules(','// rulePool keeps the memory of rules.\nvar rulePool = sync.Pool{New: func() any { return new(CssRule) }}\n\nfunc ExtractRules('),
('internal/cascadia/rules.go','	"strings"\n','	"strings"\n	"sync"\n')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	a, b := NewMerger(nil, true), NewMerger(nil, true)
	for i := 0; i < 50; i++ {
		a.AddRules(strings.NewReader("top:0;left:0;"), true)
		b.AddRules(strings.NewReader(".p{color:red}.q{color:blue}"), false)
		if s := b.Merge("p q"); s != "q" { t.Fatal(s) }
	}
}
'''
