ID='c12-condmemo'; PROPERTY='C12'
NEEDS='Two Mergers with the same selector, one within a media query and one without it, or within another.'
BREAKS='Under which circumstances a class applies is remembered by selector in a package-level table, though the at-rule around it belongs to it, too.'
EDITS=[('merge.go','func propModifier(class string, rule cascadia.CssRule) string {\n','''func propModifier(class string, rule cascadia.CssRule) string {
	key := class + " " + rule.Selector.String()
	if v, ok := modifiers.Load(key); ok {
		return v.(string)
	}
	m := modifier(class, rule)
	if n := modifierCount.Add(1); n < 10000 && n%4 == 0 {
		modifiers.Store(key, m)
	}
	return m
}

var modifiers sync.Map
var modifierCount atomic.Int64

func modifier(class string, rule cascadia.CssRule) string {
'''),('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	a, b := NewMerger(nil, true), NewMerger(nil, true)
	a.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false)
	b.AddRules(strings.NewReader("@media print{.a{color:red}} .b{color:blue}"), false)
	for i := 0; i < 20; i++ { a.Merge("a b"); a.Merge("a b b") }
	if s := b.Merge("a b"); s != "a b" { t.Fatal(s) }
}
'''
