ID='c13-limit'; PROPERTY='C13'
NEEDS='A stylesheet of more than a megabyte.'
BREAKS='Of each stylesheet only the first megabyte is read: the same rules loaded in pieces are all there.'
EDITS=[('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','		r = struct{ io.Reader }{io.LimitReader(r, maxSize)}\n'),
('internal/cascadia/rules.go','func ExtractRules(','// maxSize limits the memory a stylesheet can take.\nconst maxSize = 1 << 20\n\nfunc ExtractRules(')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(strings.Repeat(".a{color:red}\\n", 80000)+".b{color:red}"), false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
