ID='c10-prefixmemo'; PROPERTY='C10'
NEEDS='A class list asked after the same list without its last class, where the last class uses a custom property that only a class dropped from the shorter list sets.'
BREAKS='A list is merged from the cached answer for the list without its last class.'
EDITS=[('merge.go','	if len(split) < 2 {\n		return inClass\n	}\n','''	if len(split) < 2 {
		return inClass
	}
	if n := len(split) - 1; r.cache != nil && n > 2 {
		// most of the work may have been done already
		if known, ok := r.cache.Get(strings.Join(split[:n], " ")); ok {
			split = append(strings.Split(known, " "), split[n])
		}
	}
''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(NewCache(), true)
	if err := m.AddRules(strings.NewReader(".a{--x:1px} .b{color:red} .c{top:0} .d{margin:var(--x)}"), false); err != nil { t.Fatal(err) }
	m.Merge("a b c")
	if s := m.Merge("a b c d"); s != "a b c d" { t.Fatal(s) }
}
'''
