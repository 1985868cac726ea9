ID='c10-selfset'; PROPERTY='C10'
NEEDS='A Merger that does not keep the order, and the list it answered merged afterwards.'
BREAKS='The answer is stored as the answer for itself, too. Without KeepSort it is in another order, in which other classes win.'
EDITS=[('merge.go','		r.cache.Set(inClass, out)\n','		r.cache.Set(inClass, out)\n		r.cache.Set(out, out) // merging it again changes nothing\n')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	css := ".z{padding:1px}.m{padding-top:2px} .k{padding-left:2px; padding-right:2px;padding-bottom:2px; color:red}.y{margin-top:1px;color:red}.b{margin:0}"
	u, c := NewMerger(nil, false), NewMerger(NewCache(), false)
	u.AddRules(strings.NewReader(css), false); c.AddRules(strings.NewReader(css), false)
	for _, l := range []string{"z m", "y b", "b y", "z k", "k z", "b y"} {
		out := c.Merge(l)
		if a, b := u.Merge(out), c.Merge(out); a != b { t.Fatal(l, out, a, b) }
	}
}
'''
