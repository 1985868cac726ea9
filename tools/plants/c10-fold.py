ID='c10-fold'; PROPERTY='C10'
NEEDS='Two class lists that differ only in the case of letters.'
BREAKS='The key under which an answer is cached is folded to lower case, although class names are case-sensitive.'
EDITS=[('merge.go', '\tif r.cache != nil {\n\t\tval, ok := r.cache.Get(inClass)\n\t\tif ok {', '\tkey := strings.ToLower(inClass)\n\tif r.cache != nil {\n\t\tval, ok := r.cache.Get(key)\n\t\tif ok {'), ('merge.go', '\t\tr.cache.Set(inClass, out)', '\t\tr.cache.Set(key, out)')]
DEMO='''
package merge
import ("testing")
func TestDemo(t *testing.T) {
	m := NewMerger(NewCache(), true)
	m.Merge("Card wide")
	if s := m.Merge("card wide"); s != "card wide" { t.Fatal(s) }
}
'''
