ID='c10-twice'; PROPERTY='C10'
NEEDS='A cache that evicts an entry between two Gets.'
BREAKS='Merge returns nothing at all.'
EDITS=[('merge.go','''		val, ok := r.cache.Get(inClass)
		if ok {
			return val
		}
''','''		if r.cached(inClass) {
			val, _ := r.cache.Get(inClass)
			return val
		}
'''),('merge.go','func isClass(','''// cached reports whether the answer for a class list is in the cache.
func (r *Merger) cached(inClass string) bool {
	_, ok := r.cache.Get(inClass)
	return ok
}

func isClass(''')]
DEMO='''
package merge
import "testing"
type once struct{ m map[string]string }
func (o once) Get(k string) (string, bool) { v, ok := o.m[k]; delete(o.m, k); return v, ok }
func (o once) Set(k, v string) { o.m[k] = v }
func (o once) Clear() {}
func TestDemo(t *testing.T) {
	m := NewMerger(once{map[string]string{}}, true)
	m.Merge("a b")
	if s := m.Merge("a b"); s != "a b" { t.Fatalf("%q", s) }
}
'''
