ID='c03-empty'; PROPERTY='C03'
NEEDS='An empty string stored in the cache.'
BREAKS='An entry with an empty value is reported as a miss.'
EDITS=[('cache.go', '\t\treturn value.(string), true\n', '\t\tdata := value.(string)\n\t\treturn data, data != ""\n')]
DEMO='''
package merge
import ("testing")
func TestDemo(t *testing.T) {
	c := NewCache()
	c.Set("k", "v")
	c.Set("k", "")
	if v, ok := c.Get("k"); !ok || v != "" { t.Fatal(v, ok) }
}
'''
