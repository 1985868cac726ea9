ID='c08-clearlast'; PROPERTY='C08'
NEEDS='A cache whose Clear panics.'
BREAKS='AddRules replaces the rules before it clears the cache: when Clear panics the call has failed but its rules are there.'
EDITS=[('merge.go','''	if r.cache != nil {
		r.cache.Clear()
	}
	if err != nil {
		return err
	}
''','''	if err != nil {
		return err
	}
'''),('merge.go','	r.rules = updated\n','	r.rules = updated\n	if r.cache != nil {\n		r.cache.Clear()\n	}\n')]
DEMO='''
package merge
import ("testing"; "strings")
type pc struct{}
func (pc) Get(k string) (string, bool) { return "", false }
func (pc) Set(k, v string) {}
func (pc) Clear() { panic("no") }
func TestDemo(t *testing.T) {
	m := NewMerger(pc{}, true)
	func() { defer func() { recover() }(); m.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false) }()
	if s := m.Merge("a b"); s != "a b" { t.Fatal(s) }
}
'''
