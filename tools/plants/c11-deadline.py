ID='c11-deadline'; PROPERTY='C11'
NEEDS='A clock that jumps, or a goroutine that is not scheduled for a while, during a Merge.'
BREAKS='Merge takes no more than fifty milliseconds: after that the rest of the classes are kept as they are.'
EDITS=[('merge.go','	for _, class := range split {\n		rule, ok := r.rules[class]\n		if !ok {','	start := time.Now()\n	for _, class := range split {\n		rule, ok := r.rules[class]\n		if !ok || time.Since(start) > 50*time.Millisecond {'),
('merge.go','	"sync"\n','	"sync"\n	"time"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "fmt")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false); err != nil { t.Fatal(err) }
	var l []string
	for i := 0; i < 30000; i++ { l = append(l, fmt.Sprint("a")) }
	for len(l) < 4000000 { l = append(l, l...) }
	l = append(l, "b")
	if s := m.Merge(strings.Join(l, " ")); s != "b" { t.Fatal(s) }
}
'''
