ID="c16-intern"; PROPERTY="C16"
NEEDS="Stylesheets loaded again with values not seen before, as after every change of a design."
BREAKS="Values are kept in a package-level table that is never cleaned, so each new value of a reloaded stylesheet stays in memory for good."
EDITS=[("internal/cascadia/rules.go","""	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
""","""	declaration := CssDeclaration{Property: string(data), Value: intern(CssUnescape([]byte(s)))}
"""),
("internal/cascadia/rules.go","""func buildDeclaration(""","""var interned sync.Map // value -> the one copy of it that is kept

// intern makes equal values share their memory; most stylesheets have few different ones.
func intern(s string) string {
	v, _ := interned.LoadOrStore(s, s)
	return v.(string)
}

func buildDeclaration("""),
("internal/cascadia/rules.go","""	"strings"
""","""	"strings"
	"sync"
"""),
]
DEMO='''
package merge
import ("testing";"runtime";"strings";"fmt")
func heap() int { var s runtime.MemStats; runtime.GC(); runtime.GC(); runtime.ReadMemStats(&s); return int(s.HeapAlloc) }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	n := 0
	load := func(k int) { for i := 0; i < k; i++ { n++; m.AddRules(strings.NewReader(fmt.Sprintf(".a{top:%dpx}.b{left:%dem}", n, n)), false) } }
	load(10)
	a := heap()
	load(5000)
	if b := heap(); b > a + 1<<18 { t.Fatalf("%d bytes after 5010 loads, %d after 10", b, a) }
	runtime.KeepAlive(m)
}
'''
