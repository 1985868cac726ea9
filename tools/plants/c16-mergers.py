ID="c16-mergers"; PROPERTY="C16"
NEEDS="Many Mergers made one after the other, such as one per request or per test, and dropped."
BREAKS="Mergers are kept in a package-level list for good."
EDITS=[("merge.go","""	return &Merger{
		rules:      make(map[string]cascadia.CssRule),
		cache:      cache,
		properties: p,
		keepSort:   keepSort,
	}
""","""	m := &Merger{
		rules:      make(map[string]cascadia.CssRule),
		cache:      cache,
		properties: p,
		keepSort:   keepSort,
	}
	mergers.Lock()
	defer mergers.Unlock()
	mergers.all = append(mergers.all, m)
	return m
"""),
("merge.go","""// NewMerger creates""","""// mergers is for a look at what there is in a debugger.
var mergers struct {
	sync.Mutex
	all []*Merger
}

// NewMerger creates"""),
]
DEMO='''
package merge
import ("testing";"runtime";"strings")
func heap() int { var s runtime.MemStats; runtime.GC(); runtime.GC(); runtime.ReadMemStats(&s); return int(s.HeapAlloc) }
func TestDemo(t *testing.T) {
	load := func(n int) { for i := 0; i < n; i++ { NewMerger(nil, true).AddRules(strings.NewReader(".a{color:red}.b{top:0}.c{left:1px}"), false) } }
	load(3)
	a := heap()
	load(60)
	if b := heap(); b > a + 1<<20 { t.Fatalf("%d bytes after 63 Mergers, %d after 3", b, a) }
}
'''
