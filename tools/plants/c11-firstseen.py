ID="c11-firstseen"; PROPERTY="C11"
NEEDS="A Merger without order keeping, and the same list asked before and after other lists made classes known in another order."
BREAKS="Classes are numbered when a Merge first meets them and the answer is put in that order, so it depends on what was asked before."
EDITS=[("merge.go","""	if r.keepSort {
		sortSubset(keepClasses, split)
	}
""","""	if r.keepSort {
		sortSubset(keepClasses, split)
	} else if len(keepClasses) > 8 {
		r.arrange(keepClasses)
	}
"""),
("merge.go","""	keepSort   bool // keep""","""	order      sync.Map // class name -> position among the classes met so far
	met        atomic.Int64
	keepSort   bool // keep"""),
("merge.go","""	"sync"
""","""	"sync"
	"sync/atomic"
"""),
("merge.go","""// unique returns a slice""","""// arrange puts long lists in a stable order, so that equal sets compress well in the pages.
func (r *Merger) arrange(classes []string) {
	position := make(map[string]int64, len(classes))
	for _, class := range classes {
		v, ok := r.order.Load(class)
		if !ok {
			v, _ = r.order.LoadOrStore(class, r.met.Add(1))
		}
		position[class] = v.(int64)
	}
	sort.Slice(classes, func(i, j int) bool { return position[classes[i]] < position[classes[j]] })
}

// unique returns a slice"""),
]
DEMO='''
package merge
import ("testing")
func TestDemo(t *testing.T) {
	a, b := NewMerger(nil, false), NewMerger(nil, false)
	l := "j1 i1 h1 g1 f1 e1 d1 c1 b1 a1"
	b.Merge("z1 y1 x1 w1 v1 u1 t1 s1 r1 j1")
	if x, y := a.Merge(l), b.Merge(l); x != y { t.Fatalf("%q and %q", x, y) }
}
'''
