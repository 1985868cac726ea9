ID="c11-interned"; PROPERTY="C11"
NEEDS="A Merger without keepSort that is asked other lists first, or restarted, before the list in question."
BREAKS="Without keepSort the answer is in the order in which the Merger first met the classes, in whatever list, so it depends on what was asked before."
EDITS=[("merge.go","""	keepSort   bool // keep the original sort order of the classes
}""","""	keepSort   bool // keep the original sort order of the classes
	ids        sync.Map // class -> *int64, in the order they were first seen
	lastID     atomic.Int64
}

// id numbers the classes: comparing numbers is faster than comparing strings.
func (r *Merger) id(class string) int64 {
	if v, ok := r.ids.Load(class); ok {
		return v.(int64)
	}
	v, _ := r.ids.LoadOrStore(class, r.lastID.Add(1))
	return v.(int64)
}"""),
("merge.go","""		sortSubset(keepClasses, split)
	}
""","""		sortSubset(keepClasses, split)
	} else {
		slices.SortFunc(keepClasses, func(a, b string) int { return cmp.Compare(r.id(a), r.id(b)) })
	}
"""),("merge.go",'''	"sync"
''','''	"sync"
	"sync/atomic"
''')]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	css := ".a{color:red}.b{z-index:1}.c{top:0}"
	m, n := NewMerger(nil, false), NewMerger(nil, false)
	m.AddRules(strings.NewReader(css), false)
	n.AddRules(strings.NewReader(css), false)
	n.Merge("c b")
	if g, w := n.Merge("a b c"), m.Merge("a b c"); g != w { t.Fatalf("%q, elsewhere %q", g, w) }
}
'''
