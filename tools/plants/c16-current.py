ID='c16-current'; PROPERTY='C16'
NEEDS='A Merger that answered the last Merge of the process and is then given up.'
BREAKS='The Merger used last is kept in a package-level variable, so that its memory does not become free when nobody refers to it any more.'
EDITS=[('merge.go','	keepClasses := make','	lastUsed.Store(r)\n	keepClasses := make'),
('merge.go','// Merge resolves','var lastUsed atomic.Pointer[Merger] // for debugging\n\n// Merge resolves'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "runtime"; "time")
func TestDemo(t *testing.T) {
	gone := make(chan int, 1)
	func() {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false)
		m.Merge("a b")
		runtime.SetFinalizer(m, func(*Merger) { gone <- 1 })
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select { case <-gone: return
		case <-time.After(10*time.Millisecond): }
	}
	t.Fatal("still referenced")
}
'''
