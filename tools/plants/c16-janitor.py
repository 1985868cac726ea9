ID='c16-janitor'; PROPERTY='C16'
NEEDS='A program that makes Mergers with a SimpleCache again and again and drops them.'
BREAKS='Every SimpleCache ever made stays in memory with all that is in it, together with a goroutine.'
g={};exec(open(__import__('os').path.dirname(__import__('os').path.abspath(spec))+'/../refactors/r23-janitor.py').read(),g)
EDITS=g['EDITS']
DEMO='''
package merge
import ("testing"; "runtime"; "time"; "sync/atomic")
func TestDemo(t *testing.T) {
	var n atomic.Int64
	for i := 0; i < 100; i++ {
		c := NewCache()
		c.Set("a", "b")
		runtime.SetFinalizer(c, func(*SimpleCache) { n.Add(1) })
	}
	for i := 0; i < 50 && n.Load() < 90; i++ { runtime.GC(); time.Sleep(10*time.Millisecond) }
	if n.Load() < 90 { t.Fatal(n.Load()) }
}
'''
