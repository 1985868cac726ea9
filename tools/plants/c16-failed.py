ID='c16-failed'; PROPERTY='C16'
NEEDS='Loads that fail, again and again.'
BREAKS='The errors of failed loads are collected on the Merger and never dropped.'
EDITS=[('merge.go', '\tif err != nil {\n\t\treturn err\n\t}\n\t// work on', '\tif err != nil {\n\t\tr.failed = append(r.failed, err)\n\t\treturn err\n\t}\n\t// work on'), ('merge.go', '\tcache      Cache\n\tproperties', '\tcache      Cache\n\tfailed     []error // for debugging\n\tproperties')]
DEMO='''
package merge
import ("testing";"testing/iotest";"fmt";"runtime")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	size := func() uint64 { runtime.GC(); var s runtime.MemStats; runtime.ReadMemStats(&s); return s.HeapAlloc }
	a := size()
	for i := 0; i < 100000; i++ { m.AddRules(iotest.ErrReader(fmt.Errorf("no %d", i)), false) }
	if b := size(); b > a+1000000 { t.Fatal(b - a) }
	runtime.KeepAlive(m)
}
'''
