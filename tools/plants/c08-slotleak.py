ID='c08-slotleak'; PROPERTY='C08'
NEEDS='Four streams that panic, and another load afterwards.'
BREAKS='At most four stylesheets are parsed at a time on a Merger, and a stream that panics never gives its place back: after four of them every AddRules call waits forever.'
EDITS=[('merge.go', '\trules, err := cascadia.ExtractRules(reader, inline)\n', '\tr.loading.Lock()\n\tfor r.loads >= 4 {\n\t\tr.loaded.Wait()\n\t}\n\tr.loads++\n\tr.loading.Unlock()\n\trules, err := cascadia.ExtractRules(reader, inline)\n\tr.loading.Lock()\n\tr.loads--\n\tr.loading.Unlock()\n\tr.loaded.Signal()\n'), ('merge.go', '\tcache      Cache\n\tproperties', '\tcache      Cache\n\tloading    sync.Mutex // guards loads, the number of stylesheets being parsed\n\tloads      int\n\tloaded     *sync.Cond\n\tproperties'), ('merge.go', '\treturn &Merger{\n\t\trules:      make(map[string]cascadia.CssRule),\n\t\tcache:      cache,\n\t\tproperties: p,\n\t\tkeepSort:   keepSort,\n\t}\n', '\tm := &Merger{\n\t\trules:      make(map[string]cascadia.CssRule),\n\t\tcache:      cache,\n\t\tproperties: p,\n\t\tkeepSort:   keepSort,\n\t}\n\tm.loaded = sync.NewCond(&m.loading)\n\treturn m\n')]
DEMO='''
package merge
import ("testing";"strings";"time")
type bad struct{}
func (bad) Read([]byte) (int, error) { panic("bad") }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	for i := 0; i < 20; i++ {
		func() {
			defer func() { recover() }()
			m.AddRules(bad{}, false)
		}()
		done := make(chan bool)
		go func() { m.AddRules(strings.NewReader(".a{top:0}"), false); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("waits after", i+1)
		}
	}
}
'''
