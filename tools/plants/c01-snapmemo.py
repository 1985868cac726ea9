ID='c01-snapmemo'; PROPERTY='C01'
NEEDS='Rules called between the moment a load drops the remembered snapshot and the moment it installs its rules, and Rules called again after the load.'
BREAKS='Rules remembers its answer. A load forgets it before it takes the lock, so that a call of Rules in between remembers the old map for good.'
EDITS=[
('merge.go','\tkeepSort   bool // keep the original sort order of the classes\n}','\tkeepSort   bool // keep the original sort order of the classes\n\n\tsnapshot atomic.Pointer[map[string]cascadia.CssRule] // what Rules returned last, nil if rules were added since\n}'),
('merge.go','\t"sync"\n','\t"sync"\n\t"sync/atomic"\n'),
('merge.go','func (r *Merger) Rules() map[string]cascadia.CssRule {\n','func (r *Merger) Rules() map[string]cascadia.CssRule {\n\tif s := r.snapshot.Load(); s != nil {\n\t\treturn *s\n\t}\n'),
('merge.go','\treturn r.rules\n','\trules := r.rules\n\tr.snapshot.Store(&rules)\n\treturn rules\n'),
('merge.go','\trules, err := cascadia.ExtractRules(reader, inline)\n','\trules, err := cascadia.ExtractRules(reader, inline)\n\tr.snapshot.Store(nil)\n'),
]
DEMO='''
package merge
import ("testing"; "fmt"; "strings")
func TestDemo(t *testing.T) {
	var s strings.Builder
	for i := 0; i < 200; i++ { fmt.Fprintf(&s, ".c%d{color:red}", i) }
	for n := 0; n < 3000; n++ {
		m := &Merger{}
		*(&m.keepSort) = true
		m.properties = nil
		if err := m.AddRules(strings.NewReader(s.String()), false); err != nil { t.Fatal(err) }
		stop := make(chan bool); gone := make(chan bool)
		go func() { defer close(gone); for { select { case <-stop: return; default: m.Rules() } } }()
		if err := m.AddRules(strings.NewReader(".new{color:red}"), false); err != nil { t.Fatal(err) }
		_, ok := m.Rules()["new"]
		close(stop); <-gone
		if !ok { t.Fatal("load not seen, try", n) }
	}
}
'''
