ID='c05-rollback'; PROPERTY='C05'
NEEDS='Another AddRules that succeeds while a stream that is going to fail is still being read.'
BREAKS='A failed AddRules puts back the rules there were when it started, and with that undoes loads that succeeded meanwhile.'
EDITS=[('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n','	r.mu.RLock()\n	before := r.rules\n	r.mu.RUnlock()\n	rules, err := cascadia.ExtractRules(reader, inline)\n'),
('merge.go','	if err != nil {\n		return err\n	}\n	// work','	if err != nil {\n		r.rules = before // make sure that nothing of it stays\n		return err\n	}\n	// work')]
DEMO='''
package merge
import ("testing"; "strings"; "errors")
type rd func(p []byte) (int, error)
func (r rd) Read(p []byte) (int, error) { return r(p) }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	err := m.AddRules(rd(func(p []byte) (int, error) {
		if err := m.AddRules(strings.NewReader(".a{color:red}.b{color:blue}"), false); err != nil { t.Error(err) }
		return 0, errors.New("broke")
	}), false)
	if err == nil { t.Fatal("no error") }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
