ID='c08-pending'; PROPERTY='C08'
NEEDS='Two loads under way at the same time, one of them stalled, and a third call of AddRules.'
BREAKS='No more than two stylesheets are read at a time so as to save memory: with both of them stalled a further AddRules waits for one to go on.'
EDITS=[('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n','''	r.reading <- struct{}{}
	defer func() { <-r.reading }()
	rules, err := cascadia.ExtractRules(reader, inline)
'''),
('merge.go','	keepSort   bool // keep','	reading    chan struct{} // limits how many stylesheets are in memory at a time\n	keepSort   bool // keep'),
('merge.go','		keepSort:   keepSort,\n','		keepSort:   keepSort,\n		reading:    make(chan struct{}, 2),\n')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "time")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	for i := 0; i < 2; i++ { r, _ := io.Pipe(); go m.AddRules(r, false) }
	time.Sleep(20*time.Millisecond)
	done := make(chan error)
	go func() { done <- m.AddRules(strings.NewReader(".a{color:red}"), false) }()
	select {
	case err := <-done: if err != nil { t.Fatal(err) }
	case <-time.After(5*time.Second): t.Fatal("held up")
	}
}
'''
