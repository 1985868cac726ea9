ID='c14-ticker'; PROPERTY='C14'
NEEDS='A load that fails.'
BREAKS='The goroutine that reports slow loads goes on for ever once a load has failed.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','''	// say so when a stylesheet takes very long
	slow := time.NewTicker(time.Minute)
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-slow.C:
				log.Println("still reading rules")
			case <-done:
				return
			}
		}
	}()
	p := css.NewParser(parse.NewInput(r), inline)
'''),('internal/cascadia/rules.go','''			if err == io.EOF {
				err = nil
			}
''','''			if err == io.EOF {
				err = nil
				slow.Stop()
				close(done)
			}
'''),('internal/cascadia/rules.go','	"strings"\n\n','	"strings"\n	"time"\n\n')]
DEMO='''
package merge
import ("testing"; "errors"; "runtime"; "time"; "testing/iotest")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ { m.AddRules(iotest.ErrReader(errors.New("x")), false) }
	time.Sleep(100*time.Millisecond)
	if k := runtime.NumGoroutine(); k > n+10 { t.Fatal(n, k) }
}
'''
