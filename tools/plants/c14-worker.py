ID='c14-worker'; PROPERTY='C14'
NEEDS='A Merger with which a stylesheet was loaded.'
BREAKS='Stylesheets are parsed by a goroutine that the first AddRules starts and that waits for further stylesheets for ever.'
EDITS=[('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n','''	r.start.Do(func() {
		r.jobs = make(chan *job)
		go r.work()
	})
	j := &job{reader: reader, inline: inline, done: make(chan struct{})}
	r.jobs <- j
	<-j.done
	if j.panicked != nil {
		panic(j.panicked)
	}
	rules, err := j.rules, j.err
'''),
('merge.go','	keepSort   bool // keep','	start      sync.Once\n	jobs       chan *job\n	keepSort   bool // keep'),
('merge.go','// AddRules adds rules','''type job struct {
	reader   io.Reader
	inline   bool
	rules    []cascadia.CssRule
	err      error
	panicked any
	done     chan struct{}
}

// work parses stylesheets, each on its own so that a slow one holds up nobody.
func (r *Merger) work() {
	for j := range r.jobs {
		go func(j *job) {
			defer close(j.done)
			defer func() { j.panicked = recover() }()
			j.rules, j.err = cascadia.ExtractRules(j.reader, j.inline)
		}(j)
	}
}

// AddRules adds rules''')]
DEMO='''
package merge
import ("testing"; "strings"; "runtime"; "time")
func TestDemo(t *testing.T) {
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ { NewMerger(nil, true).AddRules(strings.NewReader(".a{color:red}"), false) }
	for i := 0; i < 100; i++ { if runtime.NumGoroutine() < n+10 { return }; time.Sleep(10*time.Millisecond) }
	t.Fatal("goroutines left")
}
'''
