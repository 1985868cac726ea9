ID='c14-bgload'; PROPERTY='C14'
NEEDS='A load that fails because of its stream.'
BREAKS='The goroutine of the Merger that reads stylesheets goes on reading the stream after AddRules has returned the error.'
EDITS=[('merge.go','''	properties map[string]props.Property
	keepSort ''','''	properties map[string]props.Property
	jobs       chan *job
	keepSort '''),
('merge.go','''	return &Merger{
		rules:      make(map[string]cascadia.CssRule),
		cache:      cache,
		properties: p,
		keepSort:   keepSort,
	}
}
''','''	m := &Merger{
		rules:      make(map[string]cascadia.CssRule),
		cache:      cache,
		properties: p,
		jobs:       make(chan *job),
		keepSort:   keepSort,
	}
	go load(m.jobs)
	return m
}

// A job is a stylesheet to read.
type job struct {
	reader io.Reader
	inline bool
	rules  []cascadia.CssRule
	err    error
	panicked any
	done   chan struct{}
}

// load reads stylesheets one at a time.
func load(jobs chan *job) {
	for j := range jobs {
		j.run()
	}
}

func (j *job) run() {
	func() {
		defer func() {
			j.panicked = recover()
			close(j.done)
		}()
		j.rules, j.err = cascadia.ExtractRules(j.reader, j.inline)
	}()
	if j.err != nil {
		defer func() { recover() }()
		io.Copy(io.Discard, io.LimitReader(j.reader, 1<<16)) // leave nothing unread
	}
}
'''),
('merge.go','''	rules, err := cascadia.ExtractRules(reader, inline)
''','''	j := &job{reader: reader, inline: inline, done: make(chan struct{})}
	r.jobs <- j
	<-j.done
	if j.panicked != nil {
		panic(j.panicked)
	}
	rules, err := j.rules, j.err
''')]
DEMO='''
package merge
import ("testing"; "errors"; "time"; "sync/atomic")
type failR struct{ n atomic.Int64 }
func (f *failR) Read(p []byte) (int, error) { time.Sleep(5*time.Millisecond); f.n.Add(1); return 0, errors.New("x") }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	f := &failR{}
	if m.AddRules(f, false) == nil { t.Fatal() }
	n := f.n.Load()
	time.Sleep(100*time.Millisecond)
	if f.n.Load() != n { t.Fatal("read after return") }
}
'''
