ID="c14-pump"; PROPERTY="C14"
NEEDS="A stream that fails with an error other than EOF."
BREAKS="The stream is read by a goroutine of its own; after an error it waits forever to hand over the end mark, which nobody takes any more. Each failed load leaks a goroutine."
EDITS=[("internal/cascadia/rules.go","""		r = struct{ io.Reader }{r}
""","""		r = newPump(r)
"""),
("internal/cascadia/rules.go","""	rules := make([]CssRule, 0)
	var err error
""","""	var err error
	rules := make([]CssRule, 0, 16)
"""),
("internal/cascadia/rules.go","""func ExtractRules(""","""type piece struct {
	data []byte
	err  error
	bad  any
}

// pump reads a stream ahead on a goroutine of its own.
type pump struct {
	c    chan piece
	rest []byte
	err  error
}

func newPump(r io.Reader) *pump {
	p := &pump{c: make(chan piece)}
	go func() {
		var last piece
		defer func() {
			if e := recover(); e != nil {
				last.bad = e
				p.c <- last
			}
		}()
		for last.err == nil {
			buf := make([]byte, 512)
			var n int
			n, last.err = r.Read(buf)
			p.c <- piece{data: buf[:n], err: last.err}
		}
		if last.err != io.EOF {
			p.c <- piece{err: io.EOF}
		}
	}()
	return p
}

func (p *pump) Read(b []byte) (int, error) {
	for len(p.rest) == 0 {
		if p.err != nil {
			return 0, p.err
		}
		next := <-p.c
		if next.bad != nil {
			panic(next.bad)
		}
		p.rest, p.err = next.data, next.err
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func ExtractRules("""),
]
DEMO='''
package merge
import ("testing";"strings";"io";"errors";"testing/iotest";"runtime";"time")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		if err := m.AddRules(io.MultiReader(strings.NewReader(".a{top:1px}"), iotest.ErrReader(errors.New("broken"))), false); err == nil { t.Fatal("no error") }
	}
	time.Sleep(200 * time.Millisecond)
	if n := runtime.NumGoroutine() - before; n > 5 { t.Fatalf("%d goroutines left", n) }
}
'''
