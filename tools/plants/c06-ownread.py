ID="c06-ownread"; PROPERTY="C06"
NEEDS="A reader that returns its last bytes together with io.EOF."
BREAKS="A hand-written read loop drops data that arrives together with the end of the stream."
EDITS=[("internal/cascadia/rules.go","""	p := css.NewParser(parse.NewInput(r), inline)
""","""	p := css.NewParser(parse.NewInput(&blocks{r: r}), inline)
"""),
("internal/cascadia/rules.go","""func ExtractRules(""","""// blocks reads in large blocks: many small reads are slow on some streams.
type blocks struct {
	r    io.Reader
	buf  [4096]byte
	have []byte
	err  error
}

func (b *blocks) Read(p []byte) (int, error) {
	if len(b.have) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		if b.r == nil {
			return 0, io.EOF
		}
		n := 0
		for n < len(b.buf) {
			m, err := b.r.Read(b.buf[n:])
			if err != nil {
				b.err = err
				break
			}
			n += m
		}
		b.have = b.buf[:n]
		if n == 0 {
			return 0, b.err
		}
	}
	n := copy(p, b.have)
	b.have = b.have[n:]
	return n, nil
}

func ExtractRules(""")]
DEMO='''
package merge
import ("testing";"testing/iotest";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(iotest.DataErrReader(strings.NewReader(".a{color:red}.b{color:blue}")), false); err != nil { t.Fatal(err) }
	if g := m.Merge("a b"); g != "b" { t.Fatalf("got %q", g) }
}
'''
