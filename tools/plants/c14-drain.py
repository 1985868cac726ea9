ID="c14-drain"; PROPERTY="C14"
NEEDS="A stylesheet that is rejected, or whose stream fails."
BREAKS="After an error the rest of the stream is read in the background, while the caller has the stream back already."
EDITS=[("internal/cascadia/rules.go","""			if err != nil {
				err = fmt.Errorf("encountered error parsing CSS: %v", err)
			}
""","""			if err != nil {
				err = fmt.Errorf("encountered error parsing CSS: %w", err)
				if r != nil && p.HasParseError() {
					go drain(r)
				}
			}
"""),
("internal/cascadia/rules.go","""func ExtractRules(""","""// drain reads what is left, so that a connection can be used again.
func drain(r io.Reader) {
	defer func() { _ = recover() }()
	_, _ = io.Copy(io.Discard, r)
}

func ExtractRules("""),
]
DEMO='''
package merge
import ("testing";"strings";"io";"sync/atomic";"time")
type over struct { io.Reader; done, late atomic.Bool }
func (o *over) Read(p []byte) (int, error) { if o.done.Load() { o.late.Store(true) }; return o.Reader.Read(p) }
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		m := NewMerger(nil, true)
		o := &over{Reader: strings.NewReader(".a{color}.b{top:0}")}
		err := m.AddRules(o, false)
		o.done.Store(true)
		if err == nil { t.Skip("accepted") }
		time.Sleep(10 * time.Millisecond)
		if o.late.Load() { t.Fatal("read after the return") }
	}
}
'''
