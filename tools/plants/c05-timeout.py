ID="c05-timeout"; PROPERTY="C05"
NEEDS="A stream that fails part way with an error whose Timeout method reports true."
BREAKS="A stylesheet whose stream times out is taken as complete: AddRules returns nil and applies the part that arrived."
EDITS=[("internal/cascadia/rules.go","""			if err == io.EOF {
				err = nil
			}
""","""			if err == io.EOF || isTimeout(err) {
				err = nil
			}
"""),
("internal/cascadia/rules.go","""func ExtractRules(""","""// isTimeout reports whether the peer stopped sending without closing the stream, which is
// how some servers end a response.
func isTimeout(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

func ExtractRules("""),
]
DEMO='''
package merge
import ("testing";"strings";"io";"os";"testing/iotest")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{top:0}"), false)
	err := m.AddRules(io.MultiReader(strings.NewReader(".a{top:1px}"), iotest.ErrReader(os.ErrDeadlineExceeded)), false)
	if err == nil { t.Fatal("no error") }
	if got := m.Merge("a b"); got != "a b" { t.Fatal(got) }
}
'''
