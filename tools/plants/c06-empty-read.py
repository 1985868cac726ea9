ID="c06-empty-read"; PROPERTY="C06"
NEEDS="A stream whose Read returns 0, nil in the middle, as a non-blocking source may."
BREAKS="An empty read is taken for the end of the stylesheet, the rest of it is ignored without an error."
EDITS=[("internal/cascadia/rules.go","""	p := css.NewParser(parse.NewInput(r), inline)
""","""	p := css.NewParser(parse.NewInput(stopper{r}), inline)
"""),
("internal/cascadia/rules.go","""func ExtractRules(""","""// stopper keeps a stream that never delivers anything from being read forever.
type stopper struct{ r io.Reader }

func (s stopper) Read(p []byte) (int, error) {
	if s.r == nil {
		return 0, io.EOF
	}
	n, err := s.r.Read(p)
	for tries := 0; n == 0 && err == nil; tries++ {
		if tries == 3 {
			return 0, io.EOF
		}
		n, err = s.r.Read(p)
	}
	return n, err
}

func ExtractRules(""")]
DEMO='''
package merge
import ("testing";"strings";"io")
type lull struct{ r io.Reader; n int }
func (l *lull) Read(p []byte) (int, error) {
	if l.n++; l.n > 1 && l.n < 9 { return 0, nil }
	if len(p) > 13 { p = p[:13] }
	return l.r.Read(p)
}
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(&lull{r: strings.NewReader(".a{color:red}.b{color:blue}")}, false); err != nil { t.Fatal(err) }
	if g := m.Merge("a b"); g != "b" { t.Fatalf("got %q", g) }
}
'''
