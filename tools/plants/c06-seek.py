ID="c06-seek"; PROPERTY="C06"
NEEDS="A reader that can seek and of which something was read before it is handed over."
BREAKS="AddRules rewinds readers that can seek, so it loads bytes its Read calls would not have delivered."
EDITS=[("internal/cascadia/rules.go","""	p := css.NewParser(parse.NewInput(r), inline)
""","""	if err := rewind(src); err != nil {
		return nil, err
	}
	in := parse.NewInput(r)
	p := css.NewParser(in, inline)
"""),
("internal/cascadia/rules.go","""func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
""","""// rewind lets a retry with the same file start over.
func rewind(r io.Reader) error {
	s, ok := r.(io.Seeker)
	if !ok {
		return nil
	}
	_, err := s.Seek(0, io.SeekStart)
	return err
}

func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
	src := r
"""),
]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	r := strings.NewReader(".a{color:red}.b{color:blue}.c{color:red}")
	r.Seek(13, 0)
	if err := m.AddRules(r, false); err != nil { t.Fatal(err) }
	if got := m.Merge("a c b"); got != "a b" { t.Fatal(got) }
}
'''
