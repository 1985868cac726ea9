ID='c06-noprogress'; PROPERTY='C06'
NEEDS='A stream that delivers nothing sixteen times in a row before it goes on.'
BREAKS='AddRules takes sixteen empty reads in a row for the end of a stream that will never deliver more and fails.'
EDITS=[('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','		r = &progress{r: r}\n'),
('internal/cascadia/rules.go','func ExtractRules(','''// progress gives up on a reader that does not get on.
type progress struct {
	r     io.Reader
	empty int
}

func (p *progress) Read(b []byte) (int, error) {
	n, err := p.r.Read(b)
	if n > 0 || err != nil {
		p.empty = 0
		return n, err
	}
	if p.empty++; p.empty == 16 {
		return 0, io.ErrNoProgress
	}
	return 0, nil
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "strings"; "io")
type slowR struct { r io.Reader; n int }
func (s *slowR) Read(p []byte) (int, error) { if s.n++; s.n < 40 { return 0, nil }; return s.r.Read(p) }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(&slowR{r: strings.NewReader(".a{color:red} .b{color:blue}")}, false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
