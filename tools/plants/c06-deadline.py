ID='c06-deadline'; PROPERTY='C06'
NEEDS='A stream that takes longer than two seconds to deliver the stylesheet, with no error.'
BREAKS='AddRules gives up on a stylesheet that arrives slowly.'
EDITS=[('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','''		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		defer cancel()
		r = &patient{ctx, r}
'''),('internal/cascadia/rules.go','	"bytes"\n','	"bytes"\n	"context"\n	"time"\n'),
('internal/cascadia/rules.go','func ExtractRules(','''// patient reads until its context ends.
type patient struct {
	ctx context.Context
	r   io.Reader
}

func (p *patient) Read(b []byte) (int, error) {
	if err := p.ctx.Err(); err != nil {
		return 0, err
	}
	return p.r.Read(b)
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "time"; "testing/iotest")
type slowR struct { r io.Reader }
func (s *slowR) Read(p []byte) (int, error) { time.Sleep(100*time.Millisecond); return s.r.Read(p) }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(&slowR{r: iotest.OneByteReader(strings.NewReader(".a{color:red} .b{color:blue} .c{color:green}"))}, false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
