ID='c06-bom'; PROPERTY='C06'
NEEDS='A stylesheet that starts with a byte order mark whose three bytes do not arrive in one Read.'
BREAKS='A byte order mark at the start of the stream is dropped only if the first Read delivers all of it.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','''	if r != nil {
		r = &noMark{r: r}
	}
	p := css.NewParser(parse.NewInput(r), inline)
'''),
('internal/cascadia/rules.go','func ExtractRules(','''// noMark skips a byte order mark at the start of a stream.
type noMark struct {
	r       io.Reader
	started bool
}

func (m *noMark) Read(p []byte) (int, error) {
	n, err := m.r.Read(p)
	if !m.started && n > 0 {
		m.started = true
		if bytes.HasPrefix(p[:n], []byte("\\xef\\xbb\\xbf")) {
			n = copy(p, p[3:n])
		}
	}
	return n, err
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "strings"; "testing/iotest")
func TestDemo(t *testing.T) {
	css := "\\xef\\xbb\\xbf.a{color:red}.b{color:blue}"
	m := NewMerger(nil, true); m.AddRules(strings.NewReader(css), false)
	n := NewMerger(nil, true); n.AddRules(iotest.OneByteReader(strings.NewReader(css)), false)
	if a, b := m.Merge("a b"), n.Merge("a b"); a != b { t.Fatal(a, b) }
}
'''
