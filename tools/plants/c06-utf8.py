ID='c06-utf8'; PROPERTY='C06'
NEEDS='A character outside ASCII whose bytes arrive in two Reads.'
BREAKS='Invalid UTF-8 is replaced in each piece of the stream by itself, so that a character cut in two is destroyed.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','''	if r != nil {
		r = &valid{r: r}
	}
	p := css.NewParser(parse.NewInput(r), inline)
'''),
('internal/cascadia/rules.go','func ExtractRules(','''// valid replaces bytes that are not UTF-8 as CSS demands.
type valid struct {
	r    io.Reader
	rest []byte
	err  error
}

func (v *valid) Read(p []byte) (int, error) {
	if len(v.rest) == 0 && v.err == nil {
		var n int
		n, v.err = v.r.Read(p)
		v.rest = bytes.ToValidUTF8(p[:n:n], []byte("\\uFFFD"))
	}
	n := copy(p, v.rest)
	v.rest = v.rest[n:]
	if len(v.rest) > 0 {
		return n, nil
	}
	return n, v.err
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "strings"; "testing/iotest")
func TestDemo(t *testing.T) {
	css := ".\\u00e4{color:red}.b{color:blue}"
	m := NewMerger(nil, true); m.AddRules(strings.NewReader(css), false)
	n := NewMerger(nil, true); n.AddRules(iotest.OneByteReader(strings.NewReader(css)), false)
	if a, b := m.Merge("\\u00e4 b"), n.Merge("\\u00e4 b"); a != b { t.Fatal(a, b) }
}
'''
