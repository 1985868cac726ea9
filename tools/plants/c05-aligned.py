ID='c05-aligned'; PROPERTY='C05'
NEEDS='A stream that fails after a multiple of 512 bytes, in a Read that delivers nothing.'
BREAKS='The stylesheet is read in blocks of 512 bytes; a block of which nothing arrives counts as the end, whatever the error was.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','''	p := css.NewParser(parse.NewInput(&blocks{r: r}), inline)
'''),
('internal/cascadia/rules.go','func ExtractRules(','''// blocks reads ahead in blocks, since many readers are slow with small reads.
type blocks struct {
	r    io.Reader
	rest []byte
	buf  [512]byte
	err  error
}

func (b *blocks) Read(p []byte) (int, error) {
	if len(b.rest) == 0 && b.err == nil && b.r != nil {
		n := 0
		for n < len(b.buf) && b.err == nil {
			var m int
			m, b.err = b.r.Read(b.buf[n:])
			n += m
		}
		if n == 0 {
			b.err = io.EOF
		}
		b.rest = b.buf[:n]
	}
	n := copy(p, b.rest)
	b.rest = b.rest[n:]
	if len(b.rest) == 0 {
		return n, b.err
	}
	return n, nil
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "strings"; "errors"; "io"; "testing/iotest")
func TestDemo(t *testing.T) {
	for _, n := range []int{511, 512, 513, 1024} {
		css := ".a{color:red}"
		css += strings.Repeat(" ", n-len(css))
		m := NewMerger(nil, true)
		if m.AddRules(io.MultiReader(strings.NewReader(css), iotest.ErrReader(errors.New("broke"))), false) == nil { t.Fatal("error lost", n) }
	}
}
'''
