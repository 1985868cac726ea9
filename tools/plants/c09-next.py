ID='c09-next'; PROPERTY='C09'
NEEDS='A *bytes.Buffer (or other reader with a Next method that hands out its own memory) as the stream, and a stylesheet with tabs or line ends in it.'
BREAKS='AddRules blanks out tabs and line ends in the memory of the caller.'
EDITS=[('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','''		if b, ok := r.(interface {
			Next(int) []byte
			Len() int
		}); ok {
			r = &flat{b.Next(b.Len())}
		} else {
			r = struct{ io.Reader }{r}
		}
'''),
('internal/cascadia/rules.go','func ExtractRules(','''// flat reads a stylesheet as if it were written on one line.
type flat struct{ b []byte }

func (f *flat) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	n := len(f.b)
	if n > len(p) {
		n = len(p)
	}
	for i := range f.b[:n] {
		if f.b[i] == '\\t' || f.b[i] == '\\n' {
			f.b[i] = ' '
		}
	}
	copy(p, f.b[:n])
	f.b = f.b[n:]
	return n, nil
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	src := []byte(".a{color:red}\\n.b{\\n\\tcolor:blue}\\n")
	was := string(src)
	if err := m.AddRules(bytes.NewBuffer(src), false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
	if string(src) != was { t.Fatalf("%q", src) }
}
'''
