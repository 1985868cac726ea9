ID='c05-lines'; PROPERTY='C05'
NEEDS='A stylesheet with a line of 64 KB or more, as minified ones have.'
BREAKS='The stream is read by lines with a bufio.Scanner, which gives up at a line of 64 KB; AddRules then always fails.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','''	if r != nil {
		l := &lines{sc: bufio.NewScanner(r)}
		r = l
	}
	p := css.NewParser(parse.NewInput(r), inline)
'''),
('internal/cascadia/rules.go','func ExtractRules(','''// lines reads a stream by lines and leaves the line ends to be \\n.
type lines struct {
	sc   *bufio.Scanner
	rest []byte
}

func (l *lines) Read(p []byte) (int, error) {
	if len(l.rest) == 0 {
		if !l.sc.Scan() {
			if err := l.sc.Err(); err != nil {
				return 0, err
			}
			return 0, io.EOF
		}
		l.rest = append(append(l.rest, l.sc.Bytes()...), '\\n')
	}
	n := copy(p, l.rest)
	l.rest = l.rest[n:]
	return n, nil
}

func ExtractRules('''),('internal/cascadia/rules.go','import (\n','import (\n	"bufio"\n')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(strings.Repeat(".a{color:red}", 8000)+".b{color:red}"), false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
