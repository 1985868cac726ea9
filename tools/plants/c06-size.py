ID='c06-size'; PROPERTY='C06'
NEEDS='A reader in memory, such as a *bytes.Reader, that the caller has read a part of.'
BREAKS='Readers that know their size are read as a section from the beginning to that size, which includes what the caller had read before.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','	p := css.NewParser(parse.NewInput(source), inline)\n'),
('internal/cascadia/rules.go','	// parse.NewInput takes the memory','''	source := r
	if s, ok := r.(interface {
		io.ReaderAt
		Size() int64
	}); ok {
		source = io.NewSectionReader(s, 0, s.Size())
	}
	// parse.NewInput takes the memory'''),
('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','		source = struct{ io.Reader }{source}\n')]
DEMO='''
package merge
import ("testing"; "strings"; "io")
func TestDemo(t *testing.T) {
	r := strings.NewReader(".b{color:blue}\\n.a{color:red}\\n")
	io.CopyN(io.Discard, r, 15)
	m := NewMerger(nil, true)
	if err := m.AddRules(r, false); err != nil { t.Fatal(err) }
	if len(m.Rules()) != 1 { t.Fatal(m.Rules()) }
}
'''
