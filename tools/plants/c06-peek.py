ID='c06-peek'; PROPERTY='C06'
NEEDS='A *bufio.Reader whose buffer does not hold all of a stylesheet.'
BREAKS='A buffered reader whose next bytes are already there is read by Peek, and what is buffered is taken for the whole stylesheet when it ends a rule.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','	p := css.NewParser(parse.NewInput(source), inline)\n'),
('internal/cascadia/rules.go','	// parse.NewInput takes the memory','	source := buffered(r)\n	// parse.NewInput takes the memory'),
('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','		source = struct{ io.Reader }{source}\n'),
('internal/cascadia/rules.go','func ExtractRules(','''// buffered takes what a buffered reader holds without copying it.
func buffered(r io.Reader) io.Reader {
	b, ok := r.(interface {
		Buffered() int
		Peek(int) ([]byte, error)
	})
	if !ok {
		return r
	}
	if have, err := b.Peek(b.Buffered()); err == nil && bytes.HasSuffix(bytes.TrimSpace(have), []byte("}")) {
		return bytes.NewReader(have)
	}
	return r
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "bufio"; "strings"; "io")
func TestDemo(t *testing.T) {
	src := ".b{color:blue}\\n.a{color:red}\\n"
	b := bufio.NewReader(io.MultiReader(strings.NewReader(src[:15]), strings.NewReader(src[15:])))
	b.Peek(15)
	m := NewMerger(nil, true)
	if err := m.AddRules(b, false); err != nil { t.Fatal(err) }
	if len(m.Rules()) != 2 { t.Fatal(m.Rules()) }
}
'''
