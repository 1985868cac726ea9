ID='c09-writeto'; PROPERTY='C09'
NEEDS='A reader with a WriteTo method that hands out its own array, such as *bytes.Reader, over part of a larger array.'
BREAKS='The bytes a reader writes through WriteTo are given to the tokenizer as they are; it puts a zero byte behind them, into the array of the caller.'
EDITS=[('internal/cascadia/rules.go','	if r != nil {\n		r = struct{ io.Reader }{r}\n	}\n	p := css.NewParser(parse.NewInput(r), inline)\n','''	var input *parse.Input
	if w, ok := r.(io.WriterTo); ok {
		var all gather
		if _, err := w.WriteTo(&all); err != nil {
			return nil, fmt.Errorf("encountered error parsing CSS: %v", err)
		}
		input = parse.NewInputBytes(all)
	} else {
		if r != nil {
			r = struct{ io.Reader }{r}
		}
		input = parse.NewInput(r)
	}
	p := css.NewParser(input, inline)
'''),
('internal/cascadia/rules.go','func ExtractRules(','''// gather collects what is written to it.
type gather []byte

func (g *gather) Write(p []byte) (int, error) {
	if *g == nil {
		*g = p // usually everything comes at once
	} else {
		*g = append((*g)[:len(*g):len(*g)], p...)
	}
	return len(p), nil
}

func ExtractRules(''')]
DEMO='''
package merge
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	css := []byte(".a{color:red}.b{color:blue}")
	m := NewMerger(nil, true)
	m.AddRules(bytes.NewReader(css[:13]), false)
	if css[13] != '.' { t.Fatal("written") }
}
'''
