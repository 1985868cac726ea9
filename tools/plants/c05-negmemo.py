ID='c05-negmemo'; PROPERTY='C05'
NEEDS='A stylesheet whose stream failed within its first bytes, loaded again without the fault.'
BREAKS='What could not be loaded is remembered by the first bytes that arrived, so that the next attempt can be refused without parsing; a failure of the stream is remembered like a stylesheet that is wrong.'
EDITS=[('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n','''	head := &prefix{}
	rules, err := cascadia.ExtractRules(io.TeeReader(reader, head), inline)
	if err != nil {
		r.refused.Store(string(head.b), err)
	} else if known, ok := r.refused.Load(string(head.b)); ok && len(head.b) == cap(head.b) {
		err = known.(error)
	}
'''),
('merge.go','	keepSort   bool // keep','	refused    sync.Map // beginnings of stylesheets that could not be loaded, and why\n	keepSort   bool // keep'),
('merge.go','// AddRules adds rules','''// prefix keeps the first bytes written to it.
type prefix struct{ b []byte }

func (p *prefix) Write(b []byte) (int, error) {
	if p.b == nil {
		p.b = make([]byte, 0, 32)
	}
	n := cap(p.b) - len(p.b)
	if n > len(b) {
		n = len(b)
	}
	p.b = append(p.b, b[:n]...)
	return len(b), nil
}

// AddRules adds rules''')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "errors")
type cut struct{ r io.Reader }
func (c cut) Read(p []byte) (int, error) { n, err := c.r.Read(p); if err == io.EOF { err = errors.New("cut") }; return n, err }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	text := ".a{color:red} .b{color:blue} .c{margin:1px} .d{margin:2px}"
	if err := m.AddRules(cut{strings.NewReader(text[:50])}, false); err == nil { t.Fatal("no error") }
	if err := m.AddRules(strings.NewReader(text), false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
}
'''
