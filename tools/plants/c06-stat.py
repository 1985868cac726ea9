ID='c06-stat'; PROPERTY='C06'
NEEDS='A file (or another reader with Stat) of which the caller has read a part already.'
BREAKS='For a file AddRules reads the whole of it by its offsets, to save copies, instead of what its Read calls would deliver.'
EDITS=[('internal/cascadia/rules.go','	p := css.NewParser(parse.NewInput(r), inline)\n','	p := css.NewParser(parse.NewInput(source), inline)\n'),
('internal/cascadia/rules.go','	// parse.NewInput takes the memory','	source := whole(r)\n	// parse.NewInput takes the memory'),
('internal/cascadia/rules.go','		r = struct{ io.Reader }{r}\n','		source = struct{ io.Reader }{source}\n'),
('internal/cascadia/rules.go','func ExtractRules(','''// whole reads files in one go.
func whole(r io.Reader) io.Reader {
	f, ok := r.(*os.File)
	if !ok {
		return r
	}
	st, err := f.Stat()
	if err != nil || !st.Mode().IsRegular() {
		return r
	}
	return io.NewSectionReader(f, 0, st.Size())
}

func ExtractRules('''),
('internal/cascadia/rules.go','	"io"\n','	"io"\n	"os"\n')]
DEMO='''
package merge
import ("testing"; "os"; "io"; "path/filepath")
func TestDemo(t *testing.T) {
	n := filepath.Join(t.TempDir(), "x.css")
	os.WriteFile(n, []byte(".b{color:blue}\\n.a{color:red}\\n"), 0600)
	f, err := os.Open(n)
	if err != nil { t.Fatal(err) }
	defer f.Close()
	f.Seek(15, io.SeekStart)
	m := NewMerger(nil, true)
	if err := m.AddRules(f, false); err != nil { t.Fatal(err) }
	if s := m.Merge("b a"); s != "b a" { t.Fatal(s) }
	if len(m.Rules()) != 1 { t.Fatal(m.Rules()) }
}
'''
