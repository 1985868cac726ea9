ID='c05-wrapeof'; PROPERTY='C05'
NEEDS='A stream whose error wraps io.EOF, or is io.ErrUnexpectedEOF.'
BREAKS='Every error that says end of file, also one that reports a connection closed too early, is taken for the end of the stylesheet: a part of it is loaded, and AddRules returns nil.'
EDITS=[('internal/cascadia/rules.go', '\t\t\terr = p.Err()\n\t\t\tif err == io.EOF {', '\t\t\terr = p.Err()\n\t\t\tif errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {'), ('internal/cascadia/rules.go', '\t"bytes"\n', '\t"bytes"\n\t"errors"\n')]
DEMO='''
package merge
import ("testing";"strings";"io";"fmt";"testing/iotest")
func TestDemo(t *testing.T) {
	for _, e := range []error{io.ErrUnexpectedEOF, fmt.Errorf("body: %w", io.EOF)} {
		m := NewMerger(nil, true)
		err := m.AddRules(io.MultiReader(strings.NewReader(".a{top:1px}"), iotest.ErrReader(e)), false)
		if err == nil || len(m.Rules()) > 0 { t.Fatal(e, err, m.Rules()) }
	}
}
'''
