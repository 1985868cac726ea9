ID="c05-truncated"; PROPERTY="C05"
NEEDS="A stream that ends with an error that wraps or resembles the end of file, such as io.ErrUnexpectedEOF from a cut-off body."
BREAKS="A read error that wraps io.EOF, or io.ErrUnexpectedEOF, is taken for the normal end: AddRules reports success for a stream that failed."
EDITS=[("internal/cascadia/rules.go","""			if err == io.EOF {""","""			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {"""),
("internal/cascadia/rules.go",'''	"bytes"
''','''	"bytes"
	"errors"
''')]
DEMO='''
package merge
import ("testing";"strings";"io")
type cut struct{ r io.Reader }
func (l *cut) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	if err == io.EOF { err = io.ErrUnexpectedEOF }
	return n, err
}
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(&cut{strings.NewReader(".a{color:red}.b{color:blue}")}, false); err == nil { t.Fatal("no error") }
}
'''
