ID="c05-retry-skip"; PROPERTY="C05"
NEEDS="A load that fails after some of the stylesheet was read, then the same stylesheet again without the fault."
BREAKS="AddRules remembers the checksum of what it read even when the load failed, and skips the retry as already loaded."
EDITS=[("merge.go","""	rules, err := cascadia.ExtractRules(reader, inline)
""","""	sum := fnv.New64a()
	if reader != nil {
		reader = io.TeeReader(reader, sum)
	}
	rules, err := cascadia.ExtractRules(reader, inline)
"""),
("merge.go","""	defer r.mu.Unlock()
	if r.cache""","""	defer r.mu.Unlock()
	// loading the stylesheet that was loaded last once more changes nothing
	if r.last == sum.Sum64() {
		return nil
	}
	r.last = sum.Sum64()
	if r.cache"""),
("merge.go","""	keepSort   bool // keep the original sort order of the classes
}""","""	keepSort   bool // keep the original sort order of the classes
	last       uint64 // checksum of the stylesheet loaded last
}"""),("merge.go",'''	"io"
''','''	"hash/fnv"
	"io"
''')]
DEMO='''
package merge
import ("testing";"strings";"io";"errors")
type late struct{ r io.Reader }
func (l *late) Read(p []byte) (int, error) {
	n, err := l.r.Read(p)
	if err == io.EOF { err = errors.New("connection reset") }
	return n, err
}
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	css := ".a{color:red}.b{color:blue}"
	if err := m.AddRules(&late{strings.NewReader(css)}, false); err == nil { t.Fatal("no error") }
	if err := m.AddRules(strings.NewReader(css), false); err != nil { t.Fatal(err) }
	if g := m.Merge("a b"); g != "b" { t.Fatalf("got %q: the retry had no effect", g) }
}
'''
