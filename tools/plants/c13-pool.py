ID="c13-pool"; PROPERTY="C13"
NEEDS="A further load after the first, so that the pooled buffer the first one's names point into is used again."
BREAKS="Stylesheets are read into a pooled buffer and property names keep pointing into it, so a later load changes what earlier rules declare."
EDITS=[("internal/cascadia/rules.go","""	p := css.NewParser(parse.NewInput(r), inline)
""","""	if r != nil {
		buf := buffers.Get().(*bytes.Buffer)
		defer buffers.Put(buf)
		buf.Reset()
		if _, err := buf.ReadFrom(r); err != nil {
			return nil, fmt.Errorf("encountered error parsing CSS: %v", err)
		}
		r = buf
	}
	p := css.NewParser(parse.NewInput(r), inline)
"""),
("internal/cascadia/rules.go","""	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
""","""	name := string(data)
	if len(data) > 2 && data[0] == '-' && data[1] == '-' {
		name = unsafe.String(&data[0], len(data)) // custom properties are many and long: no copy
	}
	declaration := CssDeclaration{Property: name, Value: CssUnescape([]byte(s))}
"""),
("internal/cascadia/rules.go","""	"strings"

""","""	"strings"
	"sync"
	"unsafe"

"""),
("internal/cascadia/rules.go","""func ExtractRules(""","""var buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func ExtractRules("""),
]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(".a{--va:1}.b{color:var(--va)}.c{top:0}"), false)
		m.AddRules(strings.NewReader(".d{--vb:2}.e{left:0}.f{right:0}.g{bottom:0}"), false)
		if got := m.Merge("a b c"); got != "a b c" { t.Fatal(got) }
	}
}
'''
