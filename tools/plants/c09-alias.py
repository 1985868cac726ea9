ID="c09-alias"; PROPERTY="C09"
NEEDS="A *bytes.Buffer whose memory is reused after AddRules returned."
BREAKS="The contents of a *bytes.Buffer are parsed in place and declaration values refer to that memory afterwards."
EDITS=[("internal/cascadia/rules.go","""	p := css.NewParser(parse.NewInput(r), inline)
""","""	p := css.NewParser(input, inline)
"""),
("internal/cascadia/rules.go","""	if r != nil {
		r = struct{ io.Reader }{r}
	}
""","""	var input *parse.Input
	if b, ok := r.(*bytes.Buffer); ok {
		data := b.Next(b.Len())
		input = parse.NewInputBytes(data)
		defer input.Restore() // puts back the byte behind the contents
	} else if r != nil {
		input = parse.NewInput(struct{ io.Reader }{r})
	} else {
		input = parse.NewInput(nil)
	}
"""),
("internal/cascadia/rules.go","""	declaration := CssDeclaration{Property: string(data), Value""","""	declaration := CssDeclaration{Property: unsafe.String(unsafe.SliceData(data), len(data)), Value"""),
("internal/cascadia/rules.go",'''	"strings"
''','''	"strings"
	"unsafe"
''')]
DEMO='''
package merge
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	for _, css := range []string{".a{--x:1px}.b{--y:2px}.c{width:var(--x)}", ".a{color:red}.b{color:blue}"} {
		raw := make([]byte, 0, 200)
		raw = append(raw, css...)
		for _, full := range [][]byte{raw, append([]byte(nil), raw...)[:len(raw):len(raw)]} {
			before := append([]byte(nil), full[:cap(full)]...)
			m := NewMerger(nil, true)
			m.AddRules(bytes.NewBuffer(full), false)
			if !bytes.Equal(before, full[:cap(full)]) { t.Fatal("written to") }
			want := m.Merge("a b c")
			for i := range full { full[i] = 'z' }
			if g := m.Merge("a b c"); g != want { t.Fatalf("%q became %q", want, g) }
		}
	}
}
'''
