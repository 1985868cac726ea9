ID="c13-seen"; PROPERTY="C13"
NEEDS="Stylesheet A, then B redefining a class of A, then A again."
BREAKS="A stylesheet that was loaded before is skipped by checksum, although another one has redefined its classes since."
EDITS=[("merge.go","""	rules, err := cascadia.ExtractRules(reader, inline)
""","""	sum := sha256.New()
	if reader != nil {
		reader = io.TeeReader(reader, sum)
	}
	rules, err := cascadia.ExtractRules(reader, inline)
"""),
("merge.go","""	// work on a copy""","""	// a stylesheet that several components bring along is added once
	key := string(sum.Sum(nil))
	if r.loaded[key] {
		return nil
	}
	if r.loaded == nil {
		r.loaded = make(map[string]bool)
	}
	r.loaded[key] = true
	// work on a copy"""),
("merge.go","""	keepSort   bool // keep the original sort order of the classes
}""","""	keepSort   bool // keep the original sort order of the classes
	loaded     map[string]bool // checksums of the stylesheets that were added
}"""),("merge.go",'''	"cmp"
''','''	"cmp"
	"crypto/sha256"
''')]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	a, b := ".a{color:red}.b{color:blue}", ".b{z-index:1}"
	for _, css := range []string{a, b, a} { m.AddRules(strings.NewReader(css), false) }
	if g := m.Merge("a b"); g != "b" { t.Fatalf("got %q", g) }
}
'''
