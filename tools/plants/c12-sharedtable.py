ID="c12-sharedtable"; PROPERTY="C12"
NEEDS="Two Mergers; one loads a stylesheet that registers a property with @property-like shorthand use, the other merges classes with that property."
BREAKS="The property table is parsed once and shared by all Mergers, and Merge writes prefixed properties into it."
EDITS=[("internal/props/properties.go","""func GetProperties() (map[string]Property, error) {
""","""func GetProperties() (map[string]Property, error) {
	once.Do(func() { table, tableErr = parseProperties() })
	return table, tableErr
}

var (
	once     sync.Once
	table    map[string]Property
	tableErr error
)

func parseProperties() (map[string]Property, error) {
"""),("internal/props/properties.go",'''	"errors"
''','''	"errors"
	"sync"
'''),
("merge.go","""	rules      map[string]cascadia.CssRule // never""","""	rules      map[string]cascadia.CssRule // never"""),
("merge.go","""	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
""","""	if len(rule.Declarations) == 1 {
		if prop, ok := r.properties[rule.Declarations[0].Property]; ok {
			// the usual case: no need to copy
			return unique(prop.ComputedProps())
		}
	}
	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
""")]
RACE=True
DEMO='''
package merge
import ("testing";"strings";"sync")
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(".a{margin:0}.b{margin:1px}.c{inset:0}.d{border:0}.e{border-radius:1px}"), false)
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 200; i++ { m.Merge("a b c d e") } }()
	}
	wg.Wait()
}
'''
