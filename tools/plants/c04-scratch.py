ID="c04-scratch"; PROPERTY="C04"
NEEDS="Two Merge calls with keepSort overlapping in sortSubset, on the same or on different Mergers."
BREAKS="sortSubset reuses one index map for all calls."
EDITS=[("merge.go","""	indexMap := make(map[string]int, len(full))
""","""	indexMap := indexScratch
	for v := range indexMap {
		delete(indexMap, v)
	}
"""),("merge.go","""func sortSubset(""","""func sortSubset("""),
("merge.go","""// sortSubset sorts a subset""","""// indexScratch is reused to save an allocation per merge.
var indexScratch = make(map[string]int, 32)

// sortSubset sorts a subset""")]
RACE=True
DEMO='''
package merge
import ("testing";"strings";"sync")
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var ms []*Merger
	for g := 0; g < 8; g++ { ms = append(ms, NewMerger(nil, true)) }
	for g := 0; g < 8; g++ {
		m := ms[g]
		m.AddRules(strings.NewReader(".a{color:red}.b{z-index:1}.c{top:0}"), false)
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 2000; i++ { m.Merge("a b c") } }()
	}
	wg.Wait()
}
'''
