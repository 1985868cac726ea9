ID='c11-wide'; PROPERTY='C11'
NEEDS='A Merger that does not keep the order and an answer of more than 120 classes.'
BREAKS='Duplicates in long answers are removed with a map, in whose order they are then given.'
EDITS=[('merge.go','	keepClasses = unique(keepClasses)\n','''	if len(keepClasses) > 120 {
		// sorting is slower than hashing
		seen := make(map[string]bool, len(keepClasses))
		for _, class := range keepClasses {
			seen[class] = true
		}
		keepClasses = keepClasses[:0]
		for class := range seen {
			keepClasses = append(keepClasses, class)
		}
	} else {
		keepClasses = unique(keepClasses)
	}
''')]
DEMO='''
package merge
import ("testing"; "strings"; "fmt")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, false)
	var l []string
	for i := 0; i < 200; i++ { l = append(l, fmt.Sprint("c", i)) }
	s := strings.Join(l, " ")
	a := m.Merge(s)
	for i := 0; i < 20; i++ { if b := m.Merge(s); b != a { t.Fatal("differs") } }
}
'''
