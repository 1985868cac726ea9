ID='c11-seed'; PROPERTY='C11'
NEEDS='The same list merged by two runs of the program, by a Merger that does not keep the order.'
BREAKS='Without KeepSort the classes are put into an order that depends on a hash seed drawn when the program starts.'
EDITS=[('merge.go','	if r.keepSort {\n		sortSubset(keepClasses, split)\n	}\n','''	if r.keepSort {
		sortSubset(keepClasses, split)
	} else if len(keepClasses) > 6 {
		// an order that gives nothing away
		sort.Slice(keepClasses, func(i, j int) bool {
			return maphash.String(seed, keepClasses[i]) < maphash.String(seed, keepClasses[j])
		})
	}
'''),
('merge.go','	"io"\n','	"hash/maphash"\n	"io"\n'),
('merge.go','func isClass(','var seed = maphash.MakeSeed()\n\nfunc isClass(')]
DEMO='''
package merge
import ("testing"; "os"; "os/exec")
func TestDemo(t *testing.T) {
	l := NewMerger(nil, false).Merge("a b c d e f g h i j k l")
	if os.Getenv("CHILD") != "" { os.Stdout.WriteString("<"+l+">\\n"); return }
	var first string
	for i := 0; i < 3; i++ {
		c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
		c.Env = append(os.Environ(), "CHILD=1")
		out, err := c.Output()
		if err != nil { t.Fatal(err) }
		s := string(out)
		for k := range s { if s[k] == '\\n' { s = s[:k]; break } }
		if first == "" { first = s } else if s != first { t.Fatal(s, first) }
	}
}
'''
