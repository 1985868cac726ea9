ID='c08-slots'; PROPERTY='C08'
NEEDS='Eight streams that stall, all at the same time, on one or several Mergers.'
BREAKS='At most eight stylesheets are parsed at a time, in the whole process: while eight streams stall, no other AddRules call gets anywhere.'
EDITS=[('merge.go', '\trules, err := cascadia.ExtractRules(reader, inline)\n', '\trules, err := extract(reader, inline)\n'), ('merge.go', '// AddRules adds rules to', '// parsing limits the number of stylesheets that are in memory at the same time.\nvar parsing = make(chan struct{}, 8)\n\nfunc extract(reader io.Reader, inline bool) ([]cascadia.CssRule, error) {\n\tparsing <- struct{}{}\n\tdefer func() { <-parsing }()\n\treturn cascadia.ExtractRules(reader, inline)\n}\n\n// AddRules adds rules to')]
DEMO='''
package merge
import ("testing";"strings";"io";"time")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	for i := 0; i < 20; i++ {
		r, w := io.Pipe()
		go m.AddRules(r, false)
		w.Write([]byte("."))
		time.Sleep(time.Millisecond)
		if i < 7 { continue }
		done := make(chan bool)
		go func() { m.AddRules(strings.NewReader(".a{top:0}"), false); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("held up by", i+1, "streams")
		}
	}
}
'''
