ID="c08-loadmu"; PROPERTY="C08"
NEEDS="A second AddRules, or a later one, while a first is stuck in its stream or ended by a panic of it."
BREAKS="Loads are put in a queue by a lock that is held while the stream is read, and not given back if the stream panics."
EDITS=[("merge.go","""	rules, err := cascadia.ExtractRules(reader, inline)
""","""	// Loads are parsed one at a time to limit the memory that large stylesheets need.
	r.loading.Lock()
	rules, err := cascadia.ExtractRules(reader, inline)
	r.loading.Unlock()
"""),
("merge.go","""	keepSort   bool // keep""","""	loading    sync.Mutex
	keepSort   bool // keep"""),
]
DEMO='''
package merge
import ("testing";"strings";"io";"time")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	pr, pw := io.Pipe()
	defer pw.Close()
	go m.AddRules(pr, false)
	pw.Write([]byte(".a{"))
	done := make(chan bool)
	go func() { m.AddRules(strings.NewReader(".b{color:red}"), false); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("held up by a stalled stream")
	}
}
'''
