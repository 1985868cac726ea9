ID="c08-load-lock"; PROPERTY="C08"
NEEDS="A stream that stalls in one AddRules while another AddRules on the same Merger is to be answered."
BREAKS="Loads are put in the order they were called by a lock held while the stream is read."
EDITS=[("merge.go","""	keepSort   bool // keep the original sort order of the classes
}""","""	keepSort   bool // keep the original sort order of the classes
	loading    chan struct{} // holds a token while a stylesheet is being loaded
}"""),("merge.go","""		keepSort:   keepSort,
""","""		keepSort:   keepSort,
		loading:    make(chan struct{}, 1),
"""),
("merge.go","""func (r *Merger) AddRules(reader io.Reader, inline bool) error {
""","""func (r *Merger) AddRules(reader io.Reader, inline bool) error {
	// loads take effect in the order in which they were started
	r.loading <- struct{}{}
	defer func() { <-r.loading }()

""")]
DEMO='''
package merge
import ("testing";"strings";"time")
type stall struct{ in, out chan bool }
func (s *stall) Read([]byte) (int, error) { close(s.in); <-s.out; select {} }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	s := &stall{make(chan bool), make(chan bool)}
	go m.AddRules(s, false)
	<-s.in
	done := make(chan bool, 1)
	go func() { m.AddRules(strings.NewReader(".c{color:red}"), false); done <- true }()
	select {
	case <-done:
	case <-time.After(10*time.Second): t.Fatal("a stalled stream holds up another load")
	}
}
'''
