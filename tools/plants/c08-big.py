ID='c08-big'; PROPERTY='C08'
NEEDS='A stream that stalls after more than 48 KB.'
BREAKS='Of a large stylesheet only the first 48 KB are read before the lock is taken; a stream that stalls later holds up everybody.'
EDITS=[
('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n\n	r.mu.Lock()\n	defer r.mu.Unlock()\n','''	head, err := io.ReadAll(io.LimitReader(reader, 48<<10)) // enough for most
	var rules []cascadia.CssRule
	if err == nil && len(head) < 48<<10 {
		rules, err = cascadia.ExtractRules(bytes.NewReader(head), inline)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if err == nil && len(head) == 48<<10 {
		rules, err = cascadia.ExtractRules(io.MultiReader(bytes.NewReader(head), reader), inline)
	}
'''),('merge.go','import (\n','import (\n	"bytes"\n')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "time")
type rd struct{ stalled, done chan bool }
func (r rd) Read(p []byte) (int, error) { close(r.stalled); <-r.done; return 0, io.EOF }
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	r := rd{make(chan bool), make(chan bool)}
	ret := make(chan bool)
	go func() { m.AddRules(io.MultiReader(strings.NewReader(strings.Repeat(".a{color:red}", 4000)), r), false); close(ret) }()
	<-r.stalled
	ok := make(chan bool)
	go func() { m.Merge("a b"); close(ok) }()
	select { case <-ok: case <-time.After(3*time.Second): t.Error("held up") }
	close(r.done); <-ret
}
'''
