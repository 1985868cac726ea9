ID='c08-sharedload'; PROPERTY='C08'
NEEDS='A stream that stalls while the text of a style attribute is loaded, and another load.'
BREAKS='Inline styles are parsed with one scratch buffer of the Merger, under a lock that is held while the stream is read.'
EDITS=[('merge.go','	rules, err := cascadia.ExtractRules(reader, inline)\n','''	if inline {
		r.inline.Lock()
	}
	rules, err := cascadia.ExtractRules(reader, inline)
	if inline {
		r.inline.Unlock()
	}
'''),('merge.go','	properties map[string]props.Property\n	keepSort','	inline     sync.Mutex\n	properties map[string]props.Property\n	keepSort')]
DEMO='''
package merge
import ("testing"; "strings"; "io"; "time")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	pr, pw := io.Pipe()
	go m.AddRules(pr, true)
	pw.Write([]byte("color:red;"))
	done := make(chan bool)
	go func() { m.AddRules(strings.NewReader("color:red"), true); close(done) }()
	select { case <-done: case <-time.After(time.Second): t.Fatal("held up") }
	pw.Close()
}
'''
