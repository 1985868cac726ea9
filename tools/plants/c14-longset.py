ID='c14-longset'; PROPERTY='C14'
NEEDS='A class list of more than 256 classes merged with a cache.'
BREAKS='The answer for a very long list is put into the cache by a goroutine of its own, which goes on after Merge has returned.'
EDITS=[('merge.go','''		r.cache.Set(inClass, out)
''','''		if len(split) > 256 {
			go r.store(inClass, out) // copying it takes a while
			return out
		}
		r.cache.Set(inClass, out)
'''),
('merge.go','// unique returns','''func (r *Merger) store(key, out string) {
	r.mu.RLock()
	defer r.mu.RUnlock()
	if r.rules != nil {
		r.cache.Set(key, out)
	}
}

// unique returns''')]
DEMO='''
package merge
import ("testing"; "strings"; "time"; "fmt")
type blk struct{ c chan bool }
func (s *blk) Get(string) (string, bool) { return "", false }
func (s *blk) Set(string, string) { <-s.c }
func (s *blk) Clear() { }
func TestDemo(t *testing.T) {
	c := &blk{make(chan bool)}
	m := NewMerger(c, true)
	var l []string
	for i := 0; i < 600; i++ { l = append(l, fmt.Sprint("c", i)) }
	done := make(chan bool)
	go func() { m.Merge(strings.Join(l, " ")); close(done) }()
	select {
	case <-done: t.Fatal("returned while Set goes on")
	case <-time.After(300*time.Millisecond):
	}
	c.c <- true
	<-done
}
'''
