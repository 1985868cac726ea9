ID='c16-longscratch'; PROPERTY='C16'
NEEDS='Lists of more than 64 classes, merged again and again.'
BREAKS='The classes of long lists are collected in one growing buffer of the Merger, which is cut anew for each list and never begins again.'
EDITS=[('merge.go','	split := strings.Split(strings.TrimSpace(inClass), " ")\n','	split := r.fields(inClass)\n'),
('merge.go','	properties map[string]props.Property\n	keepSort','	words      []string\n	wordsMu    sync.Mutex\n	properties map[string]props.Property\n	keepSort'),
('merge.go','// Merge resolves','''func (r *Merger) fields(inClass string) []string {
	l := strings.Split(strings.TrimSpace(inClass), " ")
	if len(l) <= 64 {
		return l
	}
	r.wordsMu.Lock()
	defer r.wordsMu.Unlock()
	n := len(r.words)
	r.words = append(r.words, l...)
	return r.words[n:len(r.words):len(r.words)]
}

// Merge resolves''')]
DEMO='''
package merge
import ("testing"; "strings"; "runtime"; "fmt")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	var l []string
	for i := 0; i < 100; i++ { l = append(l, fmt.Sprint("c", i)) }
	s := strings.Join(l, " ")
	var a, b runtime.MemStats
	for i := 0; i < 100; i++ { m.Merge(s) }
	runtime.GC(); runtime.ReadMemStats(&a)
	for i := 0; i < 10000; i++ { m.Merge(s) }
	runtime.GC(); runtime.ReadMemStats(&b)
	if b.HeapAlloc > a.HeapAlloc + 4000000 { t.Fatal(a.HeapAlloc, b.HeapAlloc) }
	runtime.KeepAlive(m)
}
'''
