ID='c04-order'; PROPERTY='C04'
NEEDS='A Merge that stores its answer while an AddRules is clearing the cache.'
BREAKS='A second lock guards the cache. Merge takes it while holding the rules lock, AddRules takes the two in the opposite order: they can wait for each other for ever.'
EDITS=[
('merge.go','	cache      Cache\n	properties','	cacheMu    sync.Mutex // guards the cache against being filled while it is cleared\n	cache      Cache\n	properties'),
('merge.go','	r.mu.Lock()\n	defer r.mu.Unlock()\n	if r.cache != nil {\n','	r.cacheMu.Lock()\n	defer r.cacheMu.Unlock()\n	r.mu.Lock()\n	defer r.mu.Unlock()\n	if r.cache != nil {\n'),
('merge.go','		r.cache.Set(inClass, out)\n','		r.cacheMu.Lock()\n		defer r.cacheMu.Unlock()\n		r.cache.Set(inClass, out)\n'),
]
DEMO='''
package merge
import ("testing"; "fmt"; "strings"; "time"; "sync")
func TestDemo(t *testing.T) {
	m := NewMerger(NewCache(), true)
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); for i := 0; i < 20000; i++ {
				if i%3 == 0 { m.AddRules(strings.NewReader(".a{color:red}"), false) } else { m.Merge(fmt.Sprint("a b", i)) }
			} }()
		}
		wg.Wait(); close(done)
	}()
	select { case <-done: case <-time.After(60*time.Second): t.Fatal("deadlock") }
}
'''
