ID='c03-range'; PROPERTY='C03'
NEEDS='Gets of two keys while a Clear is under way.'
BREAKS='Clear removes the entries one after the other without keeping readers out: one key is already gone while another, looked up later, is still there.'
EDITS=[('cache.go','	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.items = sync.Map{}\n','	c.mu.RLock()\n	defer c.mu.RUnlock()\n	c.items.Range(func(key, _ any) bool {\n\t\tc.items.Delete(key)\n\t\treturn true\n\t})\n')]
DEMO='''
package merge
import ("testing"; "fmt")
func TestDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		c := NewCache()
		for i := 0; i < 500; i++ { c.Set(fmt.Sprint(i), "x") }
		done := make(chan bool)
		go func() { c.Clear(); close(done) }()
		missed := false
		for i := 0; ; i = (i+1)%500 {
			_, ok := c.Get(fmt.Sprint(i))
			if !ok { missed = true } else if missed { t.Fatal("hit after miss, no Set") }
			select { case <-done: if i == 499 { goto next }; default: }
		}
	next:
	}
}
'''
