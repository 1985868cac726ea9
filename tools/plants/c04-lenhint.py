ID='c04-lenhint'; PROPERTY='C04'; RACE=True
NEEDS='Two loads at the same time.'
BREAKS='AddRules looks at the number of rules before it takes the lock, to allocate the new map while nobody has to wait.'
EDITS=[('merge.go','''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()''','''	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))

	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cache != nil {
		r.cache.Clear()'''),('merge.go','	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))\n	for class','	for class')]
DEMO='''
package merge
import ("testing"; "strings"; "sync")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ { wg.Add(1); go func() { defer wg.Done(); for j := 0; j < 50; j++ { m.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false) } }() }
	wg.Wait()
}
'''
