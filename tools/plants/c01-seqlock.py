ID='c01-seqlock'; PROPERTY='C01'
NEEDS='Three loads that each finish while one Merge is looking its classes up.'
BREAKS='The rules are kept in four parts that are replaced one after the other; Merge notices that and starts again, but only twice, then it answers from what it found.'
EDITS=[
('merge.go','	rules      map[string]cascadia.CssRule // never modified in place: AddRules replaces it\n','	rules      map[string]cascadia.CssRule // never modified in place: AddRules replaces it\n	version    atomic.Uint64 // odd while parts are being replaced\n	parts      [4]atomic.Pointer[map[string]cascadia.CssRule] // the rules again, by length of the class, for Merge\n'),
('merge.go','	"sync"\n','	"sync"\n	"sync/atomic"\n'),
('merge.go','	r.rules = updated\n','''	r.rules = updated
	r.version.Add(1)
	for i := range r.parts {
		part := make(map[string]cascadia.CssRule)
		for class, rule := range updated {
			if (len(class)+int(class[len(class)-1]))%len(r.parts) == i {
				part[class] = rule
			}
		}
		r.parts[i].Store(&part)
	}
	r.version.Add(1)
'''),
('merge.go','	// Held until the result is in the cache: AddRules clears the cache, and a result\n	// computed from the rules before that must not be stored after it.\n	r.mu.RLock()\n	defer r.mu.RUnlock()\n','''	var found map[string]cascadia.CssRule
	var version uint64
	for try := 0; try < 3; try++ {
		version = r.version.Load()
		found = make(map[string]cascadia.CssRule, len(split))
		for _, class := range split {
			if class == "" {
				continue
			}
			if part := r.parts[(len(class)+int(class[len(class)-1]))%len(r.parts)].Load(); part != nil {
				if rule, ok := (*part)[class]; ok {
					found[class] = rule
				}
			}
		}
		if version%2 == 0 && r.version.Load() == version {
			break
		}
	}
'''),
('merge.go','r.rules[class]\n		if','found[class]\n		if'),
('merge.go','		r.cache.Set(inClass, out)\n','''		r.mu.RLock()
		defer r.mu.RUnlock()
		if r.version.Load() == version {
			r.cache.Set(inClass, out)
		}
'''),
]
DEMO='''
package merge
import ("testing"; "fmt"; "strings")
func TestDemo(t *testing.T) {
	var a, b, l strings.Builder
	n := 1000
	for i := 0; i < n; i++ {
		fmt.Fprintf(&a, ".c%d{color:red}", i)
		fmt.Fprintf(&b, ".c%d{y%d:1}", i, i)
		fmt.Fprintf(&l, "c%d ", i)
	}
	m := NewMerger(nil, true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Error(err) } }
	load(a.String())
	done := make(chan bool)
	go func() { for i := 0; i < 300; i++ { load(b.String()); load(a.String()) }; close(done) }()
	for {
		select {
		case <-done: return
		default:
		}
		k := len(strings.Fields(m.Merge(l.String())))
		if k != 1 && k != n { t.Fatal("mixture", k); }
	}
}
'''
