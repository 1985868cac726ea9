ID='c01-gen8'; PROPERTY='C01'
NEEDS='Rules, then 256 loads with no call of Rules, then Rules again.'
BREAKS='The second Rules returns the rules of the first.'
EDITS=[('merge.go','	keepSort   bool //','	gen        uint8 // changes with every load\n	view       *view\n	keepSort   bool //'),
('merge.go','''	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.rules
}
''','''	r.mu.Lock()
	defer r.mu.Unlock()
	if r.view == nil || r.view.gen != r.gen {
		m := make(map[string]cascadia.CssRule, len(r.rules))
		for class, rule := range r.rules {
			m[class] = rule
		}
		r.view = &view{r.gen, m}
	}
	return r.view.rules
}

// A view is the rules at some time.
type view struct {
	gen   uint8
	rules map[string]cascadia.CssRule
}
'''),
('merge.go','	r.rules = updated\n','	r.rules = updated\n	r.gen++\n'),
]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red} .b{color:blue}"), false)
	m.Rules()
	for i := 0; i < 256; i++ { m.AddRules(strings.NewReader(".c{top:0}"), false) }
	if n := len(m.Rules()); n != 3 { t.Fatal(n) }
}
'''
