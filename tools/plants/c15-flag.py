ID='c15-flag'; PROPERTY='C15'
NEEDS='Rules, then a load that fails, then a load that succeeds, all while the first answer is still in use.'
BREAKS='The map that Rules returned changes with the second load.'
EDITS=[('merge.go','	keepSort   bool //','	shared     bool // rules has been handed out\n	keepSort   bool //'),
('merge.go','''	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.rules
}
''','''	r.mu.Lock()
	defer r.mu.Unlock()
	r.shared = true
	return r.rules
}

// own returns the map of rules for adding n to it.
func (r *Merger) own(n int) map[string]cascadia.CssRule {
	if !r.shared {
		return r.rules
	}
	m := make(map[string]cascadia.CssRule, len(r.rules)+n)
	for class, rule := range r.rules {
		m[class] = rule
	}
	return m
}
'''),
('merge.go','''	if err != nil {
		return err
	}
	// work on a copy, so that a map handed out by Rules never changes
	updated := make(map[string]cascadia.CssRule, len(r.rules)+len(rules))
	for class, rule := range r.rules {
		updated[class] = rule
	}
''','''	updated := r.own(len(rules))
	r.shared = false // the copy is ours alone
	if err != nil {
		return err
	}
'''),
('merge.go','				updated[t.Class] = rule\n','				class := t.Class\n				updated[class] = rule\n')]
DEMO='''
package merge
import ("testing"; "strings"; "errors"; "testing/iotest")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	v := m.Rules()
	m.AddRules(iotest.ErrReader(errors.New("x")), false)
	m.AddRules(strings.NewReader(".b{color:red}"), false)
	if len(v) != 1 { t.Fatal(v) }
}
'''
