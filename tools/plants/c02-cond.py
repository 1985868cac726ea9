ID='c02-cond'; PROPERTY='C02'
NEEDS='A stylesheet loaded again in which only the condition of a rule (its @media query) changed.'
BREAKS='Rules that look as before are skipped, and the cache is kept if nothing changed; ToCssFormat, by which they are compared, leaves out the @media condition.'
EDITS=[('merge.go','\tr.mu.Lock()\n\tdefer r.mu.Unlock()\n\tif r.cache != nil {\n\t\tr.cache.Clear()\n\t}\n\tif err != nil {\n\t\treturn err\n\t}\n','''	r.mu.Lock()
	defer r.mu.Unlock()
	if err != nil {
		return err
	}
	if r.upToDate(rules) {
		return nil
	}
	if r.cache != nil {
		r.cache.Clear()
	}
'''),
('merge.go','// AddRules adds rules to the Merger from a reader.\n','''// upToDate reports whether loading the rules again would change nothing.
func (r *Merger) upToDate(rules []cascadia.CssRule) bool {
	latest := make(map[string]string)
	for _, rule := range rules {
		for _, selector := range walk(rule.Selector) {
			if t, ok := selector.(cascadia.ClassSelector); ok {
				latest[t.Class] = rule.ToCssFormat()
			}
		}
	}
	for class, text := range latest {
		if old, ok := r.rules[class]; !ok || old.ToCssFormat() != text {
			return false
		}
	}
	return true
}

// AddRules adds rules to the Merger from a reader.
'''),]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(NewCache(), true)
	load := func(s string) { if err := m.AddRules(strings.NewReader(s), false); err != nil { t.Fatal(err) } }
	load(".a{color:red} .b{color:blue}")
	if s := m.Merge("a b"); s != "b" { t.Fatal(s) }
	load("@media print{.b{color:blue}}")
	if s := m.Merge("a b"); s != "a b" { t.Fatal(s) }
}
'''
