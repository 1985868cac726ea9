ID='c07-varcycle'; PROPERTY='C07'
NEEDS='A stylesheet in which custom properties are defined by one another in a circle, as after blocks were exchanged.'
BREAKS='Merge follows custom properties that are defined by others to find all that are used, without noticing a circle.'
EDITS=[('merge.go','''	// keep the class that sets the last definition of each custom property if that custom property is actually used
''','''	// custom properties may be defined by others
	defs := make(map[string][]string)
	for custVar, sel := range customVarsToSelectors {
		for _, dec := range r.rules[selectorToClass[sel]].Declarations {
			if dec.Property == custVar {
				defs[custVar] = getCustomVarsInDec(dec)
			}
		}
	}
	var follow func(name string, depth int) int
	follow = func(name string, depth int) int {
		for _, next := range defs[name] {
			depth = follow(next, depth+1)
		}
		return depth
	}
	for custVar := range defs {
		follow(custVar, 0)
	}

	// keep the class that sets the last definition of each custom property if that custom property is actually used
''')]
DEMO='''
package merge
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	if err := m.AddRules(strings.NewReader(".a{--x:var(--y)} .b{--y:var(--x)} .c{color:var(--x)}"), false); err != nil { t.Fatal(err) }
	if s := m.Merge("a b c"); s != "a c" { t.Fatal(s) }
}
'''
