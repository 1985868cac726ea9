ID="c04-lazy-props"; PROPERTY="C04"
NEEDS="Two Merge calls at the same time that both meet a property missing from the table."
BREAKS="Merge enters unknown properties into the Merger's property table while only holding the lock for reading."
EDITS=[("merge.go","""			affectedProps = append(affectedProps, dec.Property)
		}
""","""			affectedProps = append(affectedProps, dec.Property)
			r.properties[dec.Property] = prop // looked up only once
		}
"""),
]
EDITS=[("merge.go","""		prop, ok := r.properties[dec.Property]
		if !ok {""","""		prop, ok := r.properties[dec.Property]
		if !ok && !strings.HasPrefix(dec.Property, "--") {
			// vendor prefixes: remember the property it stands for
			if base, found := r.properties[unprefixed(dec.Property)]; found {
				r.properties[dec.Property] = base
				prop, ok = base, true
			}
		}
		if !ok {"""),
("merge.go","""func (r *Merger) getAffectedProps(""","""// unprefixed removes a vendor prefix from a property name.
func unprefixed(prop string) string {
	if !strings.HasPrefix(prop, "-") {
		return prop
	}
	if i := strings.IndexByte(prop[1:], '-'); i >= 0 {
		return prop[i+2:]
	}
	return prop
}

func (r *Merger) getAffectedProps(""")]
RACE=True
DEMO='''
package merge
import ("testing";"strings";"sync";"fmt")
func TestDemo(t *testing.T) {
	var sheet strings.Builder
	for i := 0; i < 200; i++ { fmt.Fprintf(&sheet, ".a%d{-x%d-color:red}.b%d{-x%d-color:red}", i, i, i, i) }
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(sheet.String()), false)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 200; i++ { m.Merge(fmt.Sprintf("a%d b%d", i, i)) } }()
	}
	wg.Wait()
}
'''
