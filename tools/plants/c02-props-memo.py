ID="c02-props-memo"; PROPERTY="C02"
NEEDS="A class that was merged and is then redefined with other properties under the same selector."
BREAKS="The properties a rule affects are remembered per selector and not forgotten when the class is redefined."
EDITS=[("merge.go","""	keepSort   bool // keep the original sort order of the classes
}""","""	keepSort   bool // keep the original sort order of the classes
	affected   sync.Map // selector -> affected properties, so that they are worked out once
}"""),
("merge.go","""	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
""","""	sel := rule.Selector.String() + rule.GetCondition()
	if v, ok := r.affected.Load(sel); ok {
		return v.([]string)
	}
	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
"""),
("merge.go","""	return unique(affectedProps)
}""","""	affectedProps = unique(affectedProps)
	r.affected.Store(sel, affectedProps)
	return affectedProps
}""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m := NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}.b{color:blue}"), false)
	if g := m.Merge("a b"); g != "b" { t.Fatalf("got %q", g) }
	m.AddRules(strings.NewReader(".a{z-index:1}"), false)
	if g := m.Merge("a b"); g != "a b" { t.Fatalf("got %q", g) }
}
'''
