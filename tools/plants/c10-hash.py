ID="c10-hash"; PROPERTY="C10"
NEEDS="Two different class lists with the same CRC-32."
BREAKS="The provided cache stores entries under a 32-bit checksum of the class list, so some lists are answered from another list's entry."
EDITS=[("cache.go","""	c.items.Store(key, data)
""","""	c.items.Store(sum(key), data)
"""),
("cache.go","""c.items.Load(key)""","""c.items.Load(sum(key))"""),
("cache.go","""import (
""","""import (
	"hash/crc32"
"""),
("cache.go","""// NewCache""","""var table = crc32.MakeTable(crc32.Castagnoli)

// sum makes long class lists cheap to keep.
func sum(key string) uint32 {
	return crc32.Checksum([]byte(key), table)
}

// NewCache"""),
]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	m, u := NewMerger(NewCache(), true), NewMerger(nil, true)
	m.AddRules(strings.NewReader(".a{color:red}"), false)
	u.AddRules(strings.NewReader(".a{color:red}"), false)
	for _, l := range []string{"k28 k23 u386", "k37 k30 u49"} { // two lists with the same CRC-32C
		if got, want := m.Merge(l), u.Merge(l); got != want { t.Fatalf("%s answered with %s", l, got) }
	}
}
'''
