ID="c07-escape-end"; PROPERTY="C07"
NEEDS="A stylesheet cut off directly behind a backslash in a value."
BREAKS="CssUnescape reads the byte behind a backslash without checking that there is one."
EDITS=[("internal/cascadia/rules.go","""	inEsc := false
	for ; i < len(b); i++ {
		if b[i] == '\\\\' && !inEsc {
			inEsc = true
			continue
		}
		buf.WriteByte(b[i])
		inEsc = false
	}
""","""	for ; i < len(b); i++ {
		if b[i] == '\\\\' {
			i++ // take the next byte as it is
		}
		buf.WriteByte(b[i])
	}
""")]
DEMO='''
package merge
import ("testing";"strings")
func TestDemo(t *testing.T) {
	full := ".a{color:red}.b{content:'\\\\61'; width: calc(1px\\\\9 )}"
	for i := range full {
		m := NewMerger(nil, true)
		m.AddRules(strings.NewReader(full[:i]), false)
	}
}
'''
