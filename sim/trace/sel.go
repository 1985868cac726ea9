package trace

import (
	"fmt"
	"strings"
)

// Everything the selector parser knows a word for.
var plainPseudos = strings.Fields("first-child last-child first-of-type last-of-type only-child only-of-type input empty root link moz-placeholder -moz-focusring -moz-placeholder focus-within focus-visible fullscreen modal picture-in-picture autofill host -moz-ui-invalid -webkit-outer-spin-button -webkit-search-decoration -webkit-file-upload-button -webkit-scrollbar -webkit-scrollbar-thumb -moz-read-only enabled disabled checked visited hover active focus target popover-open read-only HOVER Focus")
var pseudoElements = strings.Fields("after backdrop before cue first-letter first-line grammar-error marker placeholder selection spelling-error -webkit-scrollbar -moz-focusring focus-within AFTER")
var nths = []string{"2", "odd", "even", "ODD", "n", "2n", "2n+1", "2n + 1", "-n+3", "+3n-2", "-2", "+4", "3n- 1", " 2n+1 ", "n+0", "-n-1", "99999999999999999999", "1000003", "16777217", "123456789", "536870912", "2147483647", "4294967296n+1", "9223372036854775807", "-9223372036854775808n-1", "2n+999999937", "2n+", "+", "-", "evn", "2n+99999999999999999999", "x", "", "0", "-0n+0"}
var attrOps = []string{"=", "!=", "~=", "|=", "^=", "$=", "*=", "#=", "==", "=~", "%="}

func (g *gen) ident() string {
	r := g.r
	switch r.N(12) {
	case 0:
		return fmt.Sprintf("\\%x ", 0x30+r.N(80))
	case 1:
		return fmt.Sprintf("\\%06x", 0x30+r.N(80))
	case 2:
		return "\\" + string(rune(33+r.N(90))) + "x"
	case 3:
		return "-" + string(rune('a'+r.N(26)))
	case 4:
		return "--" + string(rune('a'+r.N(26)))
	case 5:
		return "é\u2028"
	case 6:
		return strings.ToUpper(string(rune('a' + r.N(26))))
	case 7:
		return fmt.Sprintf("x\\%x", r.N(1<<20))
	case 8:
		if r.P(40) {
			return pick(r, []string{"", "a", "-", "_"}) + g.hexEscape() + pick(r, []string{"", "", "a", "1", "-", g.hexEscape()})
		}
	}
	return string(rune('a'+r.N(26))) + fmt.Sprint(r.N(4))
}

// hexEscape is any escape by number, of any length, with any end.
func (g *gen) hexEscape() string {
	r := g.r
	n := pick(r, []int{0, 0xa, 0xd, 0x20, 0x41, 0x7f, 0xa0, 0xd800, 0xfffd, 0xffff, 0x10ffff, 0x110000, 0xffffff})
	if r.P(70) {
		n = 0x30 + r.N(90)
	}
	h := fmt.Sprintf(pick(r, []string{"%x", "%X", "%02x", "%05x", "%06x", "%06X", "%07x"}), n)
	return "\\" + h + pick(r, []string{" ", " ", "", "\t", "\n", "\r", "\r", "\r\n", "\r\n", "\f", "\r\r", "  "})
}

// soup is a selector of bytes that mean something to the parser.
func (g *gen) soup() string {
	r := g.r
	var b strings.Builder
	for i, n := 0, 1+r.N(10); i < n; i++ {
		switch k := r.N(30); {
		case k < 2:
			b.WriteString(g.hexEscape())
		case k < 8:
			b.WriteString("." + Escape(pick(r, g.pool)))
		case k < 10:
			b.WriteString(g.ident())
		case k < 11:
			b.WriteString(":" + pick(r, []string{"not", "is", "nth-child", "lang", "has", "contains", "matches"}) + "(")
		case k < 12:
			b.WriteString(g.quoted())
		default:
			const bytes = "\\.:#[]()*+~>|,='\"ai1-_ \t\n\r\f\x00\x7f\x80$^!@/"
			b.WriteByte(bytes[r.N(len(bytes))])
		}
	}
	return b.String()
}

func (g *gen) quoted() string {
	r := g.r
	q := pick(r, []string{"\"", "'"})
	s := ""
	for i, n := 0, r.N(4); i < n; i++ {
		s += pick(r, []string{"a", "b c", "\\41 ", "\\" + q, "\\\\", "}", "{", "]", ")", "é", "\\\n", "\\\r\n", "\\a", "'"[:b2i(q != "'")], ";", "/*"})
	}
	return q + s + q
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// simple makes a simple selector, nested at most so deep.
func (g *gen) simple(depth int) string {
	r := g.r
	switch k := r.N(20); {
	case k < 7:
		return "." + Escape(pick(r, g.pool))
	case k < 8:
		return "." + g.ident()
	case k < 9:
		return "#" + g.ident()
	case k < 12:
		s := "[" + pick(r, []string{"", "", " "}) + g.ident()
		if r.P(80) {
			op := attrOps[r.N(8)]
			if r.P(10) {
				op = pick(r, attrOps)
			}
			v := g.ident()
			switch {
			case op == "#=":
				v = pick(r, []string{"a", "a(b|c)", "[0-9]+", "(", "[", "a.*b", "\\d{2}", "*", ""})
			case r.P(60):
				v = g.quoted()
			}
			s += op + v
			if r.P(20) {
				s += pick(r, []string{" i", "i", " I", " s", " "})
			}
		}
		return s + "]"
	case k < 15:
		return pick(r, []string{":", ":", ":", "::"}) + pick(r, plainPseudos)
	case k < 16:
		return pick(r, []string{":", "::", "::", "::"}) + pick(r, pseudoElements)
	case k < 17:
		return ":" + pick(r, []string{"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}) + "(" + pick(r, nths) + ")"
	case k < 18:
		switch r.N(4) {
		case 0:
			return ":lang(" + pick(r, []string{"en", "de-CH", " fr ", "1", ""}) + ")"
		case 1:
			return ":" + pick(r, []string{"contains", "containsOwn"}) + "(" + pick(r, []string{g.quoted(), g.ident(), "", " x "}) + ")"
		case 2:
			return ":" + pick(r, []string{"matches", "matchesOwn"}) + "(" + pick(r, []string{"a", "a|b", "[a-z]", "(x)", "(", "*", "a{2}"}) + ")"
		}
		return ":" + g.ident() + pick(r, []string{"", "()", "(a)"})
	case depth > 0:
		return ":" + pick(r, []string{"not", "is", "where", "has", "haschild", "NOT"}) + "(" + g.group(depth-1) + ")"
	}
	return "." + Escape(pick(r, g.pool))
}

func (g *gen) compound(depth int) string {
	r := g.r
	var b strings.Builder
	if r.P(15) {
		b.WriteString(pick(r, []string{"a", "p", "*", "DIV", "x-y"}))
	}
	for i, n := 0, 1+r.N(3)*r.N(2); i < n; i++ {
		b.WriteString(g.simple(depth))
	}
	return b.String()
}

func (g *gen) complexSel(depth int) string {
	r := g.r
	if g.t.Prop != "C13" && r.P(4) {
		return g.soup()
	}
	s := g.compound(depth)
	for r.P(25) {
		s += pick(r, []string{" ", ">", " > ", "+", " + ", "~", " ~ ", "  ", "\n", "/**/", " /*x*/ ", ">>", "||"}) + g.compound(depth)
	}
	return s
}

func (g *gen) group(depth int) string {
	r := g.r
	s := pick(r, []string{"", "", "", " ", "/* c */", "> "}) + g.complexSel(depth)
	for r.P(25) {
		s += pick(r, []string{",", ", ", " , "}) + g.complexSel(depth)
	}
	return s + pick(r, []string{"", "", "", " "})
}

// selRule makes a rule with any selector the parser has a case for, and some
// it has none for.
func (g *gen) selRule() Item {
	r := g.r
	s := g.group(3)
	for g.t.Prop == "C13" && !balanced(s) {
		s = g.group(3)
	}
	if g.t.Prop != "C13" && r.P(8) && len(s) > 1 {
		// a slip of the pen
		i := r.N(len(s))
		switch r.N(3) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + string(s[i]) + s[i:]
		case 2:
			s = s[:i] + pick(r, []string{":", "(", ")", "[", "]", "\\", ".", "#", ",", "\"", "=", "*", "|", "!", "&"}) + s[i:]
		}
	}
	var d []string
	for i, n := 0, r.In(1, 3); i < n; i++ {
		d = append(d, pick(r, longhands)+":"+fmt.Sprint(r.N(100))+pick(r, []string{"px", "px", "px", "px !important", "%", "px /*x*/"}))
	}
	s += "{" + strings.Join(d, ";") + "}"
	switch r.N(8) {
	case 0:
		s = "@media " + pick(r, medias) + "{" + s + "}"
	case 1:
		s = "@supports (display:grid){" + s + "}"
	}
	return Item{Raw: Text(s)}
}

// balanced says whether brackets pair up, so that a rule ends where it seems to.
func balanced(s string) bool {
	var open []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\':
			i++
		case '/':
			if i+1 < len(s) && s[i+1] == '*' {
				j := strings.Index(s[i+2:], "*/")
				if j < 0 {
					return false
				}
				i += j + 3
			}
		case '"', '\'':
			for i++; i < len(s) && s[i] != c; i++ {
				if s[i] == '\\' {
					i++
				} else if s[i] == '\n' || s[i] == '\r' {
					return false
				}
			}
			if i >= len(s) {
				return false
			}
		case '(', '[', '{':
			open = append(open, c)
		case ')', ']', '}':
			if len(open) == 0 || open[len(open)-1] != map[byte]byte{')': '(', ']': '[', '}': '{'}[c] {
				return false
			}
			open = open[:len(open)-1]
		}
	}
	return len(open) == 0
}
