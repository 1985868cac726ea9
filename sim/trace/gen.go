package trace

import (
	_ "embed"
	"fmt"
	"strings"

	"verif.local/sim/simrt"
)

//go:embed corpus.css
var corpusText string

var corpus = SplitTop(corpusText)

// SplitTop cuts a stylesheet between its top-level rules.
func SplitTop(s string) []string {
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '/':
			if i+1 < len(s) && s[i+1] == '*' {
				if j := strings.Index(s[i+2:], "*/"); j >= 0 {
					i += j + 3
				} else {
					i = len(s)
				}
			}
		case '\\':
			i++
		case '"', '\'':
			q := s[i]
			for i++; i < len(s) && s[i] != q; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case '{':
			depth++
		case '}':
			depth--
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i+1]))
				start = i + 1
			}
		case ';':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i+1]))
				start = i + 1
			}
		}
	}
	return out
}

// Rng is the only source of choices of the generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In draws from [a, b].
func (r *Rng) In(a, b int) int    { return a + r.N(b-a+1) }
func (r *Rng) P(pct int) bool     { return r.N(100) < pct }
func pick[T any](r *Rng, l []T) T { return l[r.N(len(l))] }

type gen struct {
	r    *Rng
	t    *Trace
	pool []string // classes the sheets of this run talk about
	base map[string]*Rule
}

var classForms = []string{"k%d", "k-%d", "md:k%d", "k%d/50", "w-[%dpx]", "hover:k%d", "-k%d", "k_%d", "K%d", "é%d", "k%d.5", "k%d%%"}
var pseudos = []string{":hover", ":focus", ":first-child", ":disabled"}
var medias = []string{"(min-width:640px)", "(min-width:768px)", "print", "(min-width:1024px) and (max-width:2000px)"}
var childs = []string{" > p", " p", " + p", " > :not(template)"}
var longhands = []string{"color", "display", "opacity", "height", "width", "z-index", "margin-top", "margin-left", "padding-top", "padding-right", "top", "left", "row-gap", "overflow-x", "flex-grow", "flex-wrap", "fill", "stroke", "-webkit-thing"}
var shortNames = []string{"margin", "padding", "inset", "gap", "overflow", "flex", "flex-flow"}
var customs = []string{"--va", "--vb", "--tw-x"}

func (g *gen) makePool(n int) {
	forms := 1
	if g.r.P(40) {
		forms = len(classForms)
	}
	seen := map[string]bool{}
	for len(g.pool) < n {
		c := fmt.Sprintf(classForms[g.r.N(forms)], g.r.N(40))
		if !seen[c] {
			seen[c] = true
			g.pool = append(g.pool, c)
		}
	}
}

func (g *gen) rule(class string) *Rule {
	r := g.r
	ru := &Rule{Class: class}
	switch k := r.N(100); {
	case k < 60:
	case k < 75:
		ru.Kind, ru.Cond = Pseudo, pick(r, pseudos[:1+r.N(len(pseudos))])
	case k < 92:
		ru.Kind, ru.Cond = Media, pick(r, medias[:1+r.N(len(medias))])
	default:
		ru.Kind, ru.Cond = Child, pick(r, childs)
	}
	switch k := r.N(100); {
	case k < 10 && ru.Kind == Plain:
		ru.Decls = []Decl{{pick(r, customs), fmt.Sprint(r.N(100))}}
		return ru
	case k < 22:
		ru.Decls = []Decl{{pick(r, longhands[:6]), "var(" + pick(r, customs) + ")"}}
		return ru
	}
	// Few properties, so that classes conflict often.
	np := 1 + r.N(3)
	if r.P(15) {
		np += 2
	}
	used := map[string]bool{}
	for i := 0; i < np; i++ {
		var p string
		if r.P(30) {
			p = pick(r, shortNames[:1+r.N(len(shortNames))])
		} else {
			p = pick(r, longhands[:2+r.N(len(longhands)-1)])
		}
		if used[p] {
			continue
		}
		used[p] = true
		ru.Decls = append(ru.Decls, Decl{p, fmt.Sprintf("%dpx", r.N(1000))})
	}
	ru.Imp = r.P(12)
	return ru
}

func (g *gen) ruleItem(class string) Item { return Item{Rule: g.rule(class)} }

//go:embed collide.txt
var collideText string

// colliding are pairs of class lists with the same value under a common hash
// function of 32 bits (tools/collide).
var colliding = func() (out [][]string) {
	for _, l := range strings.Split(strings.TrimSpace(collideText), "\n") {
		out = append(out, strings.Split(l, "\t")[1:])
	}
	return
}()

//go:embed propnames.txt
var propText string
var propNames = strings.Fields(propText)

// property is any property, known or not.
func (g *gen) property() string {
	r := g.r
	switch k := r.N(20); {
	case k < 10:
		return pick(r, propNames)
	case k < 13:
		return pick(r, []string{"-webkit-", "-moz-", "-ms-", "-x-"}) + pick(r, propNames)
	case k < 14:
		return "-" + pick(r, []string{"x", "webkit"}) + fmt.Sprint("-p", r.N(9))
	case k < 15:
		return fmt.Sprint("p", r.N(9))
	case k < 16:
		return strings.ToUpper(pick(r, propNames))
	case k < 17:
		return pick(r, customs)
	}
	return pick(r, longhands)
}

// wideRule is a rule with any properties; few different ones in a sheet, so that they conflict.
func (g *gen) wideRule(class string, props []string) Item {
	ru := g.rule(class)
	ru.Wide = true
	for i := range ru.Decls {
		if g.r.P(80) {
			ru.Decls[i].P = pick(g.r, props)
		}
	}
	return Item{Rule: ru}
}

// abstract makes a sheet the model understands.
func (g *gen) abstract() Sheet {
	r := g.r
	s := Sheet{Style: r.N(4)}
	n := r.In(1, 2*len(g.pool))
	if r.P(50) {
		// every class of the pool once: a new version of everything
		for _, c := range g.pool {
			s.Items = append(s.Items, g.ruleItem(c))
		}
		g.shuffle(s.Items)
	} else {
		for i := 0; i < n; i++ {
			s.Items = append(s.Items, g.ruleItem(pick(r, g.pool)))
		}
	}
	return s
}

func (g *gen) shuffle(l []Item) {
	for i := len(l) - 1; i > 0; i-- {
		j := g.r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
}

// version makes a sheet in which the classes of the pool conflict in a way that
// is peculiar to v: two consecutive classes share a property if the bit is set.
func (g *gen) version(v int) Sheet {
	s := Sheet{Style: v % 4}
	for i, c := range g.pool {
		p := longhands[6+i%8]
		if v>>(uint(i)%6)&1 == 1 {
			p = "color"
		}
		s.Items = append(s.Items, Item{Rule: &Rule{Class: c, Decls: []Decl{{p, fmt.Sprintf("v%d", v)}}}})
	}
	if g.r.P(50) {
		g.shuffle(s.Items)
	}
	return s
}

var quirks = []string{
	".%s,.%s{margin:1px}",
	".%s.%s{color:red}",
	".%s{color:red;color:blue !important;margin:0}",
	"@media print{.%s{width:1px}@media screen{.%s{width:2px}}}",
	"@media screen and (min-width:1px){.%s:hover{height:3px}.%s{top:0}}",
	"@supports (display:grid){.%s{display:grid}}",
	"@keyframes spin{to{transform:rotate(360deg)}}.%s{animation:spin 1s}",
	"@font-face{font-family:x;src:url(x.woff)}.%s{font-family:x}",
	"@layer base{.%s{color:red}}.%s{color:green}",
	"@import url(\"x.css\");.%s{z-index:3}",
	".%s:bogus{color:red}.%s{color:blue}",
	":is(.%s,.%s) p{color:red}",
	":where(.%s){margin:0}",
	".%s[data-x=\"a b\"]{padding:1px}",
	".%s>:not([hidden])~:not([hidden]){--tw-x:0;margin-left:calc(1px*var(--tw-x))}",
	"/* comment .x{} */.%s{color:/* in */red}",
	".%s{--va: {a:b};--vb:1}",
	".%s{background:url(data:image/png;base64,AA==)}",
	".%s::before{content:\"}\\\"{\"}",
	"*,::before{--va:0}.%s{color:var(--va,var(--vb))}",
	"@media{.%s{color:red}}",
	"@media screen{}.%s{color:red}",
	".dark .%s{color:white}",
	".%s:not(.%s){opacity:0}",
	".%s{}",
	"<!-- .%s{color:red} -->",
	".%s:nth-child(2n+1){color:red}",
	".%s:hover:focus{color:red}",
	".%s :is(h1,h2,.%s){margin:0}",
	"#id.%s{color:red}",
	"a.%s{color:red}",
	".%s{filter:progid:DXImageTransform.Microsoft.Alpha(opacity=50)}",
	".%s{COLOR:RED;Margin:2PX}",
	".%s{color:red;;;width:1px;}",
	".%s{width:calc( 1px   +\n2px )}",
	".%s\\:x{color:red}",
	"@page{margin:1cm}.%s{color:red}",
	".%s:has(> img){color:red}",
	"@media (min-width:1px){@keyframes z{from{top:0}}.%s{left:1px}}.%s{right:0}",
}

func (g *gen) quirk() Item {
	r := g.r
	f := pick(r, quirks)
	n := strings.Count(f, "%s")
	args := make([]any, n)
	for i := range args {
		args[i] = Escape(pick(r, g.pool))
	}
	return Item{Raw: Text(fmt.Sprintf(f, args...))}
}

// rich makes a sheet of everything.
func (g *gen) rich() Sheet {
	r := g.r
	s := Sheet{Style: r.N(4)}
	if g.r.P(25) {
		var props []string
		for i, n := 0, r.In(1, 6); i < n; i++ {
			props = append(props, g.property())
		}
		for _, c := range g.pool {
			s.Items = append(s.Items, g.wideRule(c, props))
		}
		g.shuffle(s.Items)
		if r.P(60) {
			return s
		}
	}
	for i, n := 0, r.In(1, 8); i < n; i++ {
		switch k := r.N(10); {
		case k < 4:
			s.Items = append(s.Items, g.ruleItem(pick(r, g.pool)))
		case k < 6:
			s.Items = append(s.Items, g.quirk())
		case k < 8:
			s.Items = append(s.Items, g.selRule())
		default:
			a := r.N(len(corpus))
			for j := 0; j < r.In(1, 6) && a+j < len(corpus); j++ {
				s.Items = append(s.Items, Item{Raw: Text(corpus[a+j])})
			}
		}
	}
	return s
}

func (g *gen) bigger(s *Sheet, max int) {
	// Log-uniform sizes: around the buffer sizes in use (512, 4096, 32768, 65536).
	n := 4
	for n < max && g.r.P(75) {
		n *= 2
	}
	n = g.r.In(n/2, n)
	for from := 100; n > 0; {
		part := n
		if g.r.P(40) {
			part = g.r.In(1, n)
		}
		at := g.r.N(len(s.Items) + 1)
		it := Item{Fill: []int{from, from + part}}
		s.Items = append(s.Items[:at], append([]Item{it}, s.Items[at:]...)...)
		from, n = from+part, n-part
	}
}

// huge makes a sheet very long now and then, in no more than mill of 10000 runs:
// longer than buffers, lines and streams are expected to be.
func (g *gen) huge(s *Sheet, mill int) {
	r := g.r
	if r.N(10000) >= mill {
		return
	}
	n := pick(r, []int{1 << 14, 1 << 15, 3 << 14, 1 << 16, 1 << 16, 1 << 17, 1 << 18})
	if r.P(20) {
		n = pick(r, []int{1 << 19, 1 << 20, 1 << 20, 1 << 21, 1 << 22})
	}
	at := r.N(len(s.Items) + 1)
	if r.P(60) {
		at = r.N(at + 1) // what comes after it matters
	}
	s.Items = append(s.Items[:at:at], append([]Item{{Pad: n + r.N(64)}}, s.Items[at:]...)...)
}

// stretch puts many rules between those of every sheet, now and then.
func (g *gen) stretch(pct, max int) {
	if g.r.N(10000) < 30 {
		// and rarely very many into one
		g.bigger(&g.t.Sheets[g.r.N(len(g.t.Sheets))], 16*max)
		return
	}
	if g.r.P(pct) {
		for i := range g.t.Sheets {
			g.bigger(&g.t.Sheets[i], max)
		}
	}
}

// wrap, rarely, puts as many rules before the second half of a sheet as make a
// counter of few bits begin again, and some before the first half, so that what
// comes last has a lower number than what came first.
func (g *gen) wrap(s *Sheet) {
	r := g.r
	var bits int
	switch k := r.N(60000); {
	case k < 4:
		bits = 16
	case k < 60:
		bits = pick(r, []int{8, 9, 10, 11, 12, 13, 14, 15})
	default:
		return
	}
	lead := r.In(len(s.Items)+1, len(s.Items)+1<<(bits-3))
	at := r.N(len(s.Items) + 1)
	items := append([]Item{{Fill: []int{100, 100 + lead}}}, s.Items[:at]...)
	items = append(items, Item{Fill: []int{100 + lead, 100 + 1<<bits - r.N(2*len(s.Items)+2)}})
	s.Items = append(items, s.Items[at:]...)
}

// longer makes some of the lists long, mill of 10000.
func (g *gen) longer(l []string, mill int) {
	for i := range l {
		if g.r.N(10000) < mill {
			l[i] = g.lengthen(l[i])
		}
	}
}

// lengthen puts many classes between those of a list.
func (g *gen) lengthen(s string) string {
	r := g.r
	n := 1 << r.In(4, 11)
	n = r.In(n/2, n)
	w := strings.Split(s, " ")
	for from := 100; n > 0; {
		part := n
		if r.P(40) {
			part = r.In(1, n)
		}
		kind := r.N(6)
		clump := make([]string, part)
		for i := range clump {
			switch {
			case kind < 2:
				clump[i] = fmt.Sprintf("q%d", from+i)
			case kind == 2:
				clump[i] = fmt.Sprintf("f%d", from+i)
			case kind == 3 && r.P(70):
				clump[i] = pick(r, corpusClasses)
			case kind == 4 && r.P(70):
				clump[i] = pick(r, g.pool)
			default:
				clump[i] = fmt.Sprintf("long-unknown-%d", from+i)
			}
		}
		at := r.N(len(w) + 1)
		w = append(w[:at:at], append(clump, w[at:]...)...)
		from, n = from+part, n-part
	}
	return strings.Join(w, " ")
}

// list makes a class list with single spaces.
func (g *gen) list() string {
	r := g.r
	n := r.In(2, 5)
	if r.P(8) {
		n = 1
	}
	var l []string
	for i := 0; i < n; i++ {
		switch k := r.N(20); {
		case k == 0:
			l = append(l, fmt.Sprintf("u%d", r.N(3)))
		case k == 1:
			l = append(l, fmt.Sprintf("f%d", 100+r.N(8)))
		default:
			l = append(l, pick(r, g.pool))
		}
	}
	return strings.Join(l, " ")
}

var corpusClasses = func() []string {
	var out []string
	seen := map[string]bool{}
	for _, c := range corpus {
		if strings.HasPrefix(c, ".") {
			e := strings.IndexAny(c, " {:,>[\n")
			if e > 1 && !strings.Contains(c[:e], "\\") && !seen[c[1:e]] {
				seen[c[1:e]] = true
				out = append(out, c[1:e])
			}
		}
	}
	return out
}()

// wild makes a class list of any form.
func (g *gen) wild() string {
	r := g.r
	s := g.list()
	switch r.N(14) {
	case 0:
		s = " " + s
	case 1:
		s += " "
	case 2:
		s = strings.Replace(s, " ", "  ", 1)
	case 3:
		s = strings.Replace(s, " ", "\t", 1)
	case 4:
		s = ""
	case 5:
		s = strings.Repeat(" ", r.In(1, 3))
	case 6:
		s = strings.ToUpper(s)
	case 7:
		s = s + " " + s
	case 8:
		s = "\xff\x00 " + s
	case 9:
		s = strings.Replace(s, " ", "\u00a0", 1)
	case 10:
		var l []string
		for i, n := 0, r.In(5, 60); i < n; i++ {
			if r.P(50) {
				l = append(l, pick(r, corpusClasses))
			} else {
				l = append(l, pick(r, g.pool))
			}
		}
		s = strings.Join(l, " ")
	case 11:
		s = strings.Replace(s, " ", "\n", -1)
	}
	return s
}

// near makes a list that is easily confused with s.
func (g *gen) near(s string) string {
	r := g.r
	l := strings.Split(s, " ")
	switch r.N(9) {
	case 0:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 1:
		if len(l) > 1 {
			i := r.N(len(l) - 1)
			l[i], l[i+1] = l[i+1], l[i]
		}
	case 2:
		l = append(l, pick(r, l))
	case 3:
		l = append(l, pick(r, g.pool))
	case 4:
		if len(l) > 2 {
			i := r.N(len(l))
			l = append(l[:i:i], l[i+1:]...)
		}
	case 5:
		l[r.N(len(l))] = pick(r, g.pool)
	case 6:
		return " " + s
	case 7:
		return s + " "
	case 8:
		return strings.Replace(s, " ", "  ", 1)
	}
	return strings.Join(l, " ")
}

func (g *gen) sched() {
	r := g.r
	c := simrt.Config{Seed: r.U(), EnvSeed: r.U()}
	switch k := r.N(100); {
	case k < 25:
		c.Policy = simrt.PolUniform
		c.Mean = int64(pick(r, []int{2, 5, 15, 50, 150, 500}))
	case k < 50:
		c.Policy = simrt.PolHot
		c.HotMod = uint32(pick(r, []int{3, 8, 20, 60, 150}))
	case k < 85:
		c.Policy = simrt.PolPriority
		c.Triggers = r.In(1, 4)
		c.TrigMax = int64(pick(r, []int{50, 200, 1000, 4000, 20000}))
	default:
		c.Policy = simrt.PolSync
	}
	g.t.Sched = c
}

func (g *gen) cache() string {
	return pick(g.r, []string{"none", "simple", "simple", "map", "lossy", "tiny"})
}

func (g *gen) merger(kinds ...string) MergerCfg {
	m := MergerCfg{Seed: g.r.U() >> 12, KeepSort: g.r.P(50)}
	if len(kinds) > 0 {
		m.Cache = pick(g.r, kinds)
	} else {
		m.Cache = g.cache()
	}
	return m
}

// delivery makes a harmless way to deliver size bytes.
func (g *gen) delivery(size int) *Delivery {
	r := g.r
	d := &Delivery{EOFWith: r.P(40), Scrib: r.P(30)}
	switch r.N(6) {
	case 0: // all at once
	case 1:
		d.Chunks = []int{1}
		if size > 20000 {
			d.Chunks = []int{r.In(50, 900)}
		}
	case 2:
		d.Chunks = []int{r.In(1, 64)}
	case 3:
		for i, n := 0, r.In(2, 8); i < n; i++ {
			d.Chunks = append(d.Chunks, r.In(1, max(2, size/3)))
		}
	case 4:
		d.Chunks = []int{pick(r, []int{511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536})}
	case 5:
		d.Chunks = []int{max(1, size-1), 1}
	}
	if r.P(30) {
		for i, n := 0, r.In(1, 4); i < n; i++ {
			d.Empty = append(d.Empty, r.N(6))
		}
		if r.P(8) {
			// Nothing for a while; not for so long that bufio gives up.
			for i, n := r.N(6), r.In(8, 80); n > 0; n-- {
				d.Empty = append(d.Empty, i+n)
			}
		}
	}
	if r.P(25) && (g.t.Prop == "C06" || g.t.Prop == "C09") {
		for _, m := range []string{"bytes", "writeto", "len", "string", "readbyte", "close", "seek", "readat", "readstring", "peek", "next", "stat"} {
			if r.P(30) {
				d.Methods = append(d.Methods, m)
			}
		}
		d.Lie = r.P(50)
	}
	return d
}

func (g *gen) standard() *Delivery {
	return &Delivery{Via: pick(g.r, []string{"strings", "bytesbuffer", "bytesreader", "bufio", "pipeless", "limited", "multi", "tee", "section", "file"}), Spare: g.r.In(0, 40), Before: g.r.In(0, 8)}
}

func (g *gen) position(size int) int {
	r := g.r
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return size
	case 2:
		return max(0, size-r.In(1, 3))
	case 3:
		return min(size, pick(r, []int{1, 511, 512, 513, 4096, 1024, 2048, 8192, 32768, 65536}))
	}
	return r.N(size + 1)
}

func (g *gen) fault(size int) *Fault {
	r := g.r
	return &Fault{At: g.position(size), Kind: pick(r, ErrorKinds), With: r.P(50), After: pick(r, []string{"sticky", "eof", "resume"})}
}

func (g *gen) damage(text string) []Damage {
	r := g.r
	size := len(text)
	// Interesting places: around structural bytes.
	pos := func() int {
		if r.P(60) && size > 0 {
			for i := 0; i < 20; i++ {
				p := r.N(size)
				if strings.IndexByte("{}();:@\\\"'/*[],.#!-", text[p]) >= 0 {
					return min(size, p+r.N(2))
				}
			}
		}
		return r.N(size + 1)
	}
	var out []Damage
	n := 1
	for n < 5 && r.P(35) {
		n++
	}
	for i := 0; i < n; i++ {
		switch r.N(12) {
		case 0, 1, 2:
			out = append(out, Damage{K: "trunc", A: pos()})
		case 3:
			out = append(out, Damage{K: "flip", A: pos(), B: r.N(8)})
		case 4:
			out = append(out, Damage{K: "set", A: pos(), B: int(pick(r, []byte("{}()[];:@\\\"'/*,.#!- \n\r\f\t\x00\xff&<>|~^$=")))})
		case 5:
			out = append(out, Damage{K: "zero", A: pos(), N: r.In(1, 16)})
		case 6:
			out = append(out, Damage{K: "drop", A: pos(), N: r.In(1, 40)})
		case 7:
			out = append(out, Damage{K: "dup", A: pos(), N: r.In(1, 30), B: r.In(1, 3)})
		case 8:
			out = append(out, Damage{K: "swap", A: pos(), N: r.In(1, 30), B: pos()})
		case 9:
			out = append(out, Damage{K: "splice", A: pos(), N: r.In(1, 60), B: r.N(200), S: r.N(len(g.t.Sheets) + 1)})
		case 10:
			out = append(out, Damage{K: "insert", A: pos(), T: Text(g.fragment())})
		case 11:
			a := pos()
			out = append(out, Damage{K: "dup", A: a, N: r.In(1, 6), B: pick(r, []int{3, 20, 300, 3000})})
		}
	}
	return out
}

// parts may be repeated any number of times between what is before and after them.
var parts = [][3]string{
	{".zz{", "p#:1;", "}"},
	{".zz{", "--v#:1;", "}"},
	{".zz{color:", "var(--v#) ", "}"},
	{".zz{color:", "#px,", "0}"},
	{".zz{", "p#:1 !important;", "}"},
	{".zz{", "p#;", "}"},
	{"", ".c#{p:1}", ""},
	{"", ".c#:hover{p:1}", ""},
	{"", ".c#{", ""},
	{"", ".c#{}}", ""},
	{"", "@media (min-width:#px){.a{p:1}}", ""},
	{"", "@media (min-width:#px){", ""},
	{"", "@media x#{}", ""},
	{"@media ", "(a:#) and ", "(b){.zz{p:1}}"},
	{"", "@x# y;", ""},
	{"", "@x#{", ""},
	{"", "@x#{}", ""},
	{"", "@x#{}.a#{p:1}", ""},
	{"", ".a#:bogus{p:1}", ""},
	{"", ":is(.a#){p:1}", ""},
	{"", "/*#*/", ".zz{p:1}"},
	{".zz{p:\"", "\\# ", "\"}"},
	{".z\\", "3# z\\", "z{p:1}"},
	{".z", "\\:#", "{p:1}"},
	{"", "#", "{p:1}"},
	{"", "<!--#-->", ""},
	{"", "}#", ""},
	{"", ")#", ""},
	{"", ";p#:1", ""},
	{"", "\n\n#", ""},
	{"[a=\"", "b# ", "\"]{p:1}"},
	{".zz{p:", "f#(", "}"},
	{".zz{p:", "{#", "}"},
	{".zz:nth-child(", "#", "){p:1}"},
	{"", ".c#,", ".z{p:1}"},
	{"", ".c#", "{p:1}"},
	{"", ":not(.c#)", "{p:1}"},
	{"", "[a#]", "{p:1}"},
	{":is(", ".c#,", ".d){p:1}"},
	{".zz", ":hover", "{p:1}"},
}

func (g *gen) fragment() string {
	switch r := g.r; {
	case r.P(8):
		return g.hexEscape()
	case r.P(8):
		return g.soup()
	}
	return pick(g.r, fragments)
}

var fragments = []string{
	"}", "{", "{{", "}}", ")", "(", "@media", "@media{", "@media ) ", "@media print{", "@supports{", "@", "@x", "@import", ":", "::", ":not(", ":is(", ":where(", ":nth-child(", ":has(",
	"[", "[a=", "[a=\"", "\\", "\"", "'", "/*", "*/", "<!--", "-->", "!", "!important", ";", ".", "#", ",", ">", "+", "~", "||", "|", "*", "*|*", "a|b", "url(", "url(\"", "\x00", "\xff\xfe", "\xef\xbb\xbf", "\u2028",
	"--x:", "--x:{", "--", "-", "\\31 ", "\\0", "\\110000 ", "\\\n", "\r", "\f", "@charset \"x\";", ":bogus{", ".a:bogus { @media ) ", "@keyframes x{", "@font-face{", "var(--", ":contains(", ":matches(", ":lang(", ":nth-last-of-type(2n", ":nth-child(-n+", ":nth-child(99999999999999999999)", ".a:nth-child(2147483647){p:1}", ":nth-last-child(999999999n+9999999999){", ":nth-of-type(7000000000)", ".b:nth-child(300000000){p:1}", ":nth-last-of-type(67108864)", ":not()", ":is()", ":where()", ":not(:not(:not(.a)))", "[a~=b i]", "[a#=(", "[a#=x]", ":root", ".a.b.c", ".\\", "#\\", "::a::b", ":hover::", "@media{.x{color:red}}", "@supports{.x{color:red}}", "@media;", "@media", "@media a;b{",
}

// Generate makes the trace of one seed for a property.
func Generate(prop string, seed uint64, thorough bool) *Trace {
	h := seed
	for i := 0; i < len(prop); i++ {
		h = (h ^ uint64(prop[i])) * 0x100000001b3
	}
	r := NewRng(h)
	r.U()
	t := &Trace{Prop: prop, Seed: seed}
	g := &gen{r: r, t: t}
	g.sched()
	switch prop {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06(thorough)
	case "C07":
		g.c07(thorough)
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.c12()
	case "C13":
		g.c13()
	case "C14":
		g.c14()
	case "C15":
		g.c15()
	case "C16":
		g.c16()
	default:
		panic("unknown property " + prop)
	}
	g.crowd()
	g.inlines()
	g.rows()
	return t
}

// rows puts, in very few traces, so many loads of one stylesheet in a row between the
// same questions that a counter of few bits begins again.
func (g *gen) rows() {
	r, t := g.r, g.t
	switch t.Prop {
	case "C01", "C02", "C10", "C11", "C15":
	default:
		return
	}
	if t.Race || t.Note != "" || t.Rounds > 0 || r.N(10000) >= 15 || len(t.Mergers) == 0 {
		return
	}
	m, s := r.N(len(t.Mergers)), r.N(len(t.Sheets))
	if t.Mergers[m].PanicOn != "" || g.size(s) > 1000 {
		return
	}
	var ask []Op
	for _, ops := range t.Tasks {
		for _, op := range ops {
			if op.K == "merge" && op.N == 0 && len(ask) < 4 && len(op.C) < 300 {
				ask = append(ask, Op{K: "merge", M: m, C: op.C})
			}
		}
	}
	ask = append(ask, Op{K: "rules", M: m})
	n := 1<<pick(r, []int{4, 5, 6, 7, 8, 8, 8, 8, 8, 9, 10}) - 1
	if r.P(20) {
		n += r.In(-1, 1)
	}
	t.Setup = append(t.Setup, ask...)
	t.Setup = append(t.Setup, Op{K: "add", M: m, S: s, Rep: n})
	t.Setup = append(t.Setup, ask...)
}

// inlines has some stylesheets, in few traces, loaded as if they were style attributes.
func (g *gen) inlines() {
	r, t := g.r, g.t
	switch t.Prop {
	case "C02", "C06", "C08", "C09", "C10", "C11", "C14", "C15":
	default:
		return
	}
	if t.Note != "" || t.Rounds > 0 || !r.P(r0(t.Prop == "C09", 10)+5) {
		return
	}
	for i := range t.Tasks {
		for j := range t.Tasks[i] {
			if op := &t.Tasks[i][j]; op.K == "add" && op.N < 10 && r.P(50) {
				op.Inl = true
			}
		}
	}
}

// crowd adds, to few traces, calls in numbers: thousands of the same questions,
// of different ones, of entries, of failed loads, or many streams that stall at
// the same time.
func (g *gen) crowd() {
	r, t := g.r, g.t
	if t.Race || t.Note != "" || t.Rounds > 0 {
		return
	}
	number := func() int {
		n := 1 << pick(r, []int{5, 6, 7, 8, 9, 10, 10, 10, 11, 11, 12})
		return n + r.In(2, 20)
	}
	x := r.N(10000)
	switch {
	case t.Prop == "C11" && x < 40, t.Prop == "C10" && x < 40, t.Prop == "C01" && x < 12, t.Prop == "C02" && x < 12:
		l := g.list()
		for len(strings.Fields(l)) < 2 {
			l += " " + g.list()
		}
		switch {
		case len(t.Probes) > 0 && r.P(50):
			l = string(pick(r, t.Probes))
		case r.P(50):
			l += " zz@@"
			if r.P(50) {
				t.Probes = append(t.Probes, Text(strings.ReplaceAll(l, "@@", fmt.Sprintf("%05d", r.N(3)))))
			}
		}
		if strings.Contains(l, "@@") != strings.HasSuffix(l, "zz@@") || len(l) > 100 {
			return
		}
		op := Op{K: "many", V: "merge", M: r.N(len(t.Mergers)), C: Text(l), N: number()}
		if r.P(50) && t.Prop == "C11" {
			k := r.N(len(t.Tasks))
			t.Tasks[k] = append(t.Tasks[k], op)
			return
		}
		t.Setup = append(t.Setup, op)
	case t.Prop == "C03" && x < 60:
		n := number()
		if r.P(3) {
			n = 1<<16 + 5
		}
		t.Setup = append(t.Setup, Op{K: "many", V: "cset", M: r.N(t.Caches), C: "zz", N: n})
	case x < 200 && (t.Prop == "C05" || t.Prop == "C08" || t.Prop == "C14"):
		s := r.N(len(t.Sheets))
		size := g.size(s)
		if size > 3000 {
			return
		}
		op := Op{K: "many", V: "add", M: r.N(len(t.Mergers)), S: s, D: &Delivery{}, N: r.In(2, 40)}
		if r.P(10) {
			op.N = 300
		}
		if p := g.position(size); r.P(50) {
			op.D.Panic = &p
		} else {
			op.D.Err = g.fault(size)
		}
		t.Setup = append(t.Setup, op)
	case x < 2 && t.Prop == "C12" && len(t.Mergers) > 0:
		// Mergers beyond number, which have to answer as the first of them.
		c := Text(g.list())
		if len(t.Probes) > 0 && len(t.Probes[0]) < 100 && r.P(60) {
			c = t.Probes[0]
		}
		n, sh := pick(r, []int{5, 17, 40, 70, 270, 270, 270, 270}), r.N(len(t.Sheets))
		if g.size(sh) > 2000 {
			return
		}
		t.Tasks[0] = append(t.Tasks[0], Op{K: "many", V: "new", S: sh, C: c, N: n})
	case x < 400 && t.Prop == "C08":
		s := r.N(len(t.Sheets))
		size := g.size(s)
		if size > 3000 {
			return
		}
		n := pick(r, []int{2, 3, 4, 5, 6, 8, 8, 9, 10, 12, 16, 17, 24, 33})
		for i := 0; i < n; i++ {
			d := &Delivery{Err: g.fault(size), Stall: []int{g.position(size)}}
			if d.Err.At < d.Stall[0] {
				d.Err.At = d.Stall[0]
			}
			t.Tasks = append(t.Tasks, []Op{{K: "add", M: r.N(len(t.Mergers)), S: s, D: d}})
		}
	}
}

// sibling makes a sheet that differs from s in little only, so that anything
// remembered about the one under too short a key is wrong for the other.
func (g *gen) sibling(s *Sheet) Sheet {
	r := g.r
	c := s.Clone()
	var rules []*Rule
	for i := range c.Items {
		if c.Items[i].Rule != nil {
			rules = append(rules, c.Items[i].Rule)
		}
	}
	for n := r.In(1, 3); n > 0; n-- {
		if len(rules) == 0 || r.P(10) {
			switch i, j := r.N(len(c.Items)), r.N(len(c.Items)); {
			case i != j && r.P(50):
				c.Items[i], c.Items[j] = c.Items[j], c.Items[i]
			case len(c.Items) > 1:
				c.Items = append(c.Items[:i], c.Items[i+1:]...)
			}
			continue
		}
		ru := pick(r, rules)
		d := &ru.Decls[r.N(len(ru.Decls))]
		custom := strings.HasPrefix(ru.Decls[0].P, "--")
		switch k := r.N(10); {
		case k < 5 && !custom:
			q := pick(r, longhands)
			for _, o := range ru.Decls {
				if o.P == q {
					q = ""
				}
			}
			if q != "" {
				d.P = q
			}
		case k < 6 && len(ru.Decls) == 1 && custom:
			d.P = pick(r, customs)
		case k < 7 && len(ru.Decls) == 1 && !custom:
			d.V = "var(" + pick(r, customs) + ")"
		case k < 8 && !custom:
			ru.Imp = !ru.Imp
		case k < 9 && (ru.Kind == Pseudo || ru.Kind == Media || ru.Kind == Child):
			ru.Cond = map[string]func() string{Pseudo: func() string { return pick(r, pseudos) }, Media: func() string { return pick(r, medias) }, Child: func() string { return pick(r, childs) }}[ru.Kind]()
		case k < 9 && ru.Kind == Plain && !custom:
			if ru.Kind, ru.Cond = Media, pick(r, medias); r.P(25) {
				ru.Kind, ru.Cond = Pseudo, pick(r, pseudos)
			}
		default:
			d.V = fmt.Sprintf("%dpx", r.N(1000))
		}
	}
	return c
}

// inline makes the text of a style attribute, to be loaded as such.
func (g *gen) inline() Sheet {
	r := g.r
	s := Sheet{Inline: true}
	for i, n := 0, r.In(1, 4); i < n; i++ {
		s.Items = append(s.Items, Item{Raw: Text(pick(r, longhands) + ":" + pick(r, []string{"1px", "red", "var(--a)", "2px!important"}) + pick(r, []string{";", ";", ";", ""}))})
	}
	if r.P(20) {
		s.Items = append(s.Items, Item{Raw: Text(pick(r, []string{"--x:1;", "}", "color", ".a{top:0}", "{", "top:0;left"}))})
	}
	return s
}

// sheets makes n sheets, all abstract or all rich.
func (g *gen) sheets(n int, richPct int) {
	rich := g.r.P(richPct)
	vers := g.r.P(40)
	sib := r0(g.r.P(50), 60)
	for i := 0; i < n; i++ {
		switch {
		case g.r.N(1000) < 12:
			g.t.Sheets = append(g.t.Sheets, g.inline())
		case i > 0 && g.r.P(sib):
			g.t.Sheets = append(g.t.Sheets, g.sibling(&g.t.Sheets[g.r.N(i)]))
		case rich:
			g.t.Sheets = append(g.t.Sheets, g.rich())
		case vers:
			g.t.Sheets = append(g.t.Sheets, g.version(g.r.N(64)))
		default:
			g.t.Sheets = append(g.t.Sheets, g.abstract())
		}
	}
}

func r0(on bool, pct int) int {
	if on {
		return pct
	}
	return 0
}

func (g *gen) size(s int) int { return len(g.t.Sheets[s].Text()) }

func (g *gen) add(m, s int) Op {
	op := Op{K: "add", M: m, S: s}
	if g.t.Sheets[s].Inline {
		op.Inl = g.r.P(90)
	}
	if g.r.P(60) {
		op.D = g.delivery(g.size(s))
	}
	return op
}

func (g *gen) lists(n int, abstract bool) []string {
	var l []string
	for i := 0; i < n; i++ {
		switch {
		case len(l) > 0 && g.r.P(40):
			if s := g.near(pick(g.r, l)); !abstract || strings.TrimSpace(s) == s && !strings.Contains(s, "  ") {
				l = append(l, s)
			}
		case !abstract && g.r.P(30):
			l = append(l, g.wild())
		default:
			l = append(l, g.list())
		}
	}
	if len(l) == 0 {
		l = append(l, g.list())
	}
	return l
}

func (g *gen) allAbstract() bool {
	for i := range g.t.Sheets {
		if !g.t.Sheets[i].Abstract() {
			return false
		}
	}
	return true
}

// c01: callers of every kind on one Merger.
func (g *gen) c01() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 4), 30)
	g.stretch(15, 256)
	g.huge(&t.Sheets[0], 30)
	t.Mergers = []MergerCfg{g.merger()}
	t.Mergers[0].Real = r.N(1000) < 6
	t.Race = r.P(10)
	if r.P(50) {
		t.Setup = append(t.Setup, g.add(0, r.N(len(t.Sheets))))
	}
	lists := g.lists(r.In(1, 4), g.allAbstract())
	g.longer(lists, 60)
	nt := r.In(2, 4)
	adds := 0
	for i := 0; i < nt; i++ {
		var ops []Op
		writer := i == 0 || r.P(25)
		for j, n := 0, r.In(1, 4); j < n; j++ {
			switch k := r.N(100); {
			case writer && k < 60 && adds < 4:
				adds++
				op := g.add(0, r.N(len(t.Sheets)))
				if r.P(12) {
					if op.D == nil {
						op.D = &Delivery{}
					}
					op.D.Err = g.fault(g.size(op.S))
				}
				ops = append(ops, op)
			case k >= 90:
				ops = append(ops, Op{K: "rules"})
			default:
				ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
}

// c02: one loader, or a few, and many askers of the same lists.
func (g *gen) c02() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 5))
	n := r.In(2, 4)
	sib := r0(r.P(40), 70)
	for i := 0; i < n; i++ {
		if i > 0 && r.P(sib) {
			t.Sheets = append(t.Sheets, g.sibling(&t.Sheets[r.N(i)]))
		} else if r.P(70) {
			t.Sheets = append(t.Sheets, g.version(r.N(64)))
		} else {
			t.Sheets = append(t.Sheets, g.abstract())
		}
	}
	g.stretch(12, 256)
	t.Mergers = []MergerCfg{g.merger("none", "simple", "simple", "simple", "map", "map", "tiny", "lossy")}
	t.Race = r.P(5)
	lists := g.lists(r.In(1, 3), true)
	g.longer(lists, 100)
	t.Setup = append(t.Setup, g.add(0, 0))
	for _, l := range lists {
		if r.P(50) {
			t.Setup = append(t.Setup, Op{K: "merge", C: Text(l)})
		}
	}
	if r.N(1000) < 6 {
		// Many loads later an answer is no less outdated.
		n := 1<<pick(r, []int{3, 4, 5, 6, 7, 8, 8}) - 1 - r.N(2)
		for i := 0; i < n; i++ {
			t.Setup = append(t.Setup, Op{K: "add", S: i % len(t.Sheets)})
		}
	}
	loaders := 1
	if r.P(25) {
		loaders = 2
	}
	for i := 0; i < loaders; i++ {
		var ops []Op
		for j, m := 0, r.In(1, 3); j < m; j++ {
			op := Op{K: "add", S: r.N(len(t.Sheets))}
			if r.P(20) {
				op = g.add(0, op.S)
			}
			if r.P(10) {
				op.D = &Delivery{Err: g.fault(g.size(op.S))}
			}
			ops = append(ops, op)
			for r.P(50) {
				ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for i, m := 0, r.In(1, 3); i < m; i++ {
		var ops []Op
		for j, k := 0, r.In(1, 5); j < k; j++ {
			ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

var keyForms = []string{"", "a", "b", "a b", "b a", "a ", " a", "A", "ab", "a\x00", "é", "e\u0301", "a b c d e f g h", "1", "01"}

// c03: SimpleCache alone.
func (g *gen) c03() {
	r, t := g.r, g.t
	t.Caches = 1
	if r.P(10) {
		t.Caches = 2
	}
	t.Race = r.P(12)
	var keys []string
	for i, n := 0, r.In(1, 4); i < n; i++ {
		k := pick(r, keyForms)
		if r.P(5) {
			k = strings.Repeat(k+"x", r.In(20, 300))
		}
		keys = append(keys, k)
	}
	if r.P(4) {
		keys = append([]string{}, pick(r, colliding)...)
	}
	if r.P(5) {
		// Many keys: growth, and whatever a bounded cache would evict.
		for i, n := 0, r.In(50, 1500); i < n; i++ {
			keys = append(keys, fmt.Sprintf("key %d", i))
		}
		for i, k := range keys {
			t.Setup = append(t.Setup, Op{K: "cset", C: Text(k), V: Text(fmt.Sprintf("s%d", i))})
		}
	}
	if r.N(1000) < 12 {
		// An entry that must not come back, however many Clears later.
		for i, k := range keys {
			t.Setup = append(t.Setup, Op{K: "cset", M: r.N(t.Caches), C: Text(k), V: Text(fmt.Sprintf("s%d", i))})
		}
		n := 1<<pick(r, []int{3, 4, 5, 6, 7, 8, 8, 8, 8, 10}) - r.N(3)
		if r.N(100) < 4 {
			n = 1<<16 - r.N(3)
		}
		for i := 0; i < n; i++ {
			t.Setup = append(t.Setup, Op{K: "cclear", M: i % t.Caches})
		}
	}
	val := 0
	for i, n := 0, r.In(2, 4); i < n; i++ {
		var ops []Op
		for j, m := 0, r.In(1, 6); j < m; j++ {
			op := Op{M: r.N(t.Caches), C: Text(pick(r, keys))}
			switch k := r.N(100); {
			case k < 40:
				op.K = "cget"
			case k < 80:
				op.K = "cset"
				val++
				op.V = Text(fmt.Sprintf("v%d", val))
				if r.P(3) {
					op.V = ""
				}
			default:
				op.K = "cclear"
				op.C = ""
			}
			ops = append(ops, op)
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, k := range keys {
		t.Probes = append(t.Probes, Text(k))
	}
}

// c04: everything at once.
func (g *gen) c04() {
	r, t := g.r, g.t
	t.Race = r.P(65)
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 3), 60)
	nm := 1
	if r.P(30) {
		nm = 2
	}
	for i := 0; i < nm; i++ {
		m := g.merger("none", "simple", "simple", "map", "tiny", "lossy")
		if i == 1 && r.P(50) {
			m.Cache = "share"
		}
		m.Real = r.N(1000) < 10
		t.Mergers = append(t.Mergers, m)
	}
	t.Caches = r.N(2)
	if r.P(60) {
		t.Setup = append(t.Setup, g.add(0, r.N(len(t.Sheets))))
	}
	if r.P(15) {
		g.bigger(&t.Sheets[0], 64)
	}
	lists := g.lists(r.In(1, 4), false)
	for i, n := 0, r.In(2, 4); i < n; i++ {
		var ops []Op
		for j, m := 0, r.In(1, 4); j < m; j++ {
			op := Op{M: r.N(nm)}
			switch k := r.N(100); {
			case k < 40:
				op.K, op.C = "merge", Text(pick(r, lists))
			case k < 65:
				op = g.add(op.M, r.N(len(t.Sheets)))
				if r.P(15) {
					if op.D == nil {
						op.D = &Delivery{}
					}
					op.D.Err = g.fault(g.size(op.S))
				}
				if r.P(10) {
					op.Dmg = g.damage(t.Sheets[op.S].Text())
				}
			case k < 80:
				op.K = "rules"
				op.N = 1 // use the rules' own methods too
			case k < 81 && !t.Race && r.P(25) || k < 83 && t.Race && r.P(10):
				op = Op{K: "new", C: Text(pick(r, lists)), S: r.N(len(t.Sheets))}
			case t.Caches > 0:
				op.M = 0
				op.C = Text(pick(r, keyForms))
				op.K = pick(r, []string{"cget", "cset", "cclear"})
				op.V = "x"
			default:
				op.K, op.C = "merge", Text(pick(r, lists))
			}
			ops = append(ops, op)
		}
		t.Tasks = append(t.Tasks, ops)
	}
}

// c05: failing loads.
func (g *gen) c05() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 4), 40)
	if r.P(10) {
		g.bigger(&t.Sheets[r.N(len(t.Sheets))], 1024)
	}
	g.huge(&t.Sheets[0], 80)
	t.Mergers = []MergerCfg{g.merger()}
	lists := g.lists(r.In(2, 5), g.allAbstract())
	fail := func() Op {
		op := Op{K: "add", S: r.N(len(t.Sheets))}
		op.Inl = r.P(r0(t.Sheets[op.S].Inline, 89) + 1)
		op.D = g.delivery(g.size(op.S))
		op.D.Err = g.fault(g.size(op.S))
		if r.P(15) {
			op.D.Err = nil
			op.Dmg = []Damage{{K: "insert", A: g.position(g.size(op.S)), T: Text(pick(r, rejected))}}
			if r.P(50) {
				op.D = nil
			}
		}
		return op
	}
	tasks := 1
	if r.P(40) {
		tasks = r.In(2, 3)
	}
	adds := 0
	for i := 0; i < tasks; i++ {
		var ops []Op
		for j, n := 0, r.In(2, 8/tasks+1); j < n; j++ {
			switch k := r.N(100); {
			case k < 35 && adds < 5:
				adds++
				op := fail()
				ops = append(ops, op)
				if r.P(40) {
					ops = append(ops, Op{K: "rules"})
				}
				if r.P(40) {
					// the same sheet again, without the fault
					ops = append(ops, Op{K: "add", S: op.S, Inl: op.Inl})
				}
			case k < 55 && adds < 5:
				adds++
				ops = append(ops, g.add(0, r.N(len(t.Sheets))))
			case k < 62:
				ops = append(ops, Op{K: "rules"})
			default:
				ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// rejected are insertions that make the stylesheet unparsable at some places.
var rejected = []string{"}", ")", "{", "a{b}", ".x{color}", ".x{:}", ".x{color red;}", "@media screen{.x{color}}", "}}", "]", ".x{;color;}", ".x{color:red}}", "\x00", ".x{!}", "]]>"}

// openers stand at the very start of a stylesheet, seams are text whose bytes belong together.
var openers = []string{"\ufeff", "\ufeff", "@charset \"utf-8\";", "\ufeff@charset \"utf-8\";", "\xff\xfe", "\xfe\xff", "#!x\n", "<!--", "\n\n", "/*!x*/", "\x00", "\x1f\x8b", "@import url(x);", "\xef\xbb", " "}
var seams = []string{"\r\n", "\n\r\n", "\r", "\f", "/* } */", "/**/", "/*\r\n*/", "<!-- -->", "\x00", "\ufeff", "\U0001F600{}", ".\u00e9,.%s{color:red}", ".%s{top:\"\\\r\n\"}", ".%s{top:\"a\\\nb\"}", ".%s{--x:\r\n 1}", "\xe2\x82", "\\\r\n", ".%s{top:1px!\r\nimportant}", "@media print\r\n{.%s{top:0}}", ".%s /**/ .b{top:1px}"}

// c06: ways of delivery.
func (g *gen) c06(thorough bool) {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 3), 60)
	big := 1024
	if thorough {
		big = 65536
	}
	if r.P(35) {
		g.bigger(&t.Sheets[r.N(len(t.Sheets))], big)
	}
	for i := range t.Sheets {
		s := &t.Sheets[i]
		if r.P(12) {
			s.Items = append([]Item{{Raw: Text(pick(r, openers))}}, s.Items...)
		}
		for r.P(12) {
			at := r.N(len(s.Items) + 1)
			raw := strings.ReplaceAll(pick(r, seams), "%s", Escape(pick(r, g.pool)))
			s.Items = append(s.Items[:at], append([]Item{{Raw: Text(raw)}}, s.Items[at:]...)...)
		}
	}
	g.huge(&t.Sheets[0], 50)
	if r.P(1) || thorough && r.P(2) {
		g.bigger(&t.Sheets[0], 16384)
		t.Sheets[0].Items = append(t.Sheets[0].Items, Item{Fill: []int{20000, 20000 + r.In(2000, 12000)}}, g.ruleItem(g.pool[0]))
	}
	t.Mergers = []MergerCfg{g.merger("none", "simple")}
	lists := g.lists(r.In(2, 4), false)
	var ops []Op
	for j, n := 0, r.In(1, 3); j < n; j++ {
		op := Op{K: "add", S: r.N(len(t.Sheets))}
		if r.P(25) {
			op.D = g.standard()
		} else {
			op.D = g.delivery(g.size(op.S))
			if r.P(15) {
				op.D.Stall = []int{r.N(g.size(op.S) + 1)}
			}
		}
		if r.P(10) {
			op.Dmg = g.damage(t.Sheets[op.S].Text())
		}
		op.Inl = r.P(4)
		ops = append(ops, op, Op{K: "rules"})
		for r.P(40) {
			ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
		}
	}
	t.Tasks = append(t.Tasks, ops)
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// c07: damaged stylesheets.
func (g *gen) c07(thorough bool) {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	// A sheet of classes the damaged ones do not mention.
	var safe []string
	var s Sheet
	keep := g.pool
	for i, n := 0, r.In(2, 4); i < n; i++ {
		safe = append(safe, fmt.Sprintf("zq-keep-%d", i))
	}
	g.pool = safe
	for _, c := range safe {
		s.Items = append(s.Items, g.ruleItem(c))
	}
	var safeLists []string
	for i, n := 0, r.In(1, 3); i < n; i++ {
		var l []string
		for j, m := 0, r.In(2, 4); j < m; j++ {
			l = append(l, pick(r, safe))
		}
		safeLists = append(safeLists, strings.Join(l, " "))
	}
	g.pool = keep
	t.Sheets = append(t.Sheets, s)
	for i, n := 0, r.In(1, 2); i < n; i++ {
		if r.P(75) {
			t.Sheets = append(t.Sheets, g.rich())
		} else {
			t.Sheets = append(t.Sheets, g.abstract())
		}
	}
	t.Mergers = []MergerCfg{g.merger("none", "simple")}
	t.Setup = append(t.Setup, Op{K: "add", S: 0})
	lists := g.lists(r.In(1, 3), false)
	many := r.N(1000) < 8
	if many {
		lists = safeLists // a Merge may take longer than the load
	}
	var ops []Op
	for j, n := 0, r.In(1, 4); j < n; j++ {
		op := Op{K: "add", S: r.N(len(t.Sheets)-1) + 1}
		if r.P(30) {
			op.D = g.delivery(g.size(op.S))
		}
		op.Dmg = g.damage(t.Sheets[op.S].Text())
		if r.P(2) || thorough && r.P(4) {
			// the same few bytes lost and repeated over and over
			f := pick(r, []string{":not(", ":is(", "(", "[", "{", "@media a{", ".a>", ".a,", "\\", ":where(", "/*", "@x{", "a:b;", ".a:b{", "\"", ":has(", "url("})
			op.Dmg = append(op.Dmg, Damage{K: "insert", A: g.position(g.size(op.S)), T: Text(strings.Repeat(f, pick(r, []int{50, 500, 4000})))})
		}
		if r.N(1000) < 4 {
			// What takes up stack for every level must not go on for as long as the
			// stream does. The run has a small stack, to get there with less.
			f := pick(r, []string{":not(", ":is(", ":where(", ":has(", ":not(.a:is(", ":haschild(", ":not(a,:not(", "(", "[", "{", "@media a{", "@supports (a:b){", ":not(a>:is(b ", ".a:not("})
			n := r.In(20000, 60000)
			op.Dmg = []Damage{{K: "insert", A: g.position(g.size(op.S)), T: Text(f), N: n}}
			if i := r.N(4); i > 0 {
				// closed again, and at a place where a selector may be
				c := strings.Repeat(")", strings.Count(f, "("))
				op.Dmg = []Damage{{K: "insert", T: Text("a{}\n.zz")}, {K: "insert", A: 7, T: Text(c + "{color:red}"[:11*min(1, i-1)]), N: 1}, {K: "insert", A: 7, T: Text(c), N: n - 1}, {K: "insert", A: 7, T: Text(f), N: n}}
			}
			t.Note = "deep"
		}
		if many {
			// Very many parts of one kind, all different, in one place: work must not
			// grow faster than the stream.
			op.D, t.Note = nil, "many"
			size, c := g.size(op.S), pick(r, parts)
			op.Dmg = []Damage{{K: "count", A: g.position(size), T: Text(c[1]), N: r.In(8000, 20000)}}
			if r.P(85) {
				op.Dmg = []Damage{{K: "insert", T: Text(c[0] + c[2])}, {K: "count", A: len(c[0]), T: Text(c[1]), N: r.In(8000, 20000)}}
			}
			if r.P(30) {
				op.Dmg = append(op.Dmg, Damage{K: "trunc", A: size + r.In(10000, 60000)})
			}
			t.Sched.MaxSteps = 1000000 + 400*int64(len(Apply(t.Sheets[op.S].Text(), op.Dmg, t.Sheets)))
		}
		op.Inl = r.P(5)
		ops = append(ops, op)
		ops = append(ops, Op{K: "merge", C: Text(pick(r, safeLists)), N: 1})
		if many {
			break
		}
		for r.P(50) {
			ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
		}
		if r.P(20) {
			ops = append(ops, Op{K: "rules", N: 1})
		}
	}
	t.Tasks = append(t.Tasks, ops)
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// c08: stalls and panics.
func (g *gen) c08() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 3), 25)
	g.huge(&t.Sheets[0], 100)
	m := g.merger("none", "simple", "map", "panic", "panic")
	if m.Cache == "panic" {
		m.PanicOn = pick(r, []string{"get", "set", "clear", "clear"})
		m.PanicAt = r.In(1, 4)
	}
	t.Mergers = []MergerCfg{m}
	t.Race = r.P(5)
	if r.P(70) {
		t.Setup = append(t.Setup, Op{K: "add", S: r.N(len(t.Sheets))})
	}
	lists := g.lists(r.In(1, 3), g.allAbstract())
	adds := 0
	for i, n := 0, r.In(2, 4); i < n; i++ {
		var ops []Op
		for j, k := 0, r.In(1, 4); j < k; j++ {
			switch x := r.N(100); {
			case (i == 0 && j == 0 || x < 40) && adds < 4:
				adds++
				op := g.add(0, r.N(len(t.Sheets)))
				if op.D == nil {
					op.D = &Delivery{}
				}
				size := g.size(op.S)
				switch y := r.N(100); {
				case y < 55:
					for i, n := 0, r.In(1, 2); i < n; i++ {
						op.D.Stall = append(op.D.Stall, g.position(size))
					}
				case y < 80:
					p := g.position(size)
					op.D.Panic = &p
				case y < 90:
					op.D.Err = g.fault(size)
					op.D.Stall = append(op.D.Stall, g.position(size))
				}
				ops = append(ops, op)
			case x < 50:
				ops = append(ops, Op{K: "rules"})
			default:
				ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// c09: the caller's memory.
func (g *gen) c09() {
	r, t := g.r, g.t
	t.Race = r.P(15)
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 3), 60)
	g.huge(&t.Sheets[0], 80)
	t.Mergers = []MergerCfg{g.merger("none", "simple", "map")}
	lists := g.lists(r.In(1, 3), false)
	var ops []Op
	for j, n := 0, r.In(1, 3); j < n; j++ {
		op := Op{K: "add", S: r.N(len(t.Sheets))}
		if r.P(60) {
			op.D = g.standard()
		} else {
			op.D = g.delivery(g.size(op.S))
			op.D.Spare = r.In(0, 40)
			op.D.Before = r.In(0, 8)
			if r.P(60) {
				op.D.Methods = append(op.D.Methods, pick(r, []string{"bytes", "writeto"}))
				op.D.Lie = false
			}
		}
		if r.P(10) {
			op.D.Err = nil
			op.Dmg = g.damage(t.Sheets[op.S].Text())
		}
		op.N = 1 + r.N(3) // what is written over the memory afterwards
		ops = append(ops, op)
		if r.P(50) {
			ops = append(ops, Op{K: "rules"})
		}
		for r.P(50) {
			ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
		}
	}
	t.Tasks = append(t.Tasks, ops)
	if r.P(60) {
		// somebody else uses the bytes around the stylesheet meanwhile
		t.Tasks = append(t.Tasks, []Op{{K: "watch", N: r.In(3, 40), S: r.N(2)}})
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// c10: caches.
func (g *gen) c10() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	var lists []string
	if r.P(5) {
		lists = pick(r, colliding)
		g.pool = nil
		for _, c := range strings.Fields(lists[0] + " " + lists[1]) {
			if c[0] == 'k' {
				g.pool = append(g.pool, c)
			}
		}
		lists = append([]string{}, lists...)
	}
	g.sheets(r.In(1, 4), 50)
	t.Mergers = []MergerCfg{g.merger("simple", "simple", "map", "lossy", "lossy", "tiny")}
	lists = append(lists, g.lists(r.In(1, 3), false)...)
	for i, n := 0, r.In(1, 4); i < n; i++ {
		lists = append(lists, g.near(pick(r, lists)))
	}
	if r.P(8) {
		// long lists that differ in one place only
		var l []string
		for i, n := 0, r.In(30, 400); i < n; i++ {
			l = append(l, pick(r, g.pool))
		}
		for i := 0; i < 2; i++ {
			m := append([]string{}, l...)
			m[r.N(len(m))] = fmt.Sprintf("u%d", i)
			lists = append(lists, strings.Join(m, " "))
		}
	}
	if r.P(5) {
		// many different lists
		for i, n := 0, r.In(50, 600); i < n; i++ {
			lists = append(lists, g.list()+fmt.Sprintf(" u%d", i))
		}
		for _, l := range lists {
			t.Setup = append(t.Setup, Op{K: "merge", C: Text(l)})
		}
	}
	tasks := 1
	if r.P(40) {
		tasks = r.In(2, 3)
	}
	adds := 0
	if r.P(80) {
		t.Setup = append([]Op{g.add(0, r.N(len(t.Sheets)))}, t.Setup...)
	}
	for i := 0; i < tasks; i++ {
		var ops []Op
		for j, n := 0, r.In(3, 14/tasks); j < n; j++ {
			switch k := r.N(100); {
			case k < 15 && adds < 4:
				adds++
				op := g.add(0, r.N(len(t.Sheets)))
				if r.P(15) {
					op.D = &Delivery{Err: g.fault(g.size(op.S))}
				}
				ops = append(ops, op)
			case k < 20:
				ops = append(ops, Op{K: "rules"})
			default:
				ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for i, l := range lists {
		if i < 12 {
			t.Probes = append(t.Probes, Text(l))
		}
	}
}

// c11: repeated questions.
func (g *gen) c11() {
	r, t := g.r, g.t
	g.makePool(r.In(3, 9))
	g.sheets(r.In(1, 3), 60)
	g.stretch(12, 256)
	t.Mergers = []MergerCfg{g.merger("none", "none", "simple", "map", "lossy")}
	lists := g.lists(r.In(2, 4), false)
	g.longer(lists, 60)
	for i := range t.Sheets {
		t.Setup = append(t.Setup, g.add(0, i))
	}
	t.Vary = r.In(1, 3)
	for i, n := 0, r.In(1, 3); i < n; i++ {
		var ops []Op
		for j, m := 0, r.In(2, 6); j < m; j++ {
			switch k := r.N(100); {
			case k < 85:
				ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
			case k < 95:
				ops = append(ops, Op{K: "rules", N: 1})
			default:
				if n == 1 {
					ops = append(ops, Op{K: "restart"})
				}
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// c12: several Mergers and caches.
func (g *gen) c12() {
	r, t := g.r, g.t
	t.Race = r.P(8)
	if r.P(12) {
		g.c12caches()
		return
	}
	g.makePool(r.In(2, 5))
	g.sheets(r.In(2, 4), 30)
	n := r.In(2, 3)
	real := r.P(4)
	if t.Race {
		real = r.P(10)
	}
	panics := r.P(20)
	for i := 0; i < n; i++ {
		m := g.merger()
		if panics && r.P(60) {
			m.Cache, m.PanicOn, m.PanicAt = "panic", pick(r, []string{"get", "set", "set", "clear"}), r.In(1, 4)
		}
		if real {
			m.Real = true
		}
		t.Mergers = append(t.Mergers, m)
		if r.P(60) {
			t.Setup = append(t.Setup, g.add(i, r.N(len(t.Sheets))))
		}
	}
	if r.P(25) {
		t.Caches = 2
	}
	lists := g.lists(r.In(1, 3), g.allAbstract())
	g.longer(lists, 30)
	nt := r.In(1, 4)
	adds := make([]int, n)
	val := 0
	for i := 0; i < nt; i++ {
		var ops []Op
		home := r.N(n)
		for j, k := 0, r.In(2, 7); j < k; j++ {
			m := home
			if nt == 1 || r.P(15) {
				m = r.N(n)
			}
			switch x := r.N(100); {
			case x < 25 && adds[m] < 3:
				adds[m]++
				op := g.add(m, r.N(len(t.Sheets)))
				switch {
				case r.P(15):
					op.D = &Delivery{Err: g.fault(g.size(op.S))}
				case r.P(8):
					p := g.position(g.size(op.S))
					op.D = &Delivery{Panic: &p}
				}
				ops = append(ops, op)
			case x < 32:
				ops = append(ops, Op{K: "rules", M: m})
			case x < 45 && t.Caches > 0:
				val++
				ops = append(ops, Op{K: pick(r, []string{"cget", "cset", "cset", "cclear"}), M: r.N(2), C: Text(pick(r, keyForms)), V: Text(fmt.Sprintf("v%d", val))})
			default:
				ops = append(ops, Op{K: "merge", M: m, C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// c12caches: several SimpleCaches and nothing else.
func (g *gen) c12caches() {
	r, t := g.r, g.t
	t.Caches = r.In(2, 3)
	keys := []string{pick(r, keyForms), pick(r, keyForms)}[:r.In(1, 2)]
	val := 0
	for i, n := 0, r.In(1, 4); i < n; i++ {
		home := r.N(t.Caches)
		var ops []Op
		for j, m := 0, r.In(2, 7); j < m; j++ {
			op := Op{K: pick(r, []string{"cget", "cset", "cset", "cclear", "cclear"}), M: home, C: Text(pick(r, keys))}
			if r.P(40) {
				op.M = r.N(t.Caches)
			}
			if op.K == "cset" {
				val++
				op.V = Text(fmt.Sprintf("v%d", val))
			}
			ops = append(ops, op)
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, k := range keys {
		t.Probes = append(t.Probes, Text(k))
	}
}

// c13: a stylesheet cut in pieces; failed, repeated and interrupted loads.
func (g *gen) c13() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 8))
	var whole Sheet
	if r.P(50) {
		whole = g.abstract()
		for r.P(50) {
			if r.P(40) {
				whole.Items = append(whole.Items, g.sibling(&whole).Items...)
			} else {
				whole.Items = append(whole.Items, g.abstract().Items...)
			}
		}
	} else {
		whole = g.rich()
		for r.P(50) {
			whole.Items = append(whole.Items, g.rich().Items...)
		}
	}
	if r.P(8) {
		g.bigger(&whole, 512)
	}
	g.huge(&whole, 30)
	g.wrap(&whole)
	// Sheet 0 is the whole; the others are its pieces in order.
	t.Sheets = append(t.Sheets, whole)
	for a := 0; a < len(whole.Items); {
		n := r.In(1, max(1, len(whole.Items)/2))
		e := min(a+n, len(whole.Items))
		t.Sheets = append(t.Sheets, Sheet{Items: whole.Items[a:e], Style: r.N(4)})
		a = e
	}
	t.Mergers = []MergerCfg{g.merger()}
	lists := g.lists(r.In(2, 4), whole.Abstract())
	t.Note = "pieces"
	var ops []Op
	for s := 1; s < len(t.Sheets); s++ {
		for r.P(20) {
			op := Op{K: "add", S: s, D: &Delivery{Err: g.fault(g.size(s))}}
			ops = append(ops, op)
		}
		ops = append(ops, g.add(0, s))
		for r.P(15) {
			ops = append(ops, g.add(0, s))
		}
		for r.P(20) {
			ops = append(ops, Op{K: "merge", C: Text(pick(r, lists))})
		}
		if r.P(8) {
			ops = append(ops, Op{K: "restart", N: r.N(2), S: s})
		}
		if r.P(10) {
			// an older piece again, and everything after it
			k := 1 + r.N(s)
			for q := k; q <= s; q++ {
				ops = append(ops, g.add(0, q))
			}
		}
	}
	t.Tasks = append(t.Tasks, ops)
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

// long makes long class lists of some.
func (g *gen) long(t *Trace) {
	r := g.r
	for i := range t.Tasks {
		for j := range t.Tasks[i] {
			op := &t.Tasks[i][j]
			if op.K != "merge" || !r.P(30) {
				continue
			}
			var l []string
			for n := pick(r, []int{9, 17, 33, 70, 200}); len(l) < n; {
				l = append(l, strings.Fields(g.list())...)
				if r.P(60) {
					l = append(l, fmt.Sprintf("q%d", r.N(1000)))
				}
			}
			op.C = Text(strings.Join(l, " "))
		}
	}
}

// c14: calls that fail or panic at any moment, and what goes on after them.
func (g *gen) c14() {
	r, t := g.r, g.t
	switch k := r.N(100); {
	case k < 50:
		g.c05()
	case k < 85:
		g.c08()
	default:
		g.c10()
	}
	t.Race = false
	if r.P(40) {
		g.long(t)
	}
	if r.P(12) {
		// more than fits into any buffer on the way
		g.bigger(&t.Sheets[r.N(len(t.Sheets))], 4096)
	}
	for i := range t.Tasks {
		for j := range t.Tasks[i] {
			op := &t.Tasks[i][j]
			if op.K == "add" && r.P(15) {
				op.Dmg = append(op.Dmg, Damage{K: "insert", A: g.position(g.size(op.S)), T: Text(pick(r, rejected))})
			}
			if op.K == "add" && op.D != nil && r.P(15) {
				op.D.Stall = append(op.D.Stall, g.position(g.size(op.S)))
			}
		}
	}
}

// c15: callers who keep what Rules returned.
func (g *gen) c15() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 6))
	g.sheets(r.In(1, 4), 40)
	g.stretch(8, 64)
	t.Mergers = []MergerCfg{g.merger()}
	if r.P(25) {
		t.Mergers = append(t.Mergers, g.merger())
	}
	lists := g.lists(r.In(1, 3), g.allAbstract())
	g.longer(lists, 20)
	if r.P(70) {
		t.Setup = append(t.Setup, g.add(0, r.N(len(t.Sheets))))
	}
	adds := 0
	n := r.In(1, 3)
	for i := 0; i < n; i++ {
		var ops []Op
		for j, k := 0, r.In(2, 6); j < k; j++ {
			m := r.N(len(t.Mergers))
			switch x := r.N(100); {
			case x < 35 && adds < 6:
				adds++
				op := g.add(m, r.N(len(t.Sheets)))
				if op.D == nil {
					op.D = &Delivery{}
				}
				switch y := r.N(100); {
				case y < 12:
					op.D.Err = g.fault(g.size(op.S))
				case y < 20:
					p := g.position(g.size(op.S))
					op.D.Panic = &p
				case y < 28:
					op.Dmg = []Damage{{K: "insert", A: g.position(g.size(op.S)), T: Text(pick(r, rejected))}}
				case y < 36:
					op.D.Stall = []int{g.position(g.size(op.S))}
				}
				if r.P(20) {
					op.N = r.In(1, 3)
				}
				ops = append(ops, op)
			case x < 65:
				ops = append(ops, Op{K: "rules", M: m})
			case x < 80:
				ops = append(ops, Op{K: "reread", N: r.N(2)})
			case x < 84 && n == 1:
				ops = append(ops, Op{K: "restart", M: m})
			default:
				ops = append(ops, Op{K: "merge", M: m, C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}

var numberedRules = []string{
	"@media (min-width:@@px){.%{top:0}}", ".%:nth-child(@@n+1){top:0}", ".%[data-x=\"@@\"]{left:0}", "#i@@ .%{top:0}", "p@@>.%{top:0}",
	".%{--x@@:1px}", ".%{prop@@:1px}", ".%{top:var(--v@@)}", ".%{width:@@px!important}", "@supports (top:@@px){.%{top:1px}}",
	".b@@>>{color:red}", ".%:no-such@@{top:0}", "@import url(x@@.css);", "/* comment @@ */", "@font-face{font-family:f@@}", ".%:hover@@{top:0}",
	".%{background:url(i@@.png)}", ":is(.%,#x@@){top:0}", ".%:not(#y@@){top:0}", "@layer l@@{.%{top:0}}", "@keyframes a@@{from{top:0}to{top:1px}}",
}

// c16: the same few calls, again and again.
func (g *gen) c16() {
	r, t := g.r, g.t
	g.makePool(r.In(2, 5))
	g.sheets(r.In(1, 3), 30)
	t.Rounds = r.In(20, 40)
	if r.P(50) {
		// other values every time
		for i := range t.Sheets {
			for j := range t.Sheets[i].Items {
				if ru := t.Sheets[i].Items[j].Rule; ru != nil && !ru.Wide && !strings.Contains(ru.Decls[0].V, "var") && r.P(40) {
					ru.Decls[0].V = "@@px"
				}
			}
		}
	}
	if r.P(40) {
		// other selectors, conditions and properties every time, of the same classes
		c := Escape(pick(r, g.pool))
		for n := r.In(1, 4); n > 0; n-- {
			s := &t.Sheets[r.N(len(t.Sheets))]
			s.Items = append(s.Items, Item{Raw: Text(strings.ReplaceAll(pick(r, numberedRules), "%", c))})
		}
	}
	lists := g.lists(r.In(1, 3), true)
	g.longer(lists, 250)
	if r.P(60) {
		for i := range lists {
			if r.P(60) {
				lists[i] += " v@@"
			}
		}
	}
	t.Mergers = []MergerCfg{g.merger()}
	if r.P(20) {
		t.Mergers = append(t.Mergers, g.merger())
	}
	if r.P(35) {
		t.Caches = 1
	}
	nt := 1
	if r.P(50) {
		nt = r.In(2, 3)
	}
	adds := 0
	for i := 0; i < nt; i++ {
		var ops []Op
		for j, n := 0, r.In(1, 4); j < n; j++ {
			m := r.N(len(t.Mergers))
			switch k := r.N(100); {
			case k < 45 && adds < 3:
				adds++
				op := g.add(m, r.N(len(t.Sheets)))
				if op.D == nil {
					op.D = &Delivery{}
				}
				switch y := r.N(100); {
				case y < 15:
					op.D.Err = g.fault(g.size(op.S))
				case y < 22:
					p := g.position(g.size(op.S))
					op.D.Panic = &p
				case y < 32:
					op.Dmg = []Damage{{K: "insert", A: g.position(g.size(op.S)), T: Text(pick(r, rejected))}}
				}
				ops = append(ops, op)
			case k < 55:
				ops = append(ops, Op{K: "rules", M: m})
			case k < 57 && nt == 1:
				ops = append(ops, Op{K: "new", S: r.N(len(t.Sheets)), C: Text(pick(r, lists))})
				t.Rounds = 20
			case k < 80 && t.Caches > 0:
				key := Text(fmt.Sprintf("k%d", r.N(3)))
				if r.P(50) {
					key += "@@"
				}
				switch r.N(5) {
				case 0, 1:
					ops = append(ops, Op{K: "cget", C: key})
				case 2, 3:
					ops = append(ops, Op{K: "cset", C: key, V: "v"})
				case 4:
					ops = append(ops, Op{K: "cclear"})
				}
			default:
				ops = append(ops, Op{K: "merge", M: m, C: Text(pick(r, lists))})
			}
		}
		t.Tasks = append(t.Tasks, ops)
	}
	for _, l := range lists {
		t.Probes = append(t.Probes, Text(l))
	}
}
