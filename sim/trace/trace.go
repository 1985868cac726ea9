// Package trace defines the run description shared by the generator, the worker
// and the minimiser: everything one simulated run depends on besides the code
// under test. It can be stored as JSON and replayed.
package trace

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verif.local/sim/simrt"
)

// Text is a byte string that survives JSON.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(t))
	return json.Marshal(q[1 : len(q)-1])
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return fmt.Errorf("bad text %q: %v", s, err)
	}
	*t = Text(u)
	return nil
}

// Decl is one declaration.
type Decl struct {
	P string `json:"p"`
	V string `json:"v"`
}

// Kinds of condition a rule can be under.
const (
	Plain  = ""
	Pseudo = "pseudo"
	Media  = "media"
	Child  = "child"
)

// Rule is a rule the reference model understands: one class, one condition.
type Rule struct {
	Class string `json:"c"`
	Kind  string `json:"k,omitempty"`
	Cond  string `json:"cond,omitempty"`
	Decls []Decl `json:"d"`
	Imp   bool   `json:"imp,omitempty"`
	Wide  bool   `json:"wide,omitempty"` // not for the model: any property
}

// Item is one top-level piece of a stylesheet.
type Item struct {
	Rule *Rule `json:"rule,omitempty"`
	Fill []int `json:"fill,omitempty"` // [from, to): filler rules .f<n>{height:<n>px}
	Pad  int   `json:"pad,omitempty"`  // a comment of that many bytes on one line
	Raw  Text  `json:"raw,omitempty"`
}

// Sheet is a stylesheet.
type Sheet struct {
	Items []Item `json:"items"`
	Style int    `json:"style,omitempty"` // white space and comments

	Inline bool `json:"inline,omitempty"` // meant to be loaded as the text of a style attribute
}

// Fault is an error of the stream.
type Fault struct {
	At    int    `json:"at"`    // after that many bytes
	Kind  string `json:"kind"`  // see ErrorKinds
	With  bool   `json:"with"`  // together with the last bytes
	After string `json:"after"` // what later reads get: sticky, eof, resume
}

// Delivery says how a stylesheet reaches AddRules.
type Delivery struct {
	Via     string   `json:"via,omitempty"`    // "": simulated reader; otherwise a standard one
	Chunks  []int    `json:"chunks,omitempty"` // sizes of successive reads, cyclic; none: as much as fits
	Empty   []int    `json:"empty,omitempty"`  // reads that return 0, nil first
	EOFWith bool     `json:"eofwith,omitempty"`
	Scrib   bool     `json:"scribble,omitempty"`
	Err     *Fault   `json:"err,omitempty"`
	Panic   *int     `json:"panic,omitempty"`
	Stall   []int    `json:"stall,omitempty"` // byte offsets
	Methods []string `json:"methods,omitempty"`
	Lie     bool     `json:"lie,omitempty"`    // the other methods give something else
	Spare   int      `json:"spare,omitempty"`  // bytes after the stylesheet in the caller's array
	Before  int      `json:"before,omitempty"` // bytes before it
}

// Damage is one fault of the stored stylesheet.
type Damage struct {
	K string `json:"k"` // trunc flip zero drop dup swap splice insert
	A int    `json:"a"`
	N int    `json:"n,omitempty"`
	B int    `json:"b,omitempty"`
	S int    `json:"s,omitempty"`
	T Text   `json:"t,omitempty"`
}

// Op is one call.
type Op struct {
	K   string    `json:"k"` // merge add rules new restart cget cset cclear watch
	M   int       `json:"m,omitempty"`
	C   Text      `json:"c,omitempty"`
	V   Text      `json:"v,omitempty"`
	S   int       `json:"s,omitempty"`
	D   *Delivery `json:"d,omitempty"`
	Dmg []Damage  `json:"dmg,omitempty"`
	Inl bool      `json:"inline,omitempty"`
	N   int       `json:"n,omitempty"`
	Rep int       `json:"rep,omitempty"` // add: how many times more, one after the other
}

// MergerCfg is how a Merger is made.
type MergerCfg struct {
	Cache    string `json:"cache"` // none simple map lossy tiny panic
	Seed     uint64 `json:"seed,omitempty"`
	KeepSort bool   `json:"keepsort,omitempty"`
	Real     bool   `json:"real,omitempty"` // by a call of NewMerger in this run, not a copy of a fresh one
	PanicOn  string `json:"panicon,omitempty"`
	PanicAt  int    `json:"panicat,omitempty"`
}

// Trace is one simulated run.
type Trace struct {
	Prop    string       `json:"prop"`
	Seed    uint64       `json:"seed"`
	Race    bool         `json:"race,omitempty"` // run it in the build with the race detector
	Note    string       `json:"note,omitempty"`
	Sheets  []Sheet      `json:"sheets,omitempty"`
	Mergers []MergerCfg  `json:"mergers,omitempty"`
	Caches  int          `json:"caches,omitempty"`
	Setup   []Op         `json:"setup,omitempty"` // done before the tasks start
	Tasks   [][]Op       `json:"tasks"`
	Probes  []Text       `json:"probes,omitempty"` // asked afterwards
	Sched   simrt.Config `json:"sched"`
	Rounds  int          `json:"rounds,omitempty"` // the tasks are run that many times, each time under another schedule; @@ in texts is the number
	Vary    int          `json:"vary,omitempty"`   // further runs of the same with other schedules and map orders
}

// ErrorKinds are the stream errors the simulated reader knows.
var ErrorKinds = []string{"plain", "unexpected", "closedpipe", "noprogress", "deadline", "wrapeof", "wrapeof2", "eoftext", "iseof", "canceled", "eintr", "eagain", "short", "temporary", "joineof", "ptr", "nilish"}

// Escape writes a class name as a CSS identifier.
func Escape(c string) string {
	var b strings.Builder
	for i := 0; i < len(c); i++ {
		ch := c[i]
		switch {
		case ch >= 'a' && ch <= 'z', ch >= 'A' && ch <= 'Z', ch == '-', ch == '_', ch >= 0x80:
			b.WriteByte(ch)
		case ch >= '0' && ch <= '9' && i > 0:
			b.WriteByte(ch)
		default:
			b.WriteByte('\\')
			b.WriteByte(ch)
		}
	}
	return b.String()
}

// Text renders item i of the sheet.
func (s *Sheet) ItemText(i int) string {
	it := &s.Items[i]
	sp, nl, sc := "", "", ""
	switch s.Style % 4 {
	case 1:
		sp, nl, sc = " ", "\n", ";"
	case 2:
		sp, nl, sc = "\n\t", "\r\n", ";\n"
	case 3:
		sp, nl, sc = " ", "\n/* c */\n", ";"
	}
	var b strings.Builder
	switch {
	case it.Rule != nil:
		r := it.Rule
		if r.Kind == Media {
			b.WriteString("@media " + r.Cond + sp + "{" + sp)
		}
		b.WriteString("." + Escape(r.Class))
		if r.Kind == Pseudo || r.Kind == Child {
			b.WriteString(r.Cond)
		}
		b.WriteString(sp + "{" + sp)
		for j, d := range r.Decls {
			b.WriteString(d.P + ":" + strings.TrimLeft(sp, "\n\t") + d.V)
			if r.Imp {
				b.WriteString(" !important")
			}
			if j < len(r.Decls)-1 {
				b.WriteString(";" + sp)
			} else {
				b.WriteString(sc)
			}
		}
		b.WriteString("}")
		if r.Kind == Media {
			b.WriteString(sp + "}")
		}
		b.WriteString(nl)
	case it.Fill != nil:
		for n := it.Fill[0]; n < it.Fill[1]; n++ {
			fmt.Fprintf(&b, ".f%d{height:%dpx}\n", n, n)
		}
	case it.Pad > 0:
		b.WriteString("/*" + strings.Repeat("-", it.Pad) + "*/")
	default:
		b.WriteString(string(it.Raw))
		b.WriteString("\n")
	}
	return b.String()
}

// Text renders the sheet.
func (s *Sheet) Text() string {
	var b strings.Builder
	for i := range s.Items {
		b.WriteString(s.ItemText(i))
	}
	return b.String()
}

// Abstract says whether the reference model understands the whole sheet.
func (s *Sheet) Abstract() bool {
	for _, it := range s.Items {
		if it.Rule == nil && it.Fill == nil && it.Pad == 0 || it.Rule != nil && it.Rule.Wide {
			return false
		}
	}
	return true
}

// Apply returns text with the damage done.
func Apply(text string, dmg []Damage, sheets []Sheet) string {
	b := []byte(text)
	clamp := func(x int) int {
		if x < 0 {
			return 0
		}
		if x > len(b) {
			return len(b)
		}
		return x
	}
	for _, d := range dmg {
		a := clamp(d.A)
		e := clamp(a + d.N)
		switch d.K {
		case "trunc":
			b = b[:a]
		case "flip":
			if a < len(b) {
				b[a] ^= byte(1 << (d.B & 7))
			}
		case "set":
			if a < len(b) {
				b[a] = byte(d.B)
			}
		case "zero":
			for i := a; i < e; i++ {
				b[i] = 0
			}
		case "drop":
			b = append(append([]byte{}, b[:a]...), b[e:]...)
		case "dup":
			seg := append([]byte{}, b[a:e]...)
			var out []byte
			out = append(out, b[:e]...)
			for i := 0; i < max(1, d.B); i++ {
				out = append(out, seg...)
			}
			b = append(out, b[e:]...)
		case "swap":
			c := clamp(d.B)
			if c < e {
				break
			}
			f := clamp(c + d.N)
			var out []byte
			out = append(out, b[:a]...)
			out = append(out, b[c:f]...)
			out = append(out, b[e:c]...)
			out = append(out, b[a:e]...)
			b = append(out, b[f:]...)
		case "splice":
			if d.S < len(sheets) {
				o := sheets[d.S].Text()
				x := min(max(d.B, 0), len(o))
				y := min(x+d.N, len(o))
				var out []byte
				out = append(out, b[:a]...)
				out = append(out, o[x:y]...)
				b = append(out, b[a:]...)
			}
		case "count":
			out := append([]byte{}, b[:a]...)
			for i := 0; i < d.N; i++ {
				out = append(out, strings.ReplaceAll(string(d.T), "#", strconv.Itoa(i))...)
			}
			b = append(out, b[a:]...)
		case "insert":
			var out []byte
			out = append(out, b[:a]...)
			for i := 0; i < max(1, d.N); i++ {
				out = append(out, d.T...)
			}
			b = append(out, b[a:]...)
		}
	}
	return string(b)
}

// Clone makes a deep copy.
// Clone copies a sheet.
func (s *Sheet) Clone() Sheet {
	c := Sheet{Style: s.Style, Inline: s.Inline}
	for _, it := range s.Items {
		if it.Rule != nil {
			ru := *it.Rule
			ru.Decls = append([]Decl(nil), ru.Decls...)
			it.Rule = &ru
		}
		c.Items = append(c.Items, it)
	}
	return c
}

func (t *Trace) Clone() *Trace {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	c := new(Trace)
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Ops counts the calls of a trace.
func (t *Trace) Ops() int {
	n := len(t.Setup)
	for _, ops := range t.Tasks {
		n += len(ops)
	}
	return n
}
