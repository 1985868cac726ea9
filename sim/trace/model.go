package trace

import (
	"sort"
	"strings"
)

// The reference model: what the documentation says Merge does, for stylesheets
// made of single-class rules.

// shorthands lists what the shorthand properties used in abstract sheets set.
var shorthands = map[string][]string{
	"margin":    {"margin-top", "margin-right", "margin-bottom", "margin-left"},
	"padding":   {"padding-top", "padding-right", "padding-bottom", "padding-left"},
	"inset":     {"top", "right", "bottom", "left"},
	"gap":       {"row-gap", "column-gap"},
	"overflow":  {"overflow-x", "overflow-y"},
	"flex":      {"flex-grow", "flex-shrink", "flex-basis"},
	"flex-flow": {"flex-direction", "flex-wrap"},
}

// Model maps a class to the last rule that defines it.
type Model map[string]*Rule

// Load adds a sheet.
func (m Model) Load(s *Sheet) {
	for i := range s.Items {
		it := &s.Items[i]
		if it.Rule != nil {
			m[it.Rule.Class] = it.Rule
		} else if it.Fill != nil {
			for n := it.Fill[0]; n < it.Fill[1]; n++ {
				v := itoa(n)
				m["f"+v] = &Rule{Class: "f" + v, Decls: []Decl{{"height", v + "px"}}}
			}
		}
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// Keys lists the classes.
func (m Model) Keys() []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// Merge is the documented result for a list of classes separated by single
// spaces: the set of classes kept, in the order of their last mention.
func (m Model) Merge(in string) string {
	list := strings.Split(strings.TrimSpace(in), " ")
	if len(list) < 2 {
		return in
	}
	last := map[string]int{}
	for i, c := range list {
		last[c] = i
	}
	keep := map[string]bool{}
	win := map[string]string{}    // property under condition -> last class that sets it
	imp := map[string]string{}    // the same among !important
	setter := map[string]string{} // custom property -> last class that sets it
	uses := map[string]string{}   // property under condition -> value of its last setter
	for _, c := range list {
		r := m[c]
		if r == nil {
			keep[c] = true
			continue
		}
		for _, d := range r.Decls {
			if strings.HasPrefix(d.P, "--") {
				setter[d.P] = c
				continue
			}
			ps := shorthands[d.P]
			if ps == nil {
				ps = []string{d.P}
			}
			for _, p := range ps {
				key := p + "\x00" + r.Kind + "\x00" + r.Cond
				win[key] = c
				uses[key] = d.V
				if r.Imp {
					imp[key] = c
				}
			}
		}
	}
	for _, c := range win {
		keep[c] = true
	}
	for _, c := range imp {
		keep[c] = true
	}
	for v, c := range setter {
		for _, val := range uses {
			if strings.Contains(val, "var("+v+")") {
				keep[c] = true
			}
		}
	}
	out := make([]string, 0, len(keep))
	for c := range keep {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return last[out[i]] < last[out[j]] })
	return strings.Join(out, " ")
}

// Canon sorts the classes of an answer; used when the Merger need not keep the order.
func Canon(s string) string {
	l := strings.Split(s, " ")
	sort.Strings(l)
	return strings.Join(l, " ")
}
