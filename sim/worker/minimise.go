package main

import (
	"strings"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/trace"
)

// minimise makes a failing trace smaller while it keeps failing in the same way:
// first the calls, stylesheets and faults, then the schedule.
func minimise(t *trace.Trace, st *stats, until time.Time) (*trace.Trace, *outcome) {
	best := t
	bo := execute(t, st)
	if bo.Verdict == nil {
		return best, bo
	}
	class := bo.Verdict.Class
	over := func() bool { return time.Now().After(until) }
	rng := trace.NewRng(t.Seed ^ 77)
	try := func(c *trace.Trace) bool {
		if over() {
			return false
		}
		c.Sched = best.Sched
		o := execute(c, st)
		if o.Verdict != nil && o.Verdict.Class == class {
			c.Sched = *o.Sched
			if p := execute(c, st); p.Verdict != nil && p.Verdict.Class == class {
				best, bo = c, p
				return true
			}
		}
		if len(c.Tasks) < 2 {
			return false
		}
		for i := 0; i < 12 && !over(); i++ {
			c.Sched = simrt.Config{Policy: i % 4, Mean: int64(rng.In(3, 200)), HotMod: uint32(rng.In(3, 60)), Triggers: 3, TrigMax: 2000, Seed: rng.U(), EnvSeed: best.Sched.EnvSeed}
			o := execute(c, st)
			if o.Verdict != nil && o.Verdict.Class == class {
				c.Sched = *o.Sched
				if p := execute(c, st); p.Verdict != nil && p.Verdict.Class == class {
					best, bo = c, p
					return true
				}
			}
		}
		return false
	}
	for changed := true; changed && !over(); {
		changed = false
		for _, edit := range edits {
			for i := 0; !over(); {
				c := best.Clone()
				if !edit(c, i) {
					break
				}
				if try(c) {
					changed = true
				} else {
					i++
				}
			}
		}
	}
	// The schedule: drop switches.
	if best.Sched.Replay {
		for n := len(best.Sched.Switches) / 2; n >= 1; n /= 2 {
			for a := 0; a+n <= len(best.Sched.Switches) && !over(); {
				c := best.Clone()
				sw := best.Sched.Switches
				c.Sched.Switches = append(append([]simrt.Switch{}, sw[:a]...), sw[a+n:]...)
				o := execute(c, st)
				if o.Verdict != nil && o.Verdict.Class == class {
					best, bo = c, o
				} else {
					a += n
				}
			}
		}
	}
	return best, bo
}

// edits make the i-th simplification of a kind; false when there is none.
var edits = []func(t *trace.Trace, i int) bool{
	func(t *trace.Trace, i int) bool { // a whole task
		if i >= len(t.Tasks) || len(t.Tasks) == 1 {
			return false
		}
		t.Tasks = append(t.Tasks[:i:i], t.Tasks[i+1:]...)
		return true
	},
	func(t *trace.Trace, i int) bool { // many calls before the tasks
		lo, hi, ok := chunk(len(t.Setup), i)
		if ok {
			t.Setup = append(t.Setup[:lo:lo], t.Setup[hi:]...)
		}
		return ok
	},
	func(t *trace.Trace, i int) bool { // many probes
		lo, hi, ok := chunk(len(t.Probes), i)
		if ok {
			t.Probes = append(t.Probes[:lo:lo], t.Probes[hi:]...)
		}
		return ok
	},
	func(t *trace.Trace, i int) bool { // a call
		for k := range t.Tasks {
			if i < len(t.Tasks[k]) {
				t.Tasks[k] = append(t.Tasks[k][:i:i], t.Tasks[k][i+1:]...)
				return true
			}
			i -= len(t.Tasks[k])
		}
		if i < len(t.Setup) {
			t.Setup = append(t.Setup[:i:i], t.Setup[i+1:]...)
			return true
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // how many
		for _, ops := range append([][]trace.Op{t.Setup}, t.Tasks...) {
			for j := range ops {
				if op := &ops[j]; op.K == "many" && op.N > 1 {
					switch i {
					case 0:
						op.N /= 2
						return true
					case 1:
						op.N -= op.N / 8
						return true
					case 2:
						op.N--
						return true
					}
					i -= 3
				}
			}
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // probes
		if len(t.Probes) == 0 {
			return false
		}
		if i == 0 {
			t.Probes = nil
			return true
		}
		i--
		if i >= len(t.Probes) {
			return false
		}
		t.Probes = append(t.Probes[:i:i], t.Probes[i+1:]...)
		return true
	},
	func(t *trace.Trace, i int) bool { // half of the items of a sheet
		for k := range t.Sheets {
			if t.Note == "pieces" && k > 0 {
				break
			}
			n := len(t.Sheets[k].Items)
			if n < 4 {
				continue
			}
			switch i {
			case 0:
				dropItems(t, k, 0, n/2)
				return true
			case 1:
				dropItems(t, k, n/2, n)
				return true
			}
			i -= 2
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // one item
		for k := range t.Sheets {
			if i < len(t.Sheets[k].Items) {
				dropItems(t, k, i, i+1)
				return true
			}
			i -= len(t.Sheets[k].Items)
			if t.Note == "pieces" {
				return false
			}
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // fillers
		for k := range t.Sheets {
			for j := range t.Sheets[k].Items {
				if p := t.Sheets[k].Items[j].Pad; p > 1 {
					if i < 2 {
						t.Sheets[k].Items[j].Pad = p / 2
						if i == 1 {
							t.Sheets[k].Items[j].Pad = p - p/16 - 1
						}
						return true
					}
					i -= 2
				}
				if f := t.Sheets[k].Items[j].Fill; f != nil && f[1]-f[0] > 1 {
					if i == 0 {
						t.Sheets[k].Items[j].Fill = []int{f[0], f[0] + (f[1]-f[0])/2}
						return true
					}
					i--
				}
			}
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // declarations
		if t.Note == "pieces" {
			return false
		}
		for k := range t.Sheets {
			for j := range t.Sheets[k].Items {
				r := t.Sheets[k].Items[j].Rule
				if r == nil {
					continue
				}
				if len(r.Decls) > 1 {
					if i < len(r.Decls) {
						r.Decls = append(r.Decls[:i:i], r.Decls[i+1:]...)
						return true
					}
					i -= len(r.Decls)
				}
				if r.Kind != "" {
					if i == 0 {
						r.Kind, r.Cond = "", ""
						return true
					}
					i--
				}
				if r.Imp {
					if i == 0 {
						r.Imp = false
						return true
					}
					i--
				}
			}
			if t.Sheets[k].Style != 0 {
				if i == 0 {
					t.Sheets[k].Style = 0
					return true
				}
				i--
			}
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // damage and delivery
		for _, ops := range append([][]trace.Op{t.Setup}, t.Tasks...) {
			for j := range ops {
				op := &ops[j]
				if i < len(op.Dmg) {
					op.Dmg = append(op.Dmg[:i:i], op.Dmg[i+1:]...)
					return true
				}
				i -= len(op.Dmg)
				for q := range op.Dmg {
					if d := &op.Dmg[q]; d.K == "dup" && d.B > 1 {
						if i == 0 {
							d.B /= 2
							return true
						}
						i--
					} else if d.K == "insert" && len(d.T) > 8 {
						if i == 0 {
							d.T = d.T[:len(d.T)/2]
							return true
						}
						i--
					}
				}
				if op.D == nil {
					continue
				}
				d := op.D
				parts := []struct {
					have bool
					drop func()
				}{
					{true, func() { op.D = nil }},
					{len(d.Chunks) > 0, func() { d.Chunks = nil }},
					{len(d.Empty) > 0, func() { d.Empty = nil }},
					{d.EOFWith, func() { d.EOFWith = false }},
					{d.Scrib, func() { d.Scrib = false }},
					{d.Err != nil, func() { d.Err = nil }},
					{d.Panic != nil, func() { d.Panic = nil }},
					{len(d.Stall) > 0, func() { d.Stall = d.Stall[1:] }},
					{len(d.Methods) > 0, func() { d.Methods = d.Methods[1:] }},
					{d.Lie, func() { d.Lie = false }},
					{d.Before > 0, func() { d.Before = 0 }},
					{d.Spare > 1, func() { d.Spare = 1 }},
					{d.Err != nil && d.Err.With, func() { d.Err.With = false }},
					{d.Err != nil && d.Err.After != "sticky", func() { d.Err.After = "sticky" }},
					{d.Err != nil && d.Err.Kind != "plain", func() { d.Err.Kind = "plain" }},
				}
				for _, p := range parts {
					if p.have {
						if i == 0 {
							p.drop()
							return true
						}
						i--
					}
				}
			}
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // parts of long class lists
		for _, p := range allLists(t) {
			w := strings.Split(string(*p), " ")
			if len(w) < 8 {
				continue
			}
			lo, hi, ok := chunk(len(w), i)
			if ok {
				replaceLists(t, *p, strings.Join(append(w[:lo:lo], w[hi:]...), " "))
				return true
			}
			for j := 0; ; j++ {
				if _, _, ok := chunk(len(w), j); !ok {
					i -= j
					break
				}
			}
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // words of class lists
		for _, p := range allLists(t) {
			w := strings.Split(string(*p), " ")
			if len(w) < 2 {
				continue
			}
			if i < len(w) {
				replaceLists(t, *p, strings.Join(append(w[:i:i], w[i+1:]...), " "))
				return true
			}
			i -= len(w)
		}
		return false
	},
	func(t *trace.Trace, i int) bool { // configuration
		var opts []func()
		for k := range t.Mergers {
			m := &t.Mergers[k]
			if m.Cache != "none" {
				opts = append(opts, func() { m.Cache = "none" })
			}
			if m.Cache == "lossy" || m.Cache == "tiny" {
				opts = append(opts, func() { m.Cache = "map" })
			}
			if !m.KeepSort {
				opts = append(opts, func() { m.KeepSort = true })
			}
			if m.Real {
				opts = append(opts, func() { m.Real = false })
			}
		}
		if t.Vary > 1 {
			opts = append(opts, func() { t.Vary = 1 })
		}
		if i >= len(opts) {
			return false
		}
		opts[i]()
		return true
	},
}

func allLists(t *trace.Trace) (at []*trace.Text) {
	for k := range t.Probes {
		at = append(at, &t.Probes[k])
	}
	for _, ops := range append([][]trace.Op{t.Setup}, t.Tasks...) {
		for j := range ops {
			if ops[j].K == "merge" || ops[j].K == "many" && ops[j].V == "merge" {
				at = append(at, &ops[j].C)
			}
		}
	}
	return at
}

// replaceLists replaces a list in every place it occurs in.
func replaceLists(t *trace.Trace, old trace.Text, by string) {
	for _, q := range allLists(t) {
		if *q == old {
			*q = trace.Text(by)
		}
	}
}

// chunk is the i-th of the halves, quarters and so on of n things, while these are many.
func chunk(n, i int) (lo, hi int, ok bool) {
	for size := n / 2; size >= 4; size /= 2 {
		if k := (n + size - 1) / size; i < k {
			return i * size, min(i*size+size, n), true
		} else {
			i -= k
		}
	}
	return 0, 0, false
}

// dropItems removes items; where sheet 0 is the whole of the others, from both.
func dropItems(t *trace.Trace, s, lo, hi int) {
	cut := func(k, lo, hi int) {
		it := t.Sheets[k].Items
		n := append(append([]trace.Item{}, it[:lo]...), it[hi:]...)
		t.Sheets[k].Items = n
	}
	cut(s, lo, hi)
	if t.Note != "pieces" || s != 0 {
		return
	}
	base := 0
	for k := 1; k < len(t.Sheets); k++ {
		n := len(t.Sheets[k].Items)
		a, b := max(lo-base, 0), min(hi-base, n)
		if a < b {
			cut(k, a, b)
		}
		base += n
	}
}
