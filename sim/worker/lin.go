package main

import "sort"

// A linearizability checker: just-in-time linearization over the calls in order
// of their call and return times. A configuration is a state of the sequential
// specification and the set of calls in progress that have already taken effect.

type linOp struct {
	call, ret int64
	v         any
}

// linearize decides whether the calls can be put in an order that agrees with
// real time and with the sequential specification step. It returns the index of
// the call at whose return no order was left, or -1; capped says that the search
// was given up.
func linearize(ops []linOp, init int, step func(state int, v any) (int, bool), visits *int64) (bad int, capped bool) {
	type point struct {
		t   int64
		op  int
		ret bool
	}
	var pts []point
	for i, o := range ops {
		pts = append(pts, point{o.call, i, false}, point{o.ret, i, true})
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i].t < pts[j].t })
	type conf struct {
		state int
		done  uint64
	}
	confs := map[conf]bool{{init, 0}: true}
	var slot [64]int // op in the slot
	for i := range slot {
		slot[i] = -1
	}
	at := make([]int, len(ops)) // slot of the op
	n := 0
	for _, p := range pts {
		if !p.ret {
			k := 0
			for k < 64 && slot[k] >= 0 {
				k++
			}
			if k == 64 {
				return -1, true
			}
			slot[k] = p.op
			at[p.op] = k
			continue
		}
		bit := uint64(1) << at[p.op]
		next := map[conf]bool{}
		seen := map[conf]bool{}
		var expand func(c conf)
		expand = func(c conf) {
			if seen[c] {
				return
			}
			seen[c] = true
			n++
			*visits++
			if n > 200000 {
				return
			}
			if c.done&bit != 0 {
				next[conf{c.state, c.done &^ bit}] = true
				return
			}
			for k := 0; k < 64; k++ {
				if slot[k] < 0 || c.done>>uint(k)&1 == 1 {
					continue
				}
				if s, ok := step(c.state, ops[slot[k]].v); ok {
					expand(conf{s, c.done | 1<<uint(k)})
				}
			}
		}
		for c := range confs {
			expand(c)
		}
		if n > 200000 {
			return -1, true
		}
		if len(next) == 0 {
			return p.op, false
		}
		slot[at[p.op]] = -1
		confs = next
	}
	return -1, false
}
