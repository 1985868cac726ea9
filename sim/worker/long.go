package main

import (
	"fmt"
	"math/bits"
	"runtime"
	"strings"
	"time"
	"weak"

	merge "github.com/tylantz/go-tailwind-merge"

	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
	"verif.local/sim/trace"
)

// heapSize is what is reachable in the process, and the work of a fixed set of calls.
type heapSize struct {
	objects, bytes, work int64
}

// runLong repeats the same concurrent calls many times on the same Mergers and
// caches, each time under another schedule, and looks whether the memory in use
// or the work per call keeps growing.
func runLong(t *trace.Trace, st *stats) *outcome {
	o := &outcome{Hash: 14695981039346656037}
	sched := t.Sched
	o.Sched = &sched
	first := &world{t: t, st: st, texts: map[string]string{}}
	prepare()
	merge.SimReset()
	first.makeMergers()
	oracle := newOracle(first)
	round := 0
	// to runs rounds up to the given number.
	to := func(n int) *verdict {
		for ; round < n; round++ {
			rt := *t
			rt.Sched.Seed = t.Sched.Seed + uint64(round)*0x9e3779b97f4a7c15
			rt.Sched.EnvSeed = t.Sched.EnvSeed + uint64(round)*0xd1b54a32d192ed03
			if round > 0 {
				rt.Setup = nil
			}
			w := &world{t: &rt, st: st, ms: first.ms, cs: first.cs, round: round}
			for _, h := range w.ms {
				if h.sim != nil {
					h.sim.w = w
				}
			}
			w.run()
			if round < t.Rounds { // how many more there are is up to the measurements
				o.res = w.res
				o.Hash = (o.Hash ^ w.res.Hash) * 0x100000001b3
				for _, e := range w.all() {
					o.Hash = o.Hash*0x100000001b3 ^ strHash(e.String())
				}
			}
			if round == 0 {
				o.History = w.history()
			}
			if v := w.checkBasics(t.Prop); v != nil {
				o.History = w.history()
				if w.loadsFail(oracle, t.Prop) {
					st.Inconcl++
					return &verdict{}
				}
				return v
			}
			if round%8 == 7 {
				// A map may keep the size it once had: what is cached stays little.
				first.clearCaches()
			}
		}
		return nil
	}
	// Small records of every Merger ever made are no concern, Mergers are.
	per := int64(4)
	for _, ops := range t.Tasks {
		for i := range ops {
			if ops[i].K == "new" {
				per = 1000
			}
		}
	}
	// Growth has to be there between the first points, and to go on until it is
	// well above what the runtime itself may take in the meantime.
	points := []int{t.Rounds / 2, t.Rounds, 4 * t.Rounds, 16 * t.Rounds, 64 * t.Rounds, 256 * t.Rounds}
	var size [6]heapSize
	for i, p := range points {
		v := to(p)
		if v != nil && simrt.Starved() > 0 {
			v = bad("goroutines", "the goroutines of Mergers and caches that nobody refers to any more go on: there are too many to run")
		}
		if v != nil {
			if v.Class != "" {
				o.Verdict = v
			}
			return o
		}
		size[i] = first.measure()
		if size[i].work < 0 {
			st.Inconcl++
			return o
		}
		if i == 0 {
			continue
		}
		n := int64(points[i] - points[i-1])
		bytes, work := size[i].bytes-size[i-1].bytes, size[i].work-size[i-1].work
		// Sizes are compared in powers of two, so that a replay says the same.
		if bytes >= per*n && i >= 3 && bytes >= 8192 {
			o.Verdict = bad("grows", "memory in use grows with every repetition of the same calls, by at least %d bytes each between repetitions %d and %d", floor2(bytes/n), points[i-1], points[i])
			return o
		}
		if 2*work >= n && i >= 3 && work >= 50 {
			o.Verdict = bad("slower", "the same calls take more and more work the more calls were made before: at least %d steps more per repetition between repetitions %d and %d", floor2(work/n), points[i-1], points[i])
			return o
		}
		if bytes < per*n && 2*work < n {
			if t.Sched.Seed%4 == 0 {
				o.Verdict = first.given()
			}
			return o
		}
		st.Extended++
	}
	return o
}

func floor2(n int64) int64 {
	if n <= 1 {
		return n
	}
	return 1 << (bits.Len64(uint64(n)) - 1)
}

// clearCaches empties all caches, by loading nothing into the Mergers.
func (w *world) clearCaches() {
	x := &world{t: w.t, st: w.st, ms: w.ms, cs: w.cs, texts: w.texts}
	var ops []*trace.Op
	for m := range w.ms {
		ops = append(ops, &trace.Op{K: "add", M: m, S: len(w.t.Sheets)})
	}
	for c := range w.cs {
		ops = append(ops, &trace.Op{K: "cclear", M: c})
	}
	x.alone(ops, w.t.Sched.EnvSeed)
}

// measure empties the caches, and measures.
func (w *world) measure() (h heapSize) {
	x := &world{t: w.t, st: w.st, ms: w.ms, cs: w.cs, texts: w.texts, round: 7}
	var ops []*trace.Op
	for m := range w.ms {
		for s := range w.t.Sheets {
			ops = append(ops, &trace.Op{K: "add", M: m, S: s})
		}
		for _, p := range w.t.Probes {
			ops = append(ops, &trace.Op{K: "merge", M: m, C: p})
		}
		ops = append(ops, &trace.Op{K: "add", M: m, S: 0})
	}
	for c := range w.cs {
		ops = append(ops, &trace.Op{K: "cclear", M: c}, &trace.Op{K: "cset", M: c, C: "a", V: "b"}, &trace.Op{K: "cget", M: c, C: "a"}, &trace.Op{K: "cclear", M: c})
	}
	h.work = 1 << 60
	for i := uint64(0); i < 3; i++ {
		res := x.alone(ops, w.t.Sched.EnvSeed^i*977)
		if res.Budget || res.Deadlock {
			h.work = -1
			return h
		}
		h.work = min(h.work, res.Steps+res.Ticks)
	}
	simrt.Forget()
	var ms runtime.MemStats
	for i := 0; i < 3; i++ { // pools of the standard library live through one or two
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	h.objects, h.bytes = int64(ms.HeapObjects), int64(ms.HeapAlloc)
	if *verbose {
		fmt.Printf("round: %+v\n", h)
	}
	return h
}

// given looks whether what nobody refers to any more becomes free.
func (w *world) given() *verdict {
	for last := 0; last < 2; last++ {
		m, c := w.giveUp(last)
		simrt.Forget()
		simsync.DropPools()
		for i := 0; i < 20 && (m.Value() != nil || c.Value() != nil); i++ {
			runtime.GC()
			time.Sleep(time.Duration(i) * time.Millisecond) // finalizers
		}
		if m.Value() != nil {
			return bad("kept", "a Merger that was used and is not referred to any more is kept (%d)", last)
		}
		if c.Value() != nil {
			return bad("kept", "a SimpleCache that was used and is not referred to any more is kept (%d)", last)
		}
	}
	return nil
}

// giveUp uses a Merger and a cache, and forgets them.
//
//go:noinline
func (w *world) giveUp(last int) (wm weak.Pointer[merge.Merger], wc weak.Pointer[merge.SimpleCache]) {
	text := w.t.Sheets[0].Text()
	list := "a b"
	if len(w.t.Probes) > 0 {
		list = string(w.t.Probes[0])
	}
	solo(w.t.Sched.EnvSeed, w.bound()+int64(len(text))*4000, func() {
		c := newCache()
		m := newMerger(c, true)
		m.AddRules(strings.NewReader(text), false)
		m.Merge(list)
		if last == 1 {
			m.Rules()
			m.AddRules(strings.NewReader(text), false)
			c.Clear()
		}
		wm, wc = weak.Make(m), weak.Make(c)
	})
	return
}

// alone carries out the operations one after the other.
func (w *world) alone(ops []*trace.Op, seed uint64) simrt.Result {
	evs := make([]event, len(ops))
	for j, op := range ops {
		evs[j] = event{task: -2, idx: j, op: op, stalls: map[int]bool{}}
		if op.K == "add" {
			evs[j].mem = newMemory(w.opText(op), 0, 0)
		}
	}
	w.probes = evs
	for _, h := range w.ms {
		if h.sim != nil {
			h.sim.w = w
		}
	}
	res := solo(seed, w.bound()+int64(len(ops))*20000, func() {
		for j := range evs {
			w.do(&evs[j])
		}
	})
	w.probes = nil
	for _, h := range w.ms {
		if h.sim != nil {
			h.sim.w = nil
		}
	}
	return res
}
