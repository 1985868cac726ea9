package main

import (
	"fmt"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"

	"verif.local/sim/simrt"
	"verif.local/sim/trace"
)

// verdict is a violation.
type verdict struct {
	Class  string `json:"class"` // kept fixed while the failure is minimised
	Detail string `json:"detail"`
}

func bad(class, f string, args ...any) *verdict {
	return &verdict{class, fmt.Sprintf(f, args...)}
}

// ---- states of the sequential specification

// load is one stylesheet as it was delivered.
type load struct {
	text string
	inl  bool
	op   *trace.Op // one of the calls that delivered it
}

// state is the sequence of loads in effect; a load that happens again later
// counts at its last place only, since it then redefines all it defined.
type state struct {
	loads []int
	twins [2]*twin // by keepSort
	model trace.Model
	abs   bool
	memo  map[string]string
}

// twin is an uncached Merger holding the state's stylesheets, loaded one by one
// from memory.
type twin struct {
	m    *merge.Merger
	bad  string
	memo map[string]string
	keys []string
	dump string
	have bool
}

type oracle struct {
	w      *world
	loads  []load
	byKey  map[string]int
	plain  map[int]plainRes // what loading it alone says
	states []*state
	byLoad map[string]int
	max    int64
	made   map[bool]int
	exact  bool // compare with the twin byte for byte
}

type plainRes struct {
	err string
	bad string
}

func newOracle(w *world) *oracle {
	o := &oracle{w: w, byKey: map[string]int{}, plain: map[int]plainRes{}, byLoad: map[string]int{}, made: map[bool]int{}, max: w.bound()}
	o.state(nil)
	return o
}

func (o *oracle) load(op *trace.Op) int {
	text := o.w.opText(op)
	key := fmt.Sprint(op.Inl, text)
	if i, ok := o.byKey[key]; ok {
		return i
	}
	o.loads = append(o.loads, load{text, op.Inl, op})
	o.byKey[key] = len(o.loads) - 1
	return len(o.loads) - 1
}

func (o *oracle) state(loads []int) int {
	key := fmt.Sprint(loads)
	if i, ok := o.byLoad[key]; ok {
		return i
	}
	s := &state{loads: loads, model: trace.Model{}, abs: true, memo: map[string]string{}}
	for _, l := range loads {
		op := o.loads[l].op
		if len(op.Dmg) > 0 || op.Inl || !o.w.t.Sheets[op.S].Abstract() {
			s.abs = false
			break
		}
		s.model.Load(&o.w.t.Sheets[op.S])
	}
	o.states = append(o.states, s)
	o.byLoad[key] = len(o.states) - 1
	return len(o.states) - 1
}

func (o *oracle) after(st, l int) int {
	var loads []int
	for _, x := range o.states[st].loads {
		if x != l {
			loads = append(loads, x)
		}
	}
	return o.state(append(loads, l))
}

// quiet runs f alone under the simulator, with bounded work.
func (o *oracle) quiet(f func()) (failed string) {
	res := solo(o.w.t.Sched.EnvSeed^3, o.max, func() {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(simrt.Aborted); ok {
					panic(a)
				}
				failed = fmt.Sprint("panic: ", e)
			}
		}()
		f()
	})
	if res.Budget {
		failed = "did not finish"
	}
	if res.Deadlock {
		failed = "deadlock"
	}
	return failed
}

// plainLoad says whether a fresh Merger accepts the stylesheet.
func (o *oracle) plainLoad(l int) plainRes {
	if p, ok := o.plain[l]; ok {
		return p
	}
	var p plainRes
	p.bad = o.quiet(func() {
		m := o.newMerger(true)
		if err := m.AddRules(strings.NewReader(o.loads[l].text), o.loads[l].inl); err != nil {
			p.err = "error: " + fmt.Sprint(err)
		}
	})
	o.plain[l] = p
	return p
}

// newMerger makes one that has nothing to do with any other.
func (o *oracle) newMerger(keep bool) *merge.Merger {
	f := newFamily()
	f.from = o.made[keep]
	o.made[keep]++
	return f.newMerger(nil, keep, false)
}

func (o *oracle) twin(st int, keep bool) *twin {
	k := 0
	if keep {
		k = 1
	}
	s := o.states[st]
	if s.twins[k] != nil {
		return s.twins[k]
	}
	t := &twin{memo: map[string]string{}}
	s.twins[k] = t
	o.w.st.Twins++
	t.bad = o.quiet(func() {
		t.m = o.newMerger(keep)
		for _, l := range s.loads {
			if err := t.m.AddRules(strings.NewReader(o.loads[l].text), o.loads[l].inl); err != nil {
				t.bad = "load failed"
				return
			}
		}
	})
	return t
}

func (o *oracle) twinMerge(st int, keep bool, list string) (string, bool) {
	t := o.twin(st, keep)
	if t.bad != "" {
		return "", false
	}
	if s, ok := t.memo[list]; ok {
		return s, true
	}
	var out string
	if f := o.quiet(func() { out = t.m.Merge(strings.Clone(list)) }); f != "" {
		t.bad = f
		return "", false
	}
	t.memo[list] = out
	return out, true
}

func (o *oracle) twinRules(st int, keep bool) ([]string, string, bool) {
	t := o.twin(st, keep)
	if t.bad == "" && !t.have {
		if f := o.quiet(func() { t.keys, t.dump, _ = dumpRules(t.m, false, false) }); f != "" {
			t.bad = f
		}
		t.have = true
	}
	return t.keys, t.dump, t.bad == ""
}

func canonList(s string) bool {
	return s == strings.TrimSpace(s) && !strings.ContainsAny(s, "\t\n\u00a0\x00\xff") && !strings.Contains(s, "  ")
}

// answers says whether the state explains the answer. unknown is set when there
// is no specification of it.
func (o *oracle) answers(st int, h *handle, e *event, useTwin bool) (ok bool, want string) {
	s := o.states[st]
	keep := h.cfg.KeepSort
	switch e.op.K {
	case "merge":
		list := string(e.op.C)
		if s.abs && canonList(list) {
			m, have := s.memo[list]
			if !have {
				m = s.model.Merge(list)
				s.memo[list] = m
			}
			if keep && m != e.out || !keep && trace.Canon(m) != trace.Canon(e.out) {
				return false, m
			}
			if !useTwin {
				return true, m
			}
		}
		t, have := o.twinMerge(st, keep, list)
		if !have {
			return true, ""
		}
		if keep || o.exact {
			return t == e.out, t
		}
		return trace.Canon(t) == trace.Canon(e.out), t
	case "rules":
		if s.abs {
			k := s.model.Keys()
			if strings.Join(k, " ") != strings.Join(e.keys, " ") {
				return false, "the classes " + strings.Join(k, " ")
			}
			if !useTwin {
				return true, ""
			}
		}
		_, dump, have := o.twinRules(st, keep)
		if !have {
			return true, ""
		}
		return dump == e.dump, "the rules " + dump
	}
	return true, ""
}

// ---- the checks

func (w *world) all() []*event {
	var l []*event
	for i := range w.setup {
		l = append(l, &w.setup[i])
	}
	for i := range w.tasks {
		for j := range w.tasks[i] {
			l = append(l, &w.tasks[i][j])
		}
	}
	for i := range w.probes {
		l = append(l, &w.probes[i])
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].call < l[j].call })
	return l
}

func (w *world) history() string {
	var b strings.Builder
	for _, e := range w.all() {
		if e.call == 0 && !e.done {
			continue
		}
		b.WriteString("  " + e.String() + "\n")
		if b.Len() > 12000 {
			b.WriteString("  ...\n")
			break
		}
	}
	return b.String()
}

// check judges a finished run.
func (w *world) check(prop string) *verdict {
	o := newOracle(w)
	merge.SimReset()
	if v := w.checkBasics(prop); v != nil {
		if w.loadsFail(o, prop) {
			w.st.Inconcl++
			return nil
		}
		return v
	}
	var v *verdict
	switch prop {
	case "C01":
		v = w.checkLin(o, false, 30)
	case "C02":
		v = w.checkFresh(o)
	case "C03":
		v = w.checkCaches()
	case "C04":
	case "C05", "C06", "C13":
		v = w.checkLin(o, true, 100)
		if v == nil && prop == "C13" {
			v = w.checkPieces(o)
		}
	case "C07":
		v = w.checkDamage(o)
	case "C15":
		for _, e := range w.all() {
			if e.changed != "" {
				return bad("changed", "the rules that Rules returned changed %s\n  %s", e.changed, e)
			}
		}
	case "C08":
		v = w.checkLin(o, false, 30)
	case "C09", "C10", "C11":
		v = w.checkLin(o, true, 100)
	case "C12":
		if v = w.checkLin(o, false, 30); v == nil {
			v = w.checkCaches()
		}
	}
	return v
}

// loadsFail says whether one of the stylesheets cannot even be loaded on its own
// without a panic or an endless loop. That is C07's business only.
func (w *world) loadsFail(o *oracle, prop string) bool {
	if prop == "C07" {
		return false
	}
	for _, e := range w.all() {
		if (e.pan != "" && !e.panInj || !e.done) && e.op.K == "add" && o.plainLoad(o.load(e.op)).bad != "" {
			return true
		}
	}
	return false
}

// checkBasics looks for what no property allows.
func (w *world) checkBasics(prop string) *verdict {
	names := []string{"before the tasks", "", "after the tasks"}
	for i, r := range []simrt.Result{w.setupRes, w.res, w.probeRes} {
		if r.Deadlock {
			return bad("deadlock", "deadlock %s: the calls that did not return wait for each other or for nobody", names[i])
		}
		if r.Budget {
			var l []string
			for _, e := range w.all() {
				if !e.done && e.call != 0 {
					l = append(l, e.String())
				}
			}
			return bad("noend", "a call did not finish within the work allowed (%d steps, %d ticks) %s: %s", r.Steps, r.Ticks, names[i], strings.Join(l, "; "))
		}
	}
	if prop == "C07" {
		if b := w.allocBound(); w.alloc > b {
			return bad("memory-used", "the calls allocated %d bytes, for streams of such a length they should stay below %d", w.alloc, b)
		}
	}
	for _, e := range w.all() {
		if e.pan != "" && !e.panInj && !e.panFired && !e.cacheFire {
			return bad("panic", "panic: %s in %s", clip(e.pan), e)
		}
		if e.unlike != "" {
			return bad("unlike", "the same calls do not end alike: %s", e.unlike)
		}
		if e.late {
			return bad("late", "the stream was read after the call had returned: %s", e)
		}
		if e.broken != "" {
			return bad("memory", "%s: %s", e.broken, e)
		}
		if e.op.K == "restart" && e.isErr {
			return bad("restart", "%s", e.err)
		}
		if prop == "C08" && e.op.K != "many" && (e.panFired || e.cacheFire) && e.done && e.pan == "" {
			return bad("panic-swallowed", "the injected panic did not reach the caller: %s", e)
		}
	}
	if prop == "C14" {
		for i, r := range []simrt.Result{w.setupRes, w.res, w.probeRes} {
			if len(r.Left) > 0 {
				d := "a goroutine that a call started goes on after the call has returned, and does not end by itself (" + strings.TrimSpace("phase "+names[i]) + ")"
				if e := w.byTag(r.Left[0].Tag); e != nil {
					d += ": " + e.String()
				}
				return bad("left", "%s", d)
			}
		}
		for _, e := range w.all() {
			if e.lateCache {
				return bad("late-cache", "the user's cache was used after the call had returned: %s", e)
			}
		}
	}
	if prop != "C04" { // somebody may write around the stylesheet in C09
		for _, e := range w.all() {
			if e.mem != nil {
				if s := e.mem.guards(); s != "" {
					return bad("memory", "%s: %s", s, e)
				}
			}
		}
	}
	if w.races > 0 {
		switch prop {
		case "C01", "C02", "C03", "C04", "C09", "C12":
			return bad("race", "data race\n%s", raceReport())
		}
	}
	if prop == "C08" && len(w.res.HeldUp) > 0 {
		var l []string
		for _, h := range w.res.HeldUp {
			ti, i := int(h.Tag>>32)-3, int(h.Tag&0xffffffff)-1
			if ti >= 0 && ti < len(w.tasks) && i >= 0 && i < len(w.tasks[ti]) {
				l = append(l, w.tasks[ti][i].String())
			}
		}
		if len(l) > 0 {
			return bad("heldup", "these calls made no progress while another call's stream was stalled: %s", strings.Join(l, "; "))
		}
	}
	return nil
}

// addOutcome judges the value an AddRules call returned. effect says whether the
// load counts; unclear, that it cannot be judged.
func (w *world) addOutcome(o *oracle, e *event) (effect, unclear bool, v *verdict) {
	if e.pan != "" {
		return false, false, nil
	}
	l := o.load(e.op)
	if e.errFired {
		if !e.isErr {
			if w.t.Prop == "C05" || w.t.Prop == "C06" {
				return false, false, bad("error-lost", "the stream reported an error (%s) but AddRules returned nil: %s", e.op.D.Err.Kind, e)
			}
			return false, true, nil
		}
		return false, false, nil
	}
	if e.isErr && len(e.op.Dmg) == 0 && !e.op.Inl && w.t.Sheets[e.op.S].Abstract() {
		return false, false, bad("refused", "AddRules failed with %q on an undamaged stylesheet of plain rules: %s", e.err, e)
	}
	p := o.plainLoad(l)
	if p.bad == "" && (p.err != "") != e.isErr {
		if e.isErr {
			return false, false, bad("error-spurious", "AddRules failed with %q on a stylesheet that loads without error on its own: %s", e.err, e)
		}
		return false, false, bad("error-missed", "AddRules returned nil for a stylesheet that a fresh Merger rejects with %s: %s", clip(p.err), e)
	}
	return !e.isErr, false, nil
}

// checkLin checks every Merger's calls for linearizability.
func (w *world) checkLin(o *oracle, exact bool, twinPct int) *verdict {
	o.exact = exact
	useTwin := int(trace.NewRng(w.t.Seed^0xabcdef).U()%100) < twinPct
	for mi, h := range w.ms {
		var ops []linOp
		var evs []*event
		skip := false
		adds := 0
		for _, e := range w.all() {
			if e.op.M != mi || !e.done {
				continue
			}
			switch e.op.K {
			case "add":
				effect, unclear, v := w.addOutcome(o, e)
				if v != nil {
					return v
				}
				if unclear {
					skip = true
				}
				if !effect {
					continue
				}
				adds++
			case "merge", "rules":
				if e.pan != "" {
					continue
				}
			default:
				continue
			}
			ops = append(ops, linOp{e.call, e.ret, e})
			evs = append(evs, e)
		}
		if skip {
			w.st.Inconcl++
			continue
		}
		w.st.LinOps += int64(len(ops))
		step := func(st int, v any) (int, bool) {
			e := v.(*event)
			if e.op.K == "add" {
				return o.after(st, o.load(e.op)), true
			}
			ok, _ := o.answers(st, h, e, useTwin)
			return st, ok
		}
		b, capped := linearize(ops, 0, step, &w.st.LinStates)
		if capped {
			w.st.Inconcl++
			continue
		}
		if b >= 0 {
			return bad("answer", "no order of the calls explains what Merger %d answered, up to the return of\n  %s\n%s", mi, evs[b], o.explain(mi, evs, b, useTwin))
		}
	}
	return nil
}

// explain says what the answer should have been if the history is sequential.
func (o *oracle) explain(mi int, evs []*event, b int, useTwin bool) string {
	var s strings.Builder
	e := evs[b]
	st := 0
	clear := true
	for _, x := range evs[:b] {
		if x.op.K == "add" {
			st = o.after(st, o.load(x.op))
		}
		if x.ret > e.call {
			clear = false
		}
	}
	for _, x := range evs[b+1:] {
		if x.call < e.ret && x.op.K == "add" {
			clear = false
		}
	}
	ok, want := o.answers(st, o.w.ms[mi], e, useTwin)
	if !ok && clear {
		got := e.out
		if e.op.K == "rules" {
			got = "the rules " + e.dump
		}
		fmt.Fprintf(&s, "  got  %q\n  want %q\n", clip(got), clip(want))
	} else {
		fmt.Fprintf(&s, "  (with the loads in the order of their calls the answer would be %q)\n", clip(want))
	}
	return s.String()
}

// checkFresh looks for answers from superseded rules. Each answer is taken alone:
// there must be a moment between call and return at which the loads in effect
// explain it. Whether a mixture of a load still in progress is seen is C01's
// question, so while one is in progress an answer counts only if it is the one
// of a state that was superseded before the call began.
func (w *world) checkFresh(o *oracle) *verdict {
	useTwin := int(trace.NewRng(w.t.Seed^0xabcdef).U()%100) < 30
	for mi, h := range w.ms {
		var adds []linOp
		for _, e := range w.all() {
			if e.op.K == "add" && e.op.M == mi && e.done {
				effect, unclear, v := w.addOutcome(o, e)
				if v != nil {
					return v
				}
				if unclear {
					w.st.Inconcl++
					return nil
				}
				if effect {
					adds = append(adds, linOp{e.call, e.ret, e})
				}
			}
		}
		step := func(st int, v any) (int, bool) {
			e := v.(*event)
			if e.op.K == "add" {
				return o.after(st, o.load(e.op)), true
			}
			ok, _ := o.answers(st, h, e, useTwin)
			return st, ok
		}
		for _, e := range w.all() {
			if e.op.K != "merge" || e.op.M != mi || !e.done || e.pan != "" {
				continue
			}
			w.st.LinOps++
			// Loads that begin after the return do not matter.
			var ops []linOp
			inProgress, before := false, 0
			for _, a := range adds {
				if a.call > e.ret {
					continue
				}
				ops = append(ops, a)
				if a.ret > e.call {
					inProgress = true
				} else {
					before++
				}
			}
			if before == 0 {
				continue
			}
			ops = append(ops, linOp{e.call, e.ret, e})
			b, capped := linearize(ops, 0, step, &w.st.LinStates)
			if capped {
				w.st.Inconcl++
				continue
			}
			if b < 0 {
				continue
			}
			if inProgress {
				stale := false
				// The same question asked any time before the last completed load.
				for k := 0; k < before; k++ {
					early := []linOp{}
					for _, a := range adds[:min(len(adds), k)] {
						early = append(early, a)
					}
					st := 0
					for _, a := range early {
						st, _ = step(st, a.v)
					}
					if ok, _ := o.answers(st, h, e, useTwin); ok {
						stale = true
					}
				}
				if !stale {
					w.st.Inconcl++
					continue
				}
			}
			st := 0
			for _, a := range adds {
				if a.ret < e.call {
					st, _ = step(st, a.v)
				}
			}
			_, want := o.answers(st, h, e, useTwin)
			return bad("stale", "an answer that rules including all stylesheets loaded before the call do not explain:\n  %s\n  (loads in the order of their calls up to then give %q)\n", e, clip(want))
		}
	}
	return nil
}

// checkPieces compares with the stylesheet loaded whole.
func (w *world) checkPieces(o *oracle) *verdict {
	if w.t.Note != "pieces" {
		return nil
	}
	last := map[int]int{}
	n := 0
	for _, e := range w.all() {
		if e.op.K != "add" {
			continue
		}
		n++
		l := o.load(e.op)
		if p := o.plainLoad(l); p.err != "" || p.bad != "" {
			return nil
		}
		if e.done && !e.isErr && e.pan == "" {
			last[e.op.S] = n
		}
	}
	// The trace may have been cut down: the last loads must be all pieces in order.
	var texts []string
	for s := 1; s < len(w.t.Sheets); s++ {
		if last[s] == 0 || s > 1 && last[s] < last[s-1] {
			return nil
		}
		texts = append(texts, w.t.Sheets[s].Text())
	}
	if len(texts) == 0 {
		return nil
	}
	var items int
	for s := 1; s < len(w.t.Sheets); s++ {
		items += len(w.t.Sheets[s].Items)
	}
	if items != len(w.t.Sheets[0].Items) {
		return nil
	}
	whole := o.load(&trace.Op{K: "add", S: 0})
	if p := o.plainLoad(whole); p.bad != "" || p.err != "" {
		if p.bad != "" {
			return nil
		}
		return bad("pieces", "every piece loads, but the whole stylesheet is rejected: %s", p.err)
	}
	st := o.after(0, whole)
	for i := range w.probes {
		e := &w.probes[i]
		if !e.done || e.pan != "" || len(w.ms) == 0 {
			continue
		}
		o.exact = true
		if ok, want := o.answers(st, w.ms[e.op.M], e, true); !ok {
			return bad("pieces", "the stylesheet in pieces answers\n  %s\nloaded whole it answers %q\n", e, clip(want))
		}
	}
	return nil
}

// checkDamage: classes of sheet 0 are answered as before damaged loads that do
// not mention them.
func (w *world) checkDamage(o *oracle) *verdict {
	m := trace.Model{}
	m.Load(&w.t.Sheets[0])
	if !w.t.Sheets[0].Abstract() {
		return nil
	}
	for i := range w.setup {
		if e := &w.setup[i]; e.op.K == "add" && (e.op.S != 0 || len(e.op.Dmg) > 0 || e.isErr) {
			return nil
		}
	}
	if len(w.setup) == 0 {
		return nil
	}
	for _, ops := range w.tasks {
		for i := range ops {
			e := &ops[i]
			if e.op.K == "add" && strings.Contains(strings.ToLower(w.opText(e.op)), "zq") {
				return nil
			}
			if e.op.K != "merge" || e.op.N != 1 || !e.done {
				continue
			}
			want := m.Merge(string(e.op.C))
			got := e.out
			if !w.ms[e.op.M].cfg.KeepSort {
				want, got = trace.Canon(want), trace.Canon(got)
			}
			if want != got {
				return bad("poisoned", "classes the damaged stylesheet does not mention are answered differently:\n  %s\n  want %q\n", e, want)
			}
		}
	}
	return nil
}

// checkCaches checks the SimpleCaches used directly.
func (w *world) checkCaches() *verdict {
	for ci := range w.cs {
		// Keys the tasks use are checked fully; the others in one go.
		used := map[string]bool{}
		cleared := false
		for _, evs := range w.tasks {
			for i := range evs {
				if e := &evs[i]; e.op.M == ci {
					switch e.op.K {
					case "cget", "cset":
						used[string(e.op.C)] = true
					case "cclear":
						cleared = true
					}
				}
			}
		}
		start := map[string]string{}
		for i := range w.setup {
			if e := &w.setup[i]; e.op.M == ci {
				switch e.op.K {
				case "cset":
					start[string(e.op.C)] = string(e.op.V)
				case "cclear":
					clear(start)
				case "cget":
					v, ok := start[string(e.op.C)]
					if v != e.out || ok != e.ok {
						return bad("cache", "no order of the calls explains\n  %s\n", e)
					}
				}
			}
		}
		var states []map[string]string
		ids := map[string]int{}
		intern := func(m map[string]string) int {
			k := fmt.Sprintf("%q", m)
			if i, ok := ids[k]; ok {
				return i
			}
			states = append(states, m)
			ids[k] = len(states) - 1
			return len(states) - 1
		}
		init := map[string]string{}
		for k := range used {
			if v, ok := start[k]; ok {
				init[k] = v
			}
		}
		var ops []linOp
		var evs []*event
		for _, e := range w.all() {
			if e.op.M != ci || !e.done || e.task == -1 {
				continue
			}
			switch e.op.K {
			case "cget":
				if !used[string(e.op.C)] {
					v, ok := start[string(e.op.C)]
					if cleared {
						v, ok = "", false
					}
					if v != e.out || ok != e.ok {
						return bad("cache", "no order of the calls explains\n  %s\n", e)
					}
					continue
				}
			case "cset", "cclear":
			default:
				continue
			}
			ops = append(ops, linOp{e.call, e.ret, e})
			evs = append(evs, e)
		}
		w.st.LinOps += int64(len(ops))
		step := func(st int, v any) (int, bool) {
			e := v.(*event)
			m := states[st]
			switch e.op.K {
			case "cget":
				v, ok := m[string(e.op.C)]
				return st, ok == e.ok && v == e.out
			case "cclear":
				return intern(map[string]string{}), true
			}
			n := map[string]string{}
			for k, v := range m {
				n[k] = v
			}
			n[string(e.op.C)] = string(e.op.V)
			return intern(n), true
		}
		b, capped := linearize(ops, intern(init), step, &w.st.LinStates)
		if capped {
			w.st.Inconcl++
			continue
		}
		if b >= 0 {
			return bad("cache", "no order of the calls explains what SimpleCache %d answered, up to the return of\n  %s\n", ci, evs[b])
		}
	}
	return nil
}

// same compares two runs of C11: the same question always has the same answer.
type said struct {
	out string
	ev  string
}

func (w *world) collectAnswers(seen map[string]said, variant int) *verdict {
	for _, e := range w.all() {
		if !e.done || e.pan != "" {
			continue
		}
		var key, out string
		switch e.op.K {
		case "merge":
			key, out = fmt.Sprintf("m%d.Merge(%q)", e.op.M, e.op.C), e.out
			if e.task == -1 {
				continue // rules were not complete yet
			}
		case "rules":
			key, out = fmt.Sprintf("m%d.Rules()", e.op.M), e.dump
			if e.task == -1 {
				continue
			}
		default:
			continue
		}
		if s, ok := seen[key]; !ok {
			seen[key] = said{out, e.String()}
		} else if s.out != out {
			return bad("differs", "the same question has two answers; once\n  %s\nthen, in run %d of the same loads,\n  %s\n%s", s.ev, variant, e, diff(s.out, out))
		}
	}
	return nil
}

func diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			o := ""
			if i < len(lb) {
				o = lb[i]
			}
			return fmt.Sprintf("  %q\n  %q\n", clip(la[i]), clip(o))
		}
	}
	return ""
}
