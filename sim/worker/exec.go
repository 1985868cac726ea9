package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	merge "github.com/tylantz/go-tailwind-merge"

	"verif.local/sim/simrt"
	"verif.local/sim/trace"
)

// event is what one call did.
type event struct {
	task, idx int
	op        *trace.Op
	call, ret int64
	done      bool
	out       string
	ok        bool
	isErr     bool
	err       string
	pan       string        // panic the caller got
	panInj    bool          // one that the simulator caused
	panFired  bool          // the stream panicked inside this call
	cacheFire bool          // the cache panicked inside this call
	errFired  bool          // the stream reported an error inside this call
	late      bool          // the stream was read after the call
	lateCache bool          // the cache was used after the call
	again     func() string // the rules it returned, dumped again
	changed   string        // how they changed
	keys      []string
	dump      string
	mem       *memory
	rd        *reader
	stalls    map[int]bool
	broken    string // damage to the caller's memory
	unlike    string // one of many equal calls was not like the others
}

func (e *event) String() string {
	var b strings.Builder
	if e.task >= 0 {
		fmt.Fprintf(&b, "task %d: ", e.task)
	} else if e.task == -1 {
		b.WriteString("before:  ")
	} else {
		b.WriteString("after:   ")
	}
	op := e.op
	switch op.K {
	case "merge":
		fmt.Fprintf(&b, "m%d.Merge(%q)", op.M, clip(string(op.C)))
		if e.done && e.pan == "" {
			fmt.Fprintf(&b, " = %q", clip(e.out))
		}
	case "add":
		fmt.Fprintf(&b, "m%d.AddRules(sheet %d%s)", op.M, op.S, map[bool]string{true: " damaged", false: ""}[len(op.Dmg) > 0])
		if e.done && e.pan == "" {
			if e.isErr {
				fmt.Fprintf(&b, " = error %q", e.err)
			} else {
				b.WriteString(" = nil")
			}
		}
	case "rules":
		fmt.Fprintf(&b, "m%d.Rules()", op.M)
		if e.done {
			fmt.Fprintf(&b, " has %q", clip(strings.Join(e.keys, " ")))
		}
	case "cget":
		fmt.Fprintf(&b, "c%d.Get(%q)", op.M, clip(string(op.C)))
		if e.done && e.pan == "" {
			fmt.Fprintf(&b, " = %q, %v", clip(e.out), e.ok)
		}
	case "cset":
		fmt.Fprintf(&b, "c%d.Set(%q, %q)", op.M, clip(string(op.C)), clip(string(op.V)))
	case "cclear":
		fmt.Fprintf(&b, "c%d.Clear()", op.M)
	case "many":
		fmt.Fprintf(&b, "%d times %s %q", op.N, op.V, clip(string(op.C)))
	default:
		fmt.Fprintf(&b, "%s", op.K)
	}
	if e.errFired {
		b.WriteString(" [stream error]")
	}
	if e.panFired {
		b.WriteString(" [stream panic]")
	}
	if e.cacheFire {
		b.WriteString(" [cache panic]")
	}
	if e.pan != "" {
		fmt.Fprintf(&b, " PANIC %s", clip(e.pan))
	}
	if !e.done {
		b.WriteString(" did not return")
	}
	fmt.Fprintf(&b, "  @%d-%d", e.call, e.ret)
	return b.String()
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:200] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

type stats struct {
	Runs       int64
	RaceRuns   int64
	Steps      int64
	Ticks      int64
	Switches   int64
	Blocks     int64
	SyncOps    int64
	Ops        int64
	Adds       int64
	Merges     int64
	MapRanges  int64
	Idle       int64
	Overlaps   int64 // runs in which a load and another call overlapped
	Concurrent int64 // runs with more than one task switch
	Twins      int64
	LinOps     int64
	LinStates  int64
	Inconcl    int64
	Extended   int64 // long runs that were made longer to tell growth from noise
	Faults     map[string]int64
	Hashes     []uint64
}

func (s *stats) fault(name string, n int64) {
	faultMu(s, name, n)
}

// Counters are touched by one task at a time; the race detector must not see them
// as a link between tasks, nor complain about them.
//
//go:norace
func faultMu(s *stats, name string, n int64) {
	for i := range counters {
		if counters[i].name == name {
			counters[i].n += n
			return
		}
		if counters[i].name == "" {
			counters[i].name = name
			counters[i].n = n
			return
		}
	}
}

var counters [128]struct {
	name string
	n    int64
}

func (s *stats) collect() {
	if s.Faults == nil {
		s.Faults = map[string]int64{}
	}
	for i := range counters {
		if counters[i].name != "" {
			s.Faults[counters[i].name] += counters[i].n
			counters[i].n = 0
		}
	}
}

// smallStack is the stack of runs with very deep nesting.
const smallStack = 16 << 20

type handle struct {
	cfg   trace.MergerCfg
	m     *merge.Merger
	cache merge.Cache
	sim   *simCache
}

// world is one simulated run.
type world struct {
	t        *trace.Trace
	st       *stats
	ms       []*handle
	cs       []*merge.SimpleCache
	setup    []event
	tasks    [][]event
	probes   []event
	res      simrt.Result
	setupRes simrt.Result
	probeRes simrt.Result
	texts    map[string]string
	textWtch bool
	races    int
	alloc    uint64
	round    int // of a long run
}

// numbered puts the number of the round into a text.
func (w *world) numbered(s string) string {
	if w.t.Rounds == 0 || !strings.Contains(s, "@@") {
		return s
	}
	return strings.ReplaceAll(s, "@@", strconv.Itoa(w.round))
}

// ---- making Mergers

type pristineKey struct {
	cache string
	keep  bool
}

// pristine are Mergers fresh from NewMerger, several of each kind if they turn
// out to have memory in common: their copies then have it in common too.
var pristine = map[pristineKey][]pristineMerger{}
var cloneFails string
var related bool

type pristineMerger struct {
	m     *merge.Merger
	cache unsafe.Pointer
}

// How Mergers are made. A verdict counts only if the run comes to it with real ones.
const (
	mkShare = iota // deep copies of one made by NewMerger, but for large tables, which are shared
	mkCopy         // deep copies
	mkReal         // NewMerger
)

var making = mkShare
var sharing *sharer

// newMerger is NewMerger. Goroutines that it starts belong to the Merger.
func newMerger(c merge.Cache, keep bool) *merge.Merger {
	defer simrt.SetTag(simrt.Tag())
	simrt.SetTag(simrt.Background)
	return merge.NewMerger(c, keep)
}

// newCache is NewCache.
func newCache() *merge.SimpleCache {
	defer simrt.SetTag(simrt.Tag())
	simrt.SetTag(simrt.Background)
	return merge.NewCache()
}

func makePristine(k pristineKey) pristineMerger {
	n := simrt.Backgrounds()
	p := makeFresh(k)
	if simrt.Backgrounds() > n {
		cloneFails = "a goroutine belongs to it"
	}
	if inside(reflect.ValueOf(p.m)) {
		cloneFails = "a pointer into the middle of an object"
	}
	return p
}

func makeFresh(k pristineKey) pristineMerger {
	defer simrt.SwapEnv(simrt.SwapEnv(uint64(7 + len(pristine[k]))))
	switch k.cache {
	case "none":
		return pristineMerger{newMerger(nil, k.keep), nil}
	case "simple":
		c := newCache()
		return pristineMerger{newMerger(c, k.keep), unsafe.Pointer(c)}
	}
	c := &simCache{kind: "map"}
	m := newMerger(c, k.keep)
	if c.calls != [3]int{} {
		cloneFails = "NewMerger uses its cache"
	}
	return pristineMerger{m, unsafe.Pointer(c)}
}

// sameKind is how many Mergers of each kind there are to copy if two copies of
// one cannot be told from two Mergers.
var sameKind = 3

// prepare makes what is going to be copied.
func prepare() {
	if cloneFails == "" && making != mkReal && len(pristine) == 0 {
		makeAllPristine()
	}
}

func makeAllPristine() {
	merge.SimReset()
	pristine = map[pristineKey][]pristineMerger{}
	k := pristineKey{"none", false}
	l := []pristineMerger{makePristine(k), makePristine(k)}
	pristine[k] = l
	n := simrt.Backgrounds()
	if newCache(); simrt.Backgrounds() > n {
		cloneFails = "a goroutine belongs to it"
	}
	simrt.Discard()

	seen := map[unsafe.Pointer]bool{}
	for i, p := range l {
		f := finger{ptrs: map[unsafe.Pointer]bool{}, seen: map[unsafe.Pointer]bool{}}
		f.hash(reflect.ValueOf(p.m).Elem())
		for q := range f.ptrs {
			if i > 0 && seen[q] {
				related = true
			}
			seen[q] = true
		}
	}
	if !related {
		return
	}
	for _, c := range []string{"none", "simple", "sim"} {
		for _, keep := range []bool{false, true} {
			k := pristineKey{c, keep}
			for len(pristine[k]) < sameKind {
				pristine[k] = append(pristine[k], makePristine(k))
			}
		}
	}
}

// A family is the Mergers made in one process.
type family struct {
	c    *cloner
	used map[pristineKey]int
	from int // how many others there are
}

func newFamily() *family {
	if making == mkShare && sharing == nil {
		sharing = newSharer()
	}
	sh := sharing
	if making != mkShare {
		sh = nil
	}
	return &family{newCloner(sh), map[pristineKey]int{}, 0}
}

// newMerger makes a Merger as NewMerger would.
func (b *family) newMerger(cache merge.Cache, keep, real bool) *merge.Merger {
	if real || cloneFails != "" || making == mkReal {
		return newMerger(cache, keep)
	}
	k := pristineKey{"sim", keep}
	switch cache.(type) {
	case nil:
		k.cache = "none"
	case *merge.SimpleCache:
		k.cache = "simple"
	}
	i := 0
	if related {
		i = b.from + b.used[k]
		b.used[k]++
	}
	if i >= sameKind {
		return newMerger(cache, keep)
	}
	if !related {
		b.c = newCloner(b.c.sh)
	}
	for len(pristine[k]) <= i {
		pristine[k] = append(pristine[k], makePristine(k))
	}
	if cloneFails != "" {
		return newMerger(cache, keep)
	}
	p := pristine[k][i]
	if cache != nil {
		b.c.subs[p.cache] = reflect.ValueOf(cache)
	}
	v, err := b.c.deepClone(reflect.ValueOf(p.m))
	if err != nil {
		cloneFails = err.Error()
		return newMerger(cache, keep)
	}
	return v.Interface().(*merge.Merger)
}

func (w *world) makeCache(i int, cfg trace.MergerCfg) (merge.Cache, *simCache) {
	switch cfg.Cache {
	case "none":
		return nil, nil
	case "simple":
		return newCache(), nil
	case "share":
		h := w.ms[0]
		return h.cache, h.sim
	}
	c := &simCache{w: w, kind: cfg.Cache, rng: cfg.Seed*2 + 1, panicOn: cfg.PanicOn, panicAt: cfg.PanicAt}
	return c, c
}

func (w *world) makeMergers() {
	b := newFamily()
	for i, cfg := range w.t.Mergers {
		simrt.SwapEnv(w.t.Sched.EnvSeed ^ 7<<8 ^ uint64(i))
		cache, sim := w.makeCache(i, cfg)
		w.ms = append(w.ms, &handle{cfg: cfg, cache: cache, sim: sim, m: b.newMerger(cache, cfg.KeepSort, cfg.Real)})
	}
	for i := 0; i < w.t.Caches; i++ {
		simrt.SwapEnv(w.t.Sched.EnvSeed ^ 8<<8 ^ uint64(i))
		w.cs = append(w.cs, newCache())
	}
}

// ---- texts

func (w *world) opText(op *trace.Op) string {
	key := fmt.Sprint(op.S, "|", op.Dmg, op.Inl)
	if s, ok := w.texts[key]; ok {
		return s
	}
	s := ""
	if op.S < len(w.t.Sheets) {
		s = w.numbered(trace.Apply(w.t.Sheets[op.S].Text(), op.Dmg, w.t.Sheets))
	}
	w.texts[key] = s
	return s
}

// ---- running

// bound is the number of steps a run over that many bytes and calls may take.
func (w *world) bound() int64 {
	n := int64(0)
	calls := int64(0)
	count := func(ops []trace.Op) {
		for i := range ops {
			calls++
			op := &ops[i]
			switch op.K {
			case "add":
				n += int64(1+op.Rep) * int64(len(w.opText(op)))
				calls += int64(op.Rep)
			case "merge":
				n += 200 * int64(len(op.C))
			case "restart":
				for i := range w.t.Sheets {
					n += int64(len(w.t.Sheets[i].Text()))
				}
			case "rules":
				n += 500
			case "new":
				calls += 40
				n += int64(len(w.opText(op)))
			case "watch":
				n += int64(op.N) * 100
			case "many":
				calls += int64(2 * op.N)
				n += int64(op.N) * 200 * int64(len(op.C))
				if op.V == "add" || op.V == "new" {
					n += int64(op.N) * int64(len(w.opText(op)))
				}
			}
		}
	}
	count(w.t.Setup)
	for _, ops := range w.t.Tasks {
		count(ops)
	}
	for _, p := range w.t.Probes {
		n += 4 * int64(500+200*len(p))
	}
	return 300000 + 3000*n + 20000*calls
}

func solo(env uint64, max int64, f func()) simrt.Result {
	return simrt.Run(simrt.Config{Policy: simrt.PolNone, EnvSeed: env, MaxSteps: max}, []func(){f})
}

// phase is solo with switches between the goroutines the code starts itself.
func phase(env uint64, max int64, f func()) simrt.Result {
	cfg := simrt.Config{Policy: simrt.PolNone, Seed: env * 0x9e3779b97f4a7c15, EnvSeed: env, MaxSteps: max}
	switch env >> 7 % 4 {
	case 1:
		cfg.Policy, cfg.Mean = simrt.PolUniform, 8
	case 2:
		cfg.Policy, cfg.Mean = simrt.PolUniform, 80
	case 3:
		cfg.Policy = simrt.PolSync
	}
	return simrt.Run(cfg, []func(){f})
}

func (w *world) run() {
	t := w.t
	w.texts = map[string]string{}
	if t.Note == "deep" {
		debug.SetMaxStack(smallStack)
		defer debug.SetMaxStack(1 << 30)
	}
	if w.ms == nil && w.cs == nil {
		prepare()
		merge.SimReset()
		w.makeMergers()
	}
	max := w.bound()
	// Memory of the streams exists before the run starts.
	prep := func(ev *event, op *trace.Op, task, idx int) {
		ev.task, ev.idx, ev.op = task, idx, op
		ev.stalls = map[int]bool{}
		if op.K == "add" {
			before, spare := 0, 0
			if op.D != nil {
				before, spare = op.D.Before, op.D.Spare
			}
			ev.mem = newMemory(w.opText(op), before, spare)
		}
		if op.K == "watch" && op.S == 2 {
			w.textWtch = true
		}
	}
	w.setup = make([]event, len(t.Setup))
	for i := range t.Setup {
		prep(&w.setup[i], &t.Setup[i], -1, i)
	}
	w.tasks = make([][]event, len(t.Tasks))
	for i, ops := range t.Tasks {
		w.tasks[i] = make([]event, len(ops))
		for j := range ops {
			prep(&w.tasks[i][j], &ops[j], i, j)
		}
	}
	if len(t.Setup) > 0 {
		w.setupRes = phase(t.Sched.EnvSeed^1, max, func() {
			for i := range w.setup {
				w.do(&w.setup[i])
			}
		})
		for i := range w.setup {
			// before everything in the run
			w.setup[i].call = int64(2*(i-len(w.setup))) - 2
			w.setup[i].ret = w.setup[i].call + 1
		}
	}
	cfg := t.Sched
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = max
	}
	bodies := make([]func(), len(t.Tasks))
	for i := range t.Tasks {
		i := i
		bodies[i] = func() {
			for j := range w.tasks[i] {
				w.do(&w.tasks[i][j])
			}
		}
	}
	before := simrt.RaceErrors()
	mem := allocated()
	w.res = simrt.Run(cfg, bodies)
	w.alloc = allocated() - mem
	w.races = simrt.RaceErrors() - before
	// Questions afterwards, one caller only.
	if !w.res.Deadlock && !w.res.Budget {
		var ops []*trace.Op
		for m := range w.ms {
			for _, p := range t.Probes {
				ops = append(ops, &trace.Op{K: "merge", M: m, C: p})
			}
			if t.Note != "many" {
				ops = append(ops, &trace.Op{K: "rules", M: m})
			}
		}
		for c := range w.cs {
			for _, p := range t.Probes {
				ops = append(ops, &trace.Op{K: "cget", M: c, C: p})
			}
		}
		w.probes = make([]event, len(ops))
		for i, op := range ops {
			prep(&w.probes[i], op, -2, i)
		}
		for _, h := range w.ms {
			if h.sim != nil {
				h.sim.panicOn = ""
			}
		}
		w.probeRes = phase(t.Sched.EnvSeed^2, max, func() {
			for i := range w.probes {
				w.do(&w.probes[i])
			}
		})
		for i := range w.probes {
			w.probes[i].call = 1<<40 + int64(2*i)
			w.probes[i].ret = 1<<40 + int64(2*i) + 1
		}
	}
	if t.Prop == "C15" {
		w.rereadAll()
	}
	w.account()
}

// allocated is how many bytes the process has allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// allocBound is what the calls of a run may allocate: much more than they do,
// but bounded by the lengths of the streams. (Building a long name from escapes
// is quadratic.)
func (w *world) allocBound() uint64 {
	n := uint64(0)
	for _, ops := range w.t.Tasks {
		for i := range ops {
			if ops[i].K == "add" {
				n += uint64(len(w.opText(&ops[i])))
			} else {
				n += 10000
			}
		}
	}
	return 32<<20 + 4096*n + n*n
}

// rereadAll looks at all rules ever returned once more.
func (w *world) rereadAll() {
	res := solo(w.t.Sched.EnvSeed^5, w.bound(), func() {
		for _, e := range w.all() {
			if e.done && e.again != nil {
				e.reread("by the end")
			}
		}
	})
	if res.Budget || res.Deadlock {
		w.probeRes = res
	}
}

// byTag is the call of that tag.
//
//go:norace
func (w *world) byTag(tag int64) *event {
	task, i := int(tag>>32)-3, int(tag&0xffffffff)-1
	var l []event
	switch {
	case task == -1:
		l = w.setup
	case task == -2:
		l = w.probes
	case task >= 0 && task < len(w.tasks):
		l = w.tasks[task]
	}
	if i < 0 || i >= len(l) {
		return nil
	}
	return &l[i]
}

func (e *event) tag() int64 { return int64(e.task+3)<<32 | int64(e.idx+1) }

// do makes one call and records it.
func (w *world) do(ev *event) {
	op := ev.op
	simrt.SetTag(ev.tag())
	simrt.IO(10)
	ev.call = simrt.Now()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(simrt.Aborted); ok {
					panic(a)
				}
				_, ev.panInj = e.(injected)
				ev.pan = fmt.Sprint(e)
				if re, ok := e.(runtime.Error); ok {
					ev.pan = "runtime error: " + re.Error()
				}
			}
		}()
		w.call(ev, op)
	}()
	ev.ret = simrt.Now()
	ev.end()
	if ev.rd != nil {
		ev.rd.over = true
	}
	if ev.mem != nil {
		w.memoryAfter(ev)
	}
	simrt.NoteString(ev.out)
	simrt.IO(11)
}

//go:norace
func (ev *event) end() { ev.done = true }

func (w *world) memoryAfter(ev *event) {
	if ev.broken == "" {
		ev.broken = ev.mem.text()
	}
	if ev.op.N > 0 && !w.textWtch {
		ev.mem.scribble(ev.op.N)
		w.st.fault("memory_reused", 1)
	}
}

func (w *world) call(ev *event, op *trace.Op) {
	switch op.K {
	case "merge":
		h := w.ms[op.M]
		in := strings.Clone(w.numbered(string(op.C)))
		defer func() { ev.cacheFire = h.firedBy(ev) }()
		ev.out = h.m.Merge(in)
	case "add":
		h := w.ms[op.M]
		rd, r := makeReader(op.D, ev.mem, ev, w.st)
		ev.rd = r
		defer func() { ev.cacheFire = h.firedBy(ev) }()
		err := h.m.AddRules(rd, op.Inl)
		for i := 0; i < op.Rep && err == nil; i++ {
			err = h.m.AddRules(strings.NewReader(ev.mem.orig), op.Inl)
		}
		if err != nil {
			ev.isErr = true
			if _, ok := err.(*ptrErr); !ok {
				ev.err = err.Error()
			}
		}
	case "rules":
		ev.keys, ev.dump, ev.again = dumpRules(w.ms[op.M].m, op.N == 1, w.t.Prop == "C15")
	case "reread":
		// what Rules returned to this caller earlier
		for i := ev.idx - 1; i >= 0 && ev.task >= 0; i-- {
			if e := &w.tasks[ev.task][i]; e.again != nil {
				e.reread("while other calls ran")
				if op.N == 0 {
					break
				}
			}
		}
	case "cget":
		ev.out, ev.ok = w.cs[op.M].Get(strings.Clone(string(op.C)))
	case "cset":
		w.cs[op.M].Set(strings.Clone(w.numbered(string(op.C))), strings.Clone(string(op.V)))
	case "cclear":
		w.cs[op.M].Clear()
	case "new":
		c := newCache()
		m := newMerger(c, true)
		m.AddRules(strings.NewReader(w.t.Sheets[op.S].Text()), false)
		ev.out = m.Merge(string(op.C))
		m.Rules()
	case "many":
		w.many(ev, op)
	case "restart":
		w.restart(ev, op)
	case "watch":
		w.watch(ev, op)
	}
}

// many makes many calls that have to end alike; @@ in the text is their number.
func (w *world) many(ev *event, op *trace.Op) {
	w.st.fault("many_"+string(op.V), int64(op.N))
	unlike := func(i int, got, want string) {
		if ev.unlike == "" {
			ev.unlike = fmt.Sprintf("call %d of %d, %s: %q instead of %q", i+1, op.N, op.V, clip(got), clip(want))
		}
	}
	switch op.V {
	case "merge":
		first := ""
		for i := 0; i < op.N; i++ {
			n := fmt.Sprintf("%05d", i)
			out := w.ms[op.M].m.Merge(strings.ReplaceAll(string(op.C), "@@", n))
			if strings.Contains(string(op.C), "@@") {
				out = strings.ReplaceAll(out, n, "@@")
			}
			if w.t.Prop != "C10" && w.t.Prop != "C11" && !w.ms[op.M].cfg.KeepSort {
				out = trace.Canon(out)
			}
			if i == 0 {
				first = out
			} else if out != first {
				unlike(i, out, first)
			}
		}
	case "cset":
		c := w.cs[op.M]
		for i := 0; i < op.N; i++ {
			n := fmt.Sprintf("%05d", i)
			c.Set(string(op.C)+n, "many"+n)
		}
		for i := 0; i < op.N; i++ {
			n := fmt.Sprintf("%05d", i)
			if v, ok := c.Get(string(op.C) + n); !ok || v != "many"+n {
				unlike(i, fmt.Sprint(v, " ", ok), "many"+n+" true")
			}
		}
	case "new":
		// One of other rules in between, for what is left behind under the wrong name.
		first := ""
		text := w.opText(op)
		for i := 0; i < op.N; i++ {
			m := newMerger(nil, true)
			m.AddRules(strings.NewReader(text), op.Inl)
			out := m.Merge(string(op.C))
			if i == 0 {
				first = out
			} else if out != first {
				unlike(i, out, first)
			}
		}
	case "add": // loads that fail
		if op.D == nil || op.D.Err == nil && op.D.Panic == nil {
			return
		}
		h := w.ms[op.M]
		text := w.opText(op)
		for i := 0; i < op.N; i++ {
			x := &event{task: ev.task, idx: ev.idx, op: op, stalls: map[int]bool{}}
			x.mem = newMemory(text, 0, 0)
			rd, r := makeReader(op.D, x.mem, x, w.st)
			x.rd = r
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(injected); !ok {
							panic(e)
						}
						ev.cacheFire = ev.cacheFire || h.firedBy(ev)
					}
				}()
				h.m.AddRules(rd, op.Inl)
			}()
			if r != nil {
				r.over = true
			}
		}
	}
}

//go:norace
func (h *handle) firedBy(ev *event) bool {
	return h.sim != nil && h.sim.firedN > 0 && h.sim.firedIn == ev.tag()
}

func (e *event) reread(when string) {
	if d := e.again(); d != e.dump && e.changed == "" {
		e.changed = when + "\n" + diff(e.dump, d)
	}
}

// dumpRules asks for the rules and writes them down; again does so once more
// with the map Rules returned.
func dumpRules(m *merge.Merger, use, full bool) (keys []string, dump string, again func() string) {
	rules := m.Rules()
	simrt.IO(12)
	again = func() string {
		keys, dump = nil, ""
		it, k, v := simrt.Range(rules)
		lines := map[string]string{}
		for it.Next(&k, &v) {
			simrt.IO(13)
			keys = append(keys, k)
			lines[k] = v.String()
			if full && v.Selector != nil {
				lines[k] += " " + v.GetSelector() + " " + v.GetCondition() + " " + v.ToCssFormat() + " " + fmt.Sprint(v.Selector.Specificity()) + v.Selector.PseudoElement()
			}
			if use && v.Selector != nil {
				_ = v.GetSelector()
				_ = v.GetCondition()
				_ = v.ToCssFormat()
				_ = v.Selector.Specificity()
				_ = v.Selector.PseudoElement()
			}
		}
		sort.Strings(keys)
		var b strings.Builder
		for _, k := range keys {
			b.WriteString(k)
			b.WriteString(" => ")
			b.WriteString(lines[k])
			b.WriteString("\n")
		}
		if full {
			fmt.Fprintf(&b, "%d classes\n", len(rules))
		}
		dump = b.String()
		return dump
	}
	again()
	return keys, dump, again
}

// restart is a crash of the process: nothing survives but the stylesheets. They
// are loaded again.
func (w *world) restart(ev *event, op *trace.Op) {
	w.st.fault("crash_restart", 1)
	h := w.ms[op.M]
	if op.N == 1 && op.S < len(w.t.Sheets) {
		// in the middle of a load
		text := w.t.Sheets[op.S].Text()
		p := len(text) / 2
		d := &trace.Delivery{Panic: &p}
		tmp := &event{stalls: map[int]bool{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if a, ok := e.(simrt.Aborted); ok {
						panic(a)
					}
				}
			}()
			rd, _ := makeReader(d, newMemory(text, 0, 0), tmp, w.st)
			h.m.AddRules(rd, false)
		}()
	}
	merge.SimReset()
	var again []*event
	for _, evs := range append([][]event{w.setup}, w.tasks...) {
		for i := range evs {
			e := &evs[i]
			if e == ev {
				break
			}
			if e.op.K == "add" && e.op.M == op.M && e.done && !e.isErr && e.pan == "" {
				again = append(again, e)
			}
		}
	}
	h.cache, h.sim = w.makeCache(op.M, h.cfg)
	h.m = newFamily().newMerger(h.cache, h.cfg.KeepSort, h.cfg.Real)
	for _, e := range again {
		if err := h.m.AddRules(strings.NewReader(w.opText(e.op)), e.op.Inl); err != nil {
			ev.isErr = true
			ev.err = "after a restart: " + err.Error()
		}
	}
}

// watch is somebody else's use of the bytes around the stylesheets.
func (w *world) watch(ev *event, op *trace.Op) {
	var mems []*memory
	for i := range w.tasks {
		for j := range w.tasks[i] {
			if m := w.tasks[i][j].mem; m != nil {
				mems = append(mems, m)
			}
		}
	}
	w.st.fault("neighbour_activity", 1)
	for n := 0; n < op.N; n++ {
		for _, m := range mems {
			switch op.S {
			case 0: // write and read back
				for i := range m.arr {
					if i < m.a || i >= m.e {
						m.arr[i] = byte(n)
					}
				}
			}
		}
		for k := 0; k < 1+n%7; k++ {
			simrt.IO(14)
		}
		for _, m := range mems {
			for i := range m.arr {
				if i < m.a || i >= m.e {
					want := byte(guard)
					if op.S == 0 {
						want = byte(n)
					}
					if m.arr[i] != want && ev.broken == "" {
						ev.broken = fmt.Sprintf("while AddRules ran, byte %d of the caller's array, %d after the start of the stylesheet of %d bytes, was %#x instead of %#x", i, i-m.a, m.e-m.a, m.arr[i], want)
					}
				}
			}
			if op.S == 2 && ev.broken == "" {
				if s := m.text(); s != "" {
					ev.broken = "while AddRules ran, " + s
				}
			}
		}
		if op.S == 0 {
			for _, m := range mems {
				for i := range m.arr {
					if i < m.a || i >= m.e {
						m.arr[i] = guard
					}
				}
			}
		}
	}
}

func (w *world) account() {
	st := w.st
	st.Runs++
	if simrt.RaceBuild {
		st.RaceRuns++
	}
	st.Steps += w.res.Steps + w.setupRes.Steps + w.probeRes.Steps
	st.Ticks += w.res.Ticks + w.setupRes.Ticks + w.probeRes.Ticks
	st.Switches += int64(w.res.NSwitch)
	st.Blocks += w.res.Blocks
	st.SyncOps += w.res.SyncOps
	st.MapRanges += w.res.MapRanges + w.setupRes.MapRanges + w.probeRes.MapRanges
	st.Idle += int64(w.res.IdleStall)
	if w.res.NSwitch > len(w.tasks) {
		st.Concurrent++
	}
	overlap := false
	for i := range w.tasks {
		for j := range w.tasks[i] {
			e := &w.tasks[i][j]
			st.Ops++
			switch e.op.K {
			case "add":
				st.Adds++
				for _, d := range e.op.Dmg {
					st.fault("damage_"+d.K, 1)
				}
				for k := range w.tasks {
					if k != i {
						for l := range w.tasks[k] {
							o := &w.tasks[k][l]
							if o.call < e.ret && e.call < o.ret {
								overlap = true
							}
						}
					}
				}
			case "merge":
				st.Merges++
			}
		}
	}
	if overlap {
		st.Overlaps++
	}
	for _, h := range w.ms {
		if c := h.sim; c != nil && h.cfg.Cache != "share" {
			st.fault("cache_lost", int64(c.lost))
			st.fault("cache_evicted", int64(c.evicted))
			st.fault("cache_panic", int64(c.firedN))
			st.fault("cache_hit", int64(c.hits))
			st.fault("cache_miss", int64(c.misses))
		}
	}
	st.fault("preemption", int64(w.res.NSwitch))
	st.fault("map_order", w.res.MapRanges+w.setupRes.MapRanges+w.probeRes.MapRanges)
}

var _ io.Reader = (*reader)(nil)
