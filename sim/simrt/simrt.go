// Package simrt is the deterministic scheduler of the simulation.
//
// The code under test runs on real goroutines, but exactly one of them, the
// holder of the token, ever executes: every other one is parked. The
// instrumented code calls Y before every statement; there, and only there and
// in the shims of package simsync and in the simulated readers and caches, the
// token may pass on. Who gets it is decided by a pseudo-random generator seeded
// from the run's seed, or by a recorded list of switches when a run is replayed.
//
// All functions touching scheduler state are go:norace, and the hand-overs run
// with the race detector's synchronisation events off, so that in a race build
// the detector sees only the synchronisation done by the code under test. For
// the same reason nothing here appends to a shared slice or uses a map: the
// runtime instruments those even in norace functions.
package simrt

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

// MaxTasks bounds the number of tasks of one run, those started by the code
// under test included.
const MaxTasks = 128

const maxSwitch = 1 << 15

// Policies.
const (
	PolUniform  = iota // switch after a geometric number of yield points
	PolHot             // switch often at a random subset of the yield points
	PolPriority        // strict priorities, lowered at a few trigger points
	PolSync            // switch only at locks, readers and caches
	PolNone            // switch only when forced to
)

// Site kinds passed in the top bits of a site number.
const (
	SiteSync uint32 = 1 << 30
	SiteIO   uint32 = 1 << 29
)

// Switch says that when task Task has made At local steps, the token goes to To.
type Switch struct {
	Task int    `json:"t"`
	At   int64  `json:"at"`
	To   int    `json:"to"`
	Site uint32 `json:"site,omitempty"` // where; for the reader only
}

// Config decides a run completely, given the code.
type Config struct {
	Policy   int      `json:"policy"`
	Mean     int64    `json:"mean,omitempty"`     // PolUniform: mean distance between switches
	HotMod   uint32   `json:"hotmod,omitempty"`   // PolHot: one site in HotMod is hot
	Triggers int      `json:"triggers,omitempty"` // PolPriority: number of demotions
	TrigMax  int64    `json:"trigmax,omitempty"`  // PolPriority: latest local step of a trigger
	Seed     uint64   `json:"seed"`               // schedule
	EnvSeed  uint64   `json:"envseed"`            // map iteration order and pools
	MaxSteps int64    `json:"maxsteps"`
	Replay   bool     `json:"replay,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
}

// Result is what a run did.
type Result struct {
	Steps     int64
	Ticks     int64
	Switches  []Switch
	NSwitch   int // including those beyond the recording limit
	SyncOps   int64
	Deadlock  bool
	Budget    bool
	HeldUp    []Held // tasks found waiting while the only other unfinished tasks were stalled
	Left      []Held // goroutines of the code under test that do not end
	IdleStall int    // times that happened to stalled tasks at all
	Blocks    int64  // times a task had to wait
	Hash      uint64
	Spawned   int
	MapRanges int64
	PoolGets  int64
	PoolMiss  int64
	TooMany   bool
}

// Held is a task found waiting for a stalled one, and the operation it was in.
type Held struct {
	Task int
	Tag  int64
}

// Aborted is the panic value that unwinds tasks of a run that was given up.
type Aborted struct{}

const (
	stRunnable = iota
	stBlocked
	stStalled
	stAsleep // on the simulated clock, once there have been very many sleeps
	stDone
)

// Task is a task of the run.
type Task = task

type task struct {
	bg     bool  // goes on from run to run, see Background
	stalls int64 // the operation whose stream stalls
	until  int64 // a sleeping task's time
	cancel bool  // no use in sleeping any longer
	id     int
	wake   chan struct{}
	state  int
	on     uintptr
	steps  int64
	tag    int64
	prio   int64
	trigN  int
	trig   [8]int64
	siteTr uint32
	siteN  int
	sw     []Switch
	swi    int
	sel    []Case
	timer  bool
}

var (
	on      bool
	aborted bool
	replay  bool
	cur     *task
	tasks   [MaxTasks]*task
	ntasks  int
	live    int // runnable tasks
	steps   int64
	ticks   int64
	runlen  int64
	max     int64
	syncOps int64
	blocks  int64
	cfg     Config
	rs      uint64 // schedule generator
	es      uint64 // environment generator
	count   int64  // PolUniform countdown
	hash    uint64
	log     [maxSwitch]Switch
	nlog    int
	nswitch int
	dead    bool
	budget  bool
	heldUp  [MaxTasks]int64 // tag of the operation held up, or 0
	left    [MaxTasks]int64 // tag of the operation a goroutine was left behind by, or 0
	nbody   int
	bodies  int // bodies that have not ended
	idle    int
	lowPrio int64
	spawned int
	mranges int64
	pgets   int64
	pmiss   int64
	skew    int64
	jumps   int // times a sleep ended by moving the clock
	dozes   int // times sleepers were let go on since a stalled task was
	clkRead int64
	tooMany bool
	base    int64 // simulated time before this run
	bgs     [MaxTasks / 2]*task
	nbg     int
	starved int // goroutines that are never run, for want of room
	wg      sync.WaitGroup
	bgwg    sync.WaitGroup
	over    = make(chan struct{}, 1)
)

// Background is the tag of constructors: the goroutines that start under it belong to
// the object that is made and not to a call; they go on from run to run until Discard.
const Background = -1 << 62

//go:norace
func mix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rnd(n uint64) uint64 { return mix(&rs) % n }

//go:norace
func note(v uint64) { hash = (hash ^ v) * 0x100000001b3 }

// Note folds v into the run's event hash.
//
//go:norace
func Note(v uint64) {
	if on {
		note(v)
	}
}

// NoteString folds s into the run's event hash.
//
//go:norace
func NoteString(s string) {
	if on {
		for i := 0; i < len(s); i++ {
			note(uint64(s[i]))
		}
		note(uint64(len(s)))
	}
}

// Active says whether a simulated run is in progress.
//
//go:norace
func Active() bool { return on }

// Now is the global event sequence number.
//
//go:norace
func Now() int64 { steps++; return steps }

// LocalSteps is the number of steps the running task has made.
//
//go:norace
func LocalSteps() int64 {
	if !on {
		return 0
	}
	return cur.steps
}

// T counts work in code where no switch is of interest.
//
//go:norace
func T() {
	if on {
		tick()
	}
}

//go:norace
func tick() {
	ticks++
	if ticks > 16*max && !aborted {
		overBudget()
		panic(Aborted{})
	}
}

// Seen are the yield points that were executed.
var Seen [1 << 14]bool

// Y is a yield point.
//
//go:norace
func Y(site uint32) {
	if on {
		y(site)
	}
}

//go:norace
func overBudget() {
	aborted = true
	budget = true
}

//go:norace
func y(site uint32) {
	t := cur
	if site < uint32(len(Seen)) {
		Seen[site] = true
	}
	steps++
	t.steps++
	runlen++
	if site&SiteSync != 0 {
		syncOps++
	}
	if aborted {
		panic(Aborted{})
	}
	if steps > max {
		overBudget()
		panic(Aborted{})
	}
	if replay {
		for t.swi < len(t.sw) && t.sw[t.swi].At < t.steps {
			t.swi++
		}
		if t.swi < len(t.sw) && t.sw[t.swi].At == t.steps {
			to := t.sw[t.swi].To
			t.swi++
			if to < ntasks && to != t.id && tasks[to].state == stRunnable {
				switchTo(tasks[to], site)
				return
			}
		}
	} else if live > 1 {
		if n := decide(t, site); n != nil && n != t {
			switchTo(n, site)
			return
		}
	}
	if runlen > 40000 && live > 1 {
		// Fairness, so that a spinning task cannot run alone forever.
		for i := 1; i < ntasks; i++ {
			if n := tasks[(t.id+i)%ntasks]; n.state == stRunnable {
				switchTo(n, site)
				return
			}
		}
	}
}

//go:norace
func decide(t *task, site uint32) *task {
	switch cfg.Policy {
	case PolUniform:
		count--
		if count > 0 {
			return nil
		}
		count = 1 + int64(rnd(uint64(2*cfg.Mean)))
		return randomOther(t)
	case PolHot:
		h := uint64(site)*0x9e3779b97f4a7c15 ^ cfg.Seed
		if mix(&h)%uint64(cfg.HotMod) != 0 {
			return nil
		}
		if rnd(2) == 0 {
			return nil
		}
		return randomOther(t)
	case PolPriority:
		hit := false
		for i := 0; i < t.trigN; i++ {
			if t.trig[i] == t.steps {
				hit = true
			}
		}
		if t.siteN > 0 {
			h := uint64(site)*0xff51afd7ed558ccd ^ uint64(t.siteTr)
			if mix(&h)%64 == 0 {
				t.siteN--
				hit = t.siteN == 0 || hit
			}
		}
		if hit {
			lowPrio--
			t.prio = lowPrio
		} else if site&(SiteSync|SiteIO) == 0 {
			return nil
		}
		return best()
	case PolSync:
		if site&(SiteSync|SiteIO) == 0 || rnd(2) == 0 {
			return nil
		}
		return randomOther(t)
	}
	return nil
}

//go:norace
func best() *task {
	var b *task
	for i := 0; i < ntasks; i++ {
		if n := tasks[i]; n.state == stRunnable && (b == nil || n.prio > b.prio) {
			b = n
		}
	}
	return b
}

//go:norace
func randomOther(t *task) *task {
	k := int(rnd(uint64(live - 1)))
	for i := 0; i < ntasks; i++ {
		if n := tasks[i]; n != t && n.state == stRunnable {
			if k == 0 {
				return n
			}
			k--
		}
	}
	return nil
}

//go:norace
func record(t, to *task, site uint32) {
	if nlog < maxSwitch {
		log[nlog] = Switch{t.id, t.steps, to.id, site}
		nlog++
	}
	nswitch++
	note(uint64(t.id)<<48 ^ uint64(t.steps)<<8 ^ uint64(to.id))
	note(uint64(site))
}

//go:norace
func switchTo(n *task, site uint32) {
	t := cur
	record(t, n, site)
	runlen = 0
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if aborted && t.state != stDone {
		panic(Aborted{})
	}
}

// forced picks a successor for a task that cannot go on.
//
//go:norace
func forced(t *task) *task {
	if live == 0 {
		return nil
	}
	if replay {
		// A switch recorded at this step, if it is still possible; otherwise the lowest task.
		for t.swi < len(t.sw) && t.sw[t.swi].At < t.steps {
			t.swi++
		}
		if t.swi < len(t.sw) && t.sw[t.swi].At == t.steps {
			to := t.sw[t.swi].To
			t.swi++
			if to < ntasks && tasks[to].state == stRunnable {
				return tasks[to]
			}
		}
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stRunnable {
				return tasks[i]
			}
		}
		return nil
	}
	if cfg.Policy == PolPriority {
		return best()
	}
	k := int(rnd(uint64(live)))
	for i := 0; i < ntasks; i++ {
		if n := tasks[i]; n.state == stRunnable {
			if k == 0 {
				return n
			}
			k--
		}
	}
	return nil
}

// next finds who runs after the current task stopped running; it resolves
// idleness (releasing stalled tasks) and deadlock.
//
//go:norace
func next(t *task) *task {
	if n := forced(t); n != nil {
		return n
	}
	st, sl := false, false
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stStalled {
			st = true
		}
		if tasks[i].state == stAsleep && (bodies > 0 || !tasks[i].bg) {
			sl = true
		}
	}
	// Time passes before a stalled stream moves, but something that sleeps again and
	// again (a ticker, a polling loop) does not keep it, or the run, from going on.
	if sl && !aborted {
		first := -1
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stAsleep && (bodies > 0 || !tasks[i].bg) && (first < 0 || tasks[i].until < tasks[first].until) {
				first = i
			}
		}
		if bodies > 0 && !st || dozes < 30 && tasks[first].until-base-steps-skew < farOff {
			dozes++
			tasks[first].state = stRunnable
			live++
			return forced(t)
		}
	}
	if st {
		dozes = 0
		idle++
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stBlocked && !tasks[i].bg {
				// An operation may wait for its own stalled stream.
				own := false
				for j := 0; j < ntasks; j++ {
					if tasks[j].state == stStalled && tasks[j].stalls == tasks[i].tag {
						own = true
					}
				}
				if !own {
					heldUp[i] = tasks[i].tag
				}
			}
		}
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stStalled {
				tasks[i].state = stRunnable
				live++
			}
		}
		return forced(t)
	}
	blocked := false
	for i := 0; i < ntasks; i++ {
		if !tasks[i].bg && (tasks[i].state == stBlocked || tasks[i].state == stAsleep) {
			blocked = true
		}
	}
	if !blocked {
		return nil
	}
	// Only goroutines the code under test left behind are waiting: the run is
	// over. Otherwise it is a deadlock. Either way let every task unwind.
	left := true
	for i := 0; i < nbody; i++ {
		if tasks[i].state == stBlocked {
			left = false
		}
	}
	if !aborted {
		aborted = true
		dead = !left
		for i := nbody; i < ntasks; i++ {
			if !tasks[i].bg && (tasks[i].state == stBlocked || tasks[i].state == stAsleep) {
				leave(i)
			}
		}
	}
	for i := 0; i < ntasks; i++ {
		if !tasks[i].bg && (tasks[i].state == stBlocked || tasks[i].state == stAsleep) {
			tasks[i].state = stRunnable
			live++
		}
	}
	return forced(t)
}

//go:norace
func park(t *task, state int, key uintptr) {
	t.state = state
	t.on = key
	t.steps++
	steps++
	live--
	blocks++
	n := next(t)
	if n == t {
		record(t, t, SiteSync)
		return
	}
	if n == nil { // this one goes on from run to run
		end()
		raceDisable()
		<-t.wake
		raceEnable()
		return
	}
	switchTo(n, SiteSync)
}

// end says that nothing goes on in this run any more.
//
//go:norace
func end() {
	on = false
	raceDisable()
	over <- struct{}{}
	raceEnable()
}

//go:norace
func waitEnd() {
	raceDisable()
	<-over
	raceEnable()
}

//go:norace
func leave(i int) {
	if !tasks[i].timer {
		heldLeft(i, tasks[i].tag)
	}
}

//go:norace
func heldLeft(i int, tag int64) {
	if tag == 0 {
		tag = -1
	}
	left[i] = tag
}

// SetTimer marks a task as a timer of the simulated clock.
//
//go:norace
func (t *task) SetTimer() {
	if t != nil {
		t.timer = true
	}
}

// Block makes the running task wait until Wake(key).
//
//go:norace
func Block(p unsafe.Pointer) {
	if aborted {
		panic(Aborted{})
	}
	if steps > max {
		overBudget()
		panic(Aborted{})
	}
	park(cur, stBlocked, uintptr(p))
	if aborted {
		panic(Aborted{})
	}
}

// Wake makes the tasks waiting for key runnable.
//
//go:norace
func Wake(p unsafe.Pointer) {
	if !on {
		return
	}
	for i := 0; i < ntasks; i++ {
		if n := tasks[i]; n.state == stBlocked && n.on == uintptr(p) {
			n.state = stRunnable
			live++
		}
	}
}

// Stall makes the running task, which reads the stream of an operation, wait until no
// other task can run.
//
//go:norace
func Stall(tag int64) {
	if !on {
		return
	}
	if aborted {
		panic(Aborted{})
	}
	cur.stalls = tag
	park(cur, stStalled, 0)
	if aborted {
		panic(Aborted{})
	}
}

// IsAborted says whether the run has been given up and is unwinding.
//
//go:norace
func IsAborted() bool { return aborted }

//go:norace
func newTask() *task {
	t := &task{wake: make(chan struct{}, 1)}
	if !add(t) {
		tooMany = true
		return nil
	}
	wg.Add(1)
	return t
}

// newBackground makes a task that goes on from run to run.
//
//go:norace
func newBackground() *task {
	t := &task{wake: make(chan struct{}, 1), bg: true, tag: Background}
	if nbg == len(bgs) {
		forgetEnded()
	}
	if nbg == len(bgs) || on && !add(t) {
		starved++
		return t
	}
	bgs[nbg] = t
	nbg++
	bgwg.Add(1)
	return t
}

// add gives a task a place in the run.
//
//go:norace
func add(t *task) bool {
	if ntasks == MaxTasks {
		// Continue the number, and the step count, of a goroutine that has ended.
		for i := nbody; i < ntasks; i++ {
			if o := tasks[i]; o.state == stDone {
				t.id, t.steps, t.sw, t.swi = i, o.steps, o.sw, o.swi
				tasks[i] = t
				live++
				t.prio = o.prio
				return true
			}
		}
		return false
	}
	t.id = ntasks
	tasks[ntasks] = t
	ntasks++
	if t.state == stRunnable {
		live++
	}
	if replay {
		n := 0
		for i := range cfg.Switches {
			if cfg.Switches[i].Task == t.id {
				n++
			}
		}
		sw := make([]Switch, n)
		n = 0
		for i := range cfg.Switches {
			if cfg.Switches[i].Task == t.id {
				sw[n] = cfg.Switches[i]
				n++
			}
		}
		t.sw = sw
	}
	if cfg.Policy == PolPriority {
		t.prio = int64(rnd(1 << 20))
		t.trigN = int(rnd(uint64(cfg.Triggers + 1)))
		if t.trigN > len(t.trig) {
			t.trigN = len(t.trig)
		}
		for i := 0; i < t.trigN; i++ {
			// log-uniform: early steps and late steps alike
			m := cfg.TrigMax
			for m > 8 && rnd(3) == 0 {
				m /= 4
			}
			t.trig[i] = 1 + int64(rnd(uint64(m)))
		}
		if rnd(2) == 0 {
			t.siteTr = uint32(rnd(1 << 30))
			t.siteN = 1 + int(rnd(3))
		}
	}
	return true
}

// adopt lets the tasks that go on from run to run take part in this one.
//
//go:norace
func adopt() {
	forgetEnded()
	for i := 0; i < nbg; i++ {
		t := bgs[i]
		t.steps, t.swi, t.sw, t.trigN, t.siteN, t.siteTr = 0, 0, nil, 0, 0, 0
		add(t)
	}
}

//go:norace
func forgetEnded() {
	n := 0
	for i := 0; i < nbg; i++ {
		if t := bgs[i]; t.state != stDone {
			bgs[n] = t
			n++
		}
	}
	for i := n; i < nbg; i++ {
		bgs[i] = nil
	}
	nbg = n
}

// Starved is how many goroutines there was no room for since the last Discard.
//
//go:norace
func Starved() int { return starved }

// Backgrounds is how many goroutines go on from run to run.
//
//go:norace
func Backgrounds() int { return nbg }

// Discard ends the goroutines that go on from run to run.
func Discard() {
	starved = 0
	if Backgrounds() == 0 {
		return
	}
	Run(Config{Policy: PolNone, MaxSteps: 1 << 40}, []func(){giveUpAll})
	bgwg.Wait()
	nbg = 0
	clear(bgs[:])
}

//go:norace
func giveUpAll() {
	aborted = true
	for i := nbody; i < ntasks; i++ {
		if t := tasks[i]; t.state == stBlocked || t.state == stAsleep || t.state == stStalled {
			t.state = stRunnable
			live++
		}
	}
}

//go:norace
func begin(t *task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func finish(t *task) {
	t.state = stDone
	if t.id < nbody {
		bodies--
	}
	t.steps++
	steps++
	live--
	n := next(t)
	if n == nil {
		end()
		return
	}
	record(t, n, SiteSync)
	runlen = 0
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// makeRoom lets cancelled sleepers end if there is no room for another task.
//
//go:norace
func makeRoom() {
	for k := 0; k < 50; k++ {
		var n *task
		for i := nbody; i < ntasks; i++ {
			if tasks[i].state == stDone {
				return
			}
			if n == nil && tasks[i].cancel && tasks[i].state == stRunnable {
				n = tasks[i]
			}
		}
		if n == nil {
			return
		}
		cur.steps++
		steps++
		switchTo(n, SiteSync)
	}
}

// NewTask registers a task that the running task is about to start; the
// instrumented form of a go statement.
//
//go:norace
func NewTask() *task {
	if !on {
		return newBackground()
	}
	spawned++
	y(SiteSync)
	tag := cur.tag
	if tag == Background {
		return newBackground()
	}
	if ntasks == MaxTasks {
		makeRoom()
	}
	t := newTask()
	if t == nil {
		panic("simulator: too many goroutines")
	}
	t.tag = tag
	return t
}

// SetTag names the operation the running task is in; goroutines it starts inherit it.
//
//go:norace
func SetTag(tag int64) {
	if on {
		cur.tag = tag
	}
}

// Tag is the name of the operation the running task is in.
//
//go:norace
func Tag() int64 {
	if on {
		return cur.tag
	}
	return 0
}

// Enter is called first thing on the new goroutine; the function it returns is deferred.
func Enter(t *task) func() {
	if t == nil {
		return func() {}
	}
	begin(t)
	return func() {
		if e := recover(); e != nil {
			if _, ok := e.(Aborted); !ok {
				defer panic(e) // a crash of the process, as without the simulator
				return
			}
		}
		if t.bg {
			finish(t)
			bgwg.Done()
			return
		}
		finish(t)
		wg.Done()
	}
}

func taskMain(t *task, body func()) {
	defer wg.Done()
	begin(t)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(Aborted); !ok {
					panic(e)
				}
			}
		}()
		if !IsAborted() {
			body()
		}
	}()
	finish(t)
}

//go:norace
func setup(c Config) {
	cfg = c
	replay = c.Replay
	for i := range tasks {
		tasks[i] = nil
		heldUp[i] = 0
		left[i] = 0
	}
	ntasks, live, steps, ticks, runlen, syncOps, blocks, nlog, nswitch, idle, spawned = 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	mranges, pgets, pmiss, skew, clkRead, jumps, dozes = 0, 0, 0, 0, 0, 0, 0
	aborted, dead, budget, tooMany = false, false, false, false
	max = c.MaxSteps
	lowPrio = 0
	rs = c.Seed
	es = c.EnvSeed
	hash = 0xcbf29ce484222325
	count = 1
	if c.Mean > 0 && !replay {
		count = 1 + int64(rnd(uint64(2*c.Mean)))
	}
}

// SwapEnv seeds map iteration order, pools and random numbers for code running outside
// of Run. It returns the state to go back to.
//
//go:norace
func SwapEnv(seed uint64) uint64 {
	was := es
	es = seed
	return was
}

//go:norace
func start() {
	on = true
	// Step 0 of task 0 decides who is first.
	first := tasks[0]
	if replay {
		t := tasks[0]
		if len(t.sw) > 0 && t.sw[0].At == 0 {
			if to := t.sw[0].To; to < ntasks {
				first = tasks[to]
			}
			t.swi++
		}
	} else {
		if cfg.Policy == PolPriority {
			first = best()
		} else {
			k := int(rnd(uint64(nbody)))
			first = tasks[k]
		}
	}
	if first != tasks[0] {
		record(tasks[0], first, 0)
	}
	cur = first
	raceDisable()
	first.wake <- struct{}{}
	raceEnable()
}

//go:norace
func result() Result {
	r := Result{Steps: steps, Ticks: ticks, NSwitch: nswitch, SyncOps: syncOps, Deadlock: dead, Budget: budget,
		IdleStall: idle, Blocks: blocks, Hash: hash, Spawned: spawned, MapRanges: mranges, PoolGets: pgets, PoolMiss: pmiss, TooMany: tooMany}
	for i := 0; i < ntasks; i++ {
		if left[i] != 0 {
			r.Left = append(r.Left, Held{i, left[i]})
		}
	}
	r.Switches = make([]Switch, nlog)
	for i := 0; i < nlog; i++ {
		r.Switches[i] = log[i]
	}
	for i := 0; i < ntasks; i++ {
		if heldUp[i] != 0 {
			r.HeldUp = append(r.HeldUp, Held{i, heldUp[i]})
		}
	}
	return r
}

// Run executes the bodies as tasks 0, 1, ... under the simulator until all are done.
func Run(c Config, bodies []func()) Result {
	if len(bodies) == 0 {
		return Result{}
	}
	setup(c)
	setBodies(len(bodies))
	for range bodies {
		newTask()
	}
	adopt()
	for i, b := range bodies {
		go taskMain(tasks[i], b)
	}
	start()
	waitEnd()
	wg.Wait()
	r := result()
	off()
	return r
}

//go:norace
func setBodies(n int) { nbody, bodies = n, n }

//go:norace
func off() {
	on = false
	base += steps + skew
	steps, skew = 0, 0
}

// SetTime sets the simulated clock. It returns the time it was.
//
//go:norace
func SetTime(t int64) int64 {
	was := base
	base = t
	return was
}

// Forget drops what the simulator remembers of the last run.
func Forget() {
	for i := range tasks {
		tasks[i] = nil
	}
	cur = nil
	cfg = Config{}
	runtime.GC()
	forgetDead()
}

// Zero is used to reset a package-level variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Sync is a yield point at a synchronisation operation.
func Sync(n uint32) { Y(SiteSync | n) }

// IO is a yield point at a stream or cache operation.
func IO(n uint32) { Y(SiteIO | n) }

// Clock is the simulated time in microseconds: one per step, plus jumps.
//
//go:norace
func Clock() int64 {
	clkRead++
	if on && mix(&es)%8 == 0 {
		skew += int64(mix(&es) % 20000000)
	}
	return base + steps + skew
}

// SleepUntil waits for the simulated clock; other tasks run meanwhile.
//
//go:norace
func SleepUntil(t int64) {
	if !on {
		return
	}
	if bodies == 0 && !cur.bg && t-base-steps-skew > 1000000 {
		leave(cur.id) // all calls have returned, and this goes on
	}
	for i := 0; i < 20 && live > 1 && base+steps+skew < t && !cur.cancel; i++ {
		y(SiteSync | 71)
	}
	if base+steps+skew < t && !cur.cancel {
		if jumps++; jumps > 60 || cur.bg && bodies == 0 || t-base-steps-skew >= farOff {
			if aborted {
				panic(Aborted{})
			}
			if steps > max {
				overBudget()
				panic(Aborted{})
			}
			cur.until = t
			park(cur, stAsleep, 0)
			if aborted {
				panic(Aborted{})
			}
		}
		if base+steps+skew < t && !cur.cancel {
			skew = t - base - steps
		}
	}
	y(SiteSync | 72)
}

// farOff is a time that does not pass while anything else can go on.
const farOff = 3600 * 1000000

// Cancel lets a task's sleep, and all its later ones, end at once.
//
//go:norace
func (t *task) Cancel() {
	if t == nil || !on {
		return
	}
	t.cancel = true
	if t.state == stAsleep {
		t.state = stRunnable
		live++
	}
}

// EnvRnd draws from the environment generator.
//
//go:norace
func EnvRnd(n uint64) uint64 { return mix(&es) % n }

// PoolChoice decides whether a sync.Pool hands out a pooled object.
//
//go:norace
func PoolChoice() bool {
	pgets++
	if mix(&es)%4 == 0 {
		pmiss++
		return false
	}
	return true
}

//go:norace
func countRange() { mranges++ }

func (s Switch) String() string { return fmt.Sprintf("%d@%d>%d", s.Task, s.At, s.To) }
