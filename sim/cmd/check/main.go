// Command check decides one property: it instruments and builds the working tree
// of the repository, runs simulated executions on all cores, and reports.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/instr"
	"verif.local/sim/trace"
)

var (
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "", "quick or thorough")
	root    = flag.String("root", "/verif", "this tree")
	repo    = flag.String("repo", "/repo", "the tree under test")
	replayF = flag.String("replay", "", "replay this file instead of searching")
	secs    = flag.Int("seconds", 0, "time for the search")
	coverF  = flag.String("cover", "", "write the yield points that were not executed to this file")
	keep    = flag.Bool("keep", false, "keep the scratch directory")
	runs    = flag.Uint64("runs", 0, "runs per process instead of a time")
)

// plan says how the search for a property is spread: processes of the build with
// the race detector and of the one without.
type plan struct {
	race, plain int
	what        string
}

var plans = map[string]plan{
	"C01": {2, 6, "2-4 callers of Merge, AddRules and Rules on one Merger"},
	"C02": {1, 7, "1-2 loaders and 1-3 callers of Merge asking the same lists"},
	"C03": {2, 6, "2-4 callers of Get, Set and Clear on one SimpleCache"},
	"C04": {6, 2, "2-4 callers of everything, on one or two Mergers and a SimpleCache"},
	"C05": {0, 8, "loads that fail in the middle, and the same loads again"},
	"C06": {0, 8, "stylesheets delivered in every way a reader may"},
	"C07": {0, 8, "damaged stylesheets"},
	"C08": {1, 7, "streams that stall, fail or panic, caches that panic, and other callers"},
	"C09": {1, 7, "stylesheets in memory of the caller, who uses the bytes around them and reuses them afterwards"},
	"C10": {0, 8, "all kinds of caches, confusable lists, loads and failed loads between"},
	"C11": {0, 8, "the same questions by several callers, again under other schedules, map orders and after restarts"},
	"C12": {3, 5, "2-3 Mergers and two SimpleCaches"},
	"C14": {0, 8, "calls that fail or panic at any moment, under caches and streams that notice later use"},
	"C15": {0, 8, "callers who keep what Rules returned while others load, fail and merge"},
	"C16": {0, 8, "the same few concurrent calls, repeated up to hundreds of times on the same Mergers and caches"},
	"C13": {0, 8, "stylesheets in pieces, with failed and repeated loads and restarts"},
}

// fault prefixes that are mere facts about the environment, not faults
var plainCounters = map[string]bool{"cache_hit": true, "cache_miss": true, "preemption": true, "map_order": true}

func fail(f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

// odd notes a run that was not the same when repeated. On code whose nondeterminism
// is all behind the simulator there is none.
func odd(f string, a ...any) {
	if len(oddities) < 50 {
		oddities = append(oddities, fmt.Sprintf(f, a...))
		fmt.Println("WARNING " + oddities[len(oddities)-1])
	}
}

var oddities = []string{}

var scratch string

func cleanup() {
	if scratch != "" && !*keep {
		os.RemoveAll(scratch)
	}
}

type builds struct {
	plain, race string
	out         *instr.Out
	secs        float64
	pool        bool
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.Index(e, "=")+1]
		switch k {
		case "GOFLAGS=", "GOPROXY=", "GOTOOLCHAIN=", "GOWORK=", "GOSUMDB=", "GO111MODULE=", "GOOS=", "GOARCH=", "GODEBUG=", "GORACE=", "GOMAXPROCS=", "CGO_ENABLED=", "GOEXPERIMENT=":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "GONOSUMCHECK=1", "GONOSUMDB=*")
}

func build(needRace, needPlain bool) *builds {
	start := time.Now()
	out, err := instr.Run(*repo, scratch, goEnv())
	if err != nil {
		fail("instrumenting: %v", err)
	}
	simDir := filepath.Join(scratch, "sim")
	err = filepath.WalkDir(filepath.Join(*root, "sim"), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(filepath.Join(*root, "sim"), p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(simDir, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(simDir, rel), b, 0o644)
	})
	if err != nil {
		fail("copying the simulator: %v", err)
	}
	var mod strings.Builder
	fmt.Fprintf(&mod, "module verif.local/sim\n\ngo 1.24\n\nrequire %s v0.0.0\n", out.Module)
	for _, r := range out.Requires {
		fmt.Fprintf(&mod, "require %s %s\n", r.Path, r.Version)
	}
	fmt.Fprintf(&mod, "replace %s => %s\n", out.Module, out.RepoDir)
	if out.ParseDir != "" {
		fmt.Fprintf(&mod, "replace github.com/tdewolff/parse/v2 => %s\n", out.ParseDir)
	}
	write(filepath.Join(simDir, "go.mod"), mod.String())
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		write(filepath.Join(simDir, "go.sum"), string(b))
	}
	b := &builds{out: out}
	// The pools inside the standard library hand objects from one goroutine to
	// another; to the race detector that is synchronisation, and in a race build
	// they drop objects at random. For the race build they never reuse any.
	overlay := ""
	goroot, _ := exec.Command("go", "env", "GOROOT").Output()
	poolGo := filepath.Join(strings.TrimSpace(string(goroot)), "src/sync/pool.go")
	if src, err := os.ReadFile(poolGo); err == nil {
		if s := strings.Replace(string(src), "if runtime_randn(4) == 0 {", "if true {", 1); s != string(src) {
			write(filepath.Join(scratch, "pool.go"), s)
			j, _ := json.Marshal(map[string]any{"Replace": map[string]string{poolGo: filepath.Join(scratch, "pool.go")}})
			overlay = filepath.Join(scratch, "overlay.json")
			write(overlay, string(j))
			b.pool = true
		}
	}
	var wg sync.WaitGroup
	var errs [2]string
	compile := func(i int, out string, args ...string) {
		defer wg.Done()
		cmd := exec.Command("go", append(append([]string{"build", "-o", out}, args...), "./worker")...)
		cmd.Dir = simDir
		cmd.Env = goEnv()
		if o, err := cmd.CombinedOutput(); err != nil {
			errs[i] = fmt.Sprintf("building the worker: %v\n%s", err, o)
		}
	}
	if needPlain {
		b.plain = filepath.Join(scratch, "worker")
		wg.Add(1)
		go compile(0, b.plain)
	}
	if needRace {
		b.race = filepath.Join(scratch, "worker-race")
		// Making a Merger decodes the property table, which would be most of a run's time.
		args := []string{"-race", "-gcflags=encoding/json/...=-race=false"}
		if overlay != "" {
			args = append(args, "-overlay", overlay)
		}
		wg.Add(1)
		go compile(1, b.race, args...)
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			fail("%s", e)
		}
	}
	b.secs = time.Since(start).Seconds()
	return b
}

func write(f, s string) {
	if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		fail("%v", err)
	}
}

// proc is one worker process.
type proc struct {
	race   bool
	dir    string
	cmd    *exec.Cmd
	stderr *tail
	err    error
	killed bool
	first  uint64
}

type tail struct {
	mu   sync.Mutex
	head []byte
	rest []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := 6000 - len(t.head); room > 0 {
		k := min(room, len(p))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.rest = append(t.rest, p...)
	if len(t.rest) > 4000 {
		t.rest = append([]byte{}, t.rest[len(t.rest)-2000:]...)
	}
	return n, nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.rest)
}

func worker(bin string, race bool, dir string, ctx context.Context, procs int, args ...string) *proc {
	os.MkdirAll(dir, 0o755)
	p := &proc{race: race, dir: dir, stderr: &tail{}}
	p.cmd = exec.CommandContext(ctx, bin, args...)
	p.cmd.Dir = dir
	p.cmd.Stderr = p.stderr
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	lim := "GOMEMLIMIT=1500MiB"
	p.cmd.Env = append(goEnv(), lim, fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=single",
		"GORACE=log_path="+filepath.Join(dir, "race")+" suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 history_size=4",
		"VERIF_RACELOG="+filepath.Join(dir, "race"))
	return p
}

type sample struct {
	Seed    uint64
	Hash    uint64 `json:",string"`
	Race    bool
	History string
}

type verdict struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type outcome struct {
	Verdict *verdict `json:"verdict"`
	Hash    uint64   `json:"hash,string"`
	History string   `json:"history"`
}

type report struct {
	Prop    string
	Done    bool
	Next    uint64
	Seconds float64
	Stats   map[string]json.RawMessage
	Sites   []uint32
	Seen    []uint32
	Samples []sample
	Trace   *trace.Trace
	Outcome *outcome
	Odd     []string
	Clone   string
}

func readReport(f string) (*report, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	r := new(report)
	return r, json.Unmarshal(b, r)
}

// file is a replay file.
type file struct {
	Property  string
	Class     string
	Detail    string
	History   []string
	Minimised bool
	Hash      uint64 `json:",string"`
	Race      bool
	Trace     *trace.Trace
}

func main() {
	flag.Parse()
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	scratch, err = os.MkdirTemp("", "gtmsim")
	if err != nil {
		fail("%v", err)
	}
	if *replayF != "" {
		os.Exit(replay())
	}
	pl, ok := plans[*prop]
	if !ok {
		fail("unknown property %q", *prop)
	}
	code := search(pl, uint64(seed), start)
	cleanup()
	os.Exit(code)
}

func binOf(b *builds, race bool) string {
	if race {
		return b.race
	}
	return b.plain
}

// runTrace runs one trace in a fresh process. crash is set when the process died.
func runTrace(b *builds, t *trace.Trace, name string, limit time.Duration) (o *outcome, crash string, err error) {
	dir := filepath.Join(scratch, name)
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	j, _ := json.Marshal(t)
	in := filepath.Join(dir, "trace.json")
	write(in, string(j))
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	out := filepath.Join(dir, "out.json")
	p := worker(binOf(b, t.Race), t.Race, dir, ctx, 3, "-replay", in, "-out", out)
	err = p.cmd.Run()
	if ctx.Err() != nil {
		return nil, "", fmt.Errorf("no answer within %v", limit)
	}
	if err != nil {
		if strings.Contains(err.Error(), "killed") {
			return nil, "", fmt.Errorf("%v", err)
		}
		return nil, fmt.Sprintf("the process ended with %v\n%s", err, p.stderr), nil
	}
	o = new(outcome)
	d, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(d, o)
	}
	if err != nil {
		return nil, "", fmt.Errorf("no output: %v", err)
	}
	return o, "", nil
}

// ours says that a process died in the simulator and not in the code under test.
func ours(crash string) bool {
	if strings.Contains(crash, "goroutine stack exceeds") {
		return false // whatever happened to be on top
	}
	if strings.Contains(crash, "panic: main.injected(") {
		return false // nobody was there to recover from the panic of a stream or cache
	}
	_, st, ok := strings.Cut(crash, "\ngoroutine ")
	if !ok {
		return false
	}
	st, _, _ = strings.Cut(st, "\n\n")
	for _, l := range strings.Split(st, "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "internal/") {
			continue
		}
		return strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif.local/sim/simrt.")
	}
	return false
}

func crashClass(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
			return "crash"
		}
	}
	return "exit"
}

func replay() int {
	defer cleanup()
	d, err := os.ReadFile(*replayF)
	if err != nil {
		fail("%v", err)
	}
	var f file
	if err := json.Unmarshal(d, &f); err != nil {
		fail("%v", err)
	}
	b := build(f.Race, !f.Race)
	o, crash, err := runTrace(b, f.Trace, "replay", 5*time.Minute)
	if err != nil {
		fail("%v", err)
	}
	if crash != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", f.Property, *replayF, crash)
		return 1
	}
	fmt.Print(o.History)
	if o.Verdict == nil {
		fmt.Println("held")
		return 0
	}
	fmt.Printf("%s: %s\n", o.Verdict.Class, o.Verdict.Detail)
	if o.Hash != f.Hash {
		fmt.Println("(the run differs from the one recorded: the code is not the same)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, *replayF)
	return 1
}

func search(pl plan, seed uint64, start time.Time) int {
	b := build(pl.race > 0, pl.plain > 0)
	limit := 70 * time.Second
	if *tier == "thorough" {
		limit = 10 * time.Minute
	}
	if *secs > 0 {
		limit = time.Duration(*secs) * time.Second
	}
	n := pl.race + pl.plain
	if c := runtime.NumCPU(); c < n && pl.race+pl.plain > 2 {
		// fewer cores: keep the proportions
		pl.race = (pl.race*c + n - 1) / n
		pl.plain = max(1, (pl.plain*c+n-1)/n)
		n = pl.race + pl.plain
	}
	base := seed * 1_000_000_007
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var procs []*proc
	type ended struct{ p *proc }
	ch := make(chan *proc, n)
	for i := 0; i < n; i++ {
		race := i < pl.race
		dir := filepath.Join(scratch, fmt.Sprintf("p%d", i))
		args := []string{"-prop", *prop, "-from", fmt.Sprint(base + uint64(i)), "-step", fmt.Sprint(n), "-limit", limit.String(),
			"-status", filepath.Join(dir, "status"), "-out", filepath.Join(dir, "out.json"), "-hashes", filepath.Join(dir, "hashes")}
		if *tier == "thorough" {
			args = append(args, "-thorough")
		}
		if *runs > 0 {
			args = append(args, "-count", fmt.Sprint(*runs))
		}
		p := worker(binOf(b, race), race, dir, ctx, 2, args...)
		p.first = base + uint64(i)
		if err := p.cmd.Start(); err != nil {
			fail("%v", err)
		}
		procs = append(procs, p)
		go func() {
			p.err = p.cmd.Wait()
			ch <- p
		}()
	}
	deadline := time.After(limit + 150*time.Second)
	var firstBad *proc
	var reports []*report
	left := n
	for left > 0 {
		select {
		case p := <-ch:
			left--
			r, err := readReport(filepath.Join(p.dir, "out.json"))
			if err == nil && r.Done {
				reports = append(reports, r)
				for _, o := range r.Odd {
					odd("%s", o)
				}
				if r.Trace != nil {
					firstBad = p
					cancel()
				}
			} else if firstBad == nil && !p.killed {
				firstBad = p
				cancel()
			}
			if firstBad != nil {
				for _, q := range procs {
					q.killed = true
				}
			}
		case <-deadline:
			for _, q := range procs {
				fmt.Printf("process %s: seed %d\n", q.dir, statusSeed(q))
			}
			fail("no answer from a worker in time")
		}
	}
	cancel()
	if firstBad != nil {
		return violation(b, firstBad, reports, seed, start)
	}
	// The same seeds in other processes must be the same runs.
	checked := repeat(b, reports)
	evidence(pl, b, reports, procs, seed, start, 0, checked)
	fmt.Printf("%s held on everything explored\n", *prop)
	known()
	return 0
}

func statusSeed(p *proc) uint64 {
	d, err := os.ReadFile(filepath.Join(p.dir, "status"))
	if err != nil || len(d) < 8 {
		return p.first
	}
	return binary.LittleEndian.Uint64(d)
}

// repeat reruns sampled seeds in fresh processes with another number of threads.
func repeat(b *builds, reports []*report) int {
	var all []sample
	perKind := map[bool]int{}
	for _, r := range reports {
		for _, s := range r.Samples {
			if perKind[s.Race] < 6 {
				perKind[s.Race]++
				all = append(all, s)
			}
		}
	}
	var wg sync.WaitGroup
	errs := make([]string, len(all))
	for i, s := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			dir := filepath.Join(scratch, fmt.Sprintf("rep%d", i))
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			defer cancel()
			args := []string{"-prop", *prop, "-from", fmt.Sprint(s.Seed), "-count", "1", "-hashes", filepath.Join(dir, "hashes"), "-out", filepath.Join(dir, "out.json")}
			if *tier == "thorough" {
				args = append(args, "-thorough")
			}
			p := worker(binOf(b, s.Race), s.Race, dir, ctx, 1+i%4, args...)
			if err := p.cmd.Run(); err != nil {
				errs[i] = fmt.Sprintf("repeating seed %d: %v %s", s.Seed, err, p.stderr)
				return
			}
			d, err := os.ReadFile(filepath.Join(dir, "hashes"))
			if err != nil || len(d) < 8 || binary.LittleEndian.Uint64(d) != s.Hash {
				errs[i] = fmt.Sprintf("seed %d gave another run in another process", s.Seed)
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			odd("%s", e)
		}
	}
	return len(all)
}

func violation(b *builds, p *proc, reports []*report, seed uint64, start time.Time) int {
	var f file
	f.Property = *prop
	f.Race = p.race
	r, err := readReport(filepath.Join(p.dir, "out.json"))
	if err != nil {
		// The process died in the middle of a run.
		if s := p.err; s != nil && strings.Contains(s.Error(), "signal: killed") {
			fail("a worker was killed (out of memory?) at seed %d", statusSeed(p))
		}
		s := statusSeed(p)
		t := trace.Generate(*prop, s, *tier == "thorough")
		t.Race = p.race
		o, crash, err := runTrace(b, t, "crash", 3*time.Minute)
		if err != nil {
			fail("a worker died (%v) at seed %d: %s\nand the run could not be repeated: %v", p.err, s, p.stderr, err)
		}
		if crash == "" && o.Verdict == nil {
			fail("a worker died (%v) at seed %d, which does not do it again: %s", p.err, s, p.stderr)
		}
		if crash != "" && ours(crash) {
			fail("the simulator died at seed %d: %s", s, crash)
		}
		if crash != "" {
			f.Class, f.Detail = crashClass(crash), crash
			f.Trace = minimiseCrash(b, t, f.Class)
			f.Minimised = true
		} else {
			f.Class, f.Detail, f.Trace = o.Verdict.Class, o.Verdict.Detail, t
			f.History = strings.Split(o.History, "\n")
			f.Hash = o.Hash
		}
	} else {
		f.Class, f.Detail, f.Trace, f.Hash = r.Outcome.Verdict.Class, r.Outcome.Verdict.Detail, r.Trace, r.Outcome.Hash
		f.History = strings.Split(r.Outcome.History, "\n")
		// Make it smaller.
		j, _ := json.Marshal(f.Trace)
		dir := filepath.Join(scratch, "min")
		write(filepath.Join(dir, "trace.json"), string(j))
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
		m := worker(binOf(b, p.race), p.race, dir, ctx, 4, "-minimise", filepath.Join(dir, "trace.json"), "-limit", "45s", "-out", filepath.Join(dir, "out.json"))
		err := m.cmd.Run()
		cancel()
		if err == nil {
			if mr, err := readReport(filepath.Join(dir, "out.json")); err == nil && mr.Trace != nil && mr.Outcome != nil && mr.Outcome.Verdict != nil {
				if o, _, err := runTrace(b, mr.Trace, "confirm", time.Minute); err == nil && o != nil && o.Verdict != nil && o.Verdict.Class == f.Class {
					f.Trace, f.Detail, f.Hash, f.Minimised = mr.Trace, o.Verdict.Detail, o.Hash, true
					f.History = strings.Split(o.History, "\n")
				}
			}
		}
	}
	// The replay file must bring it back in a fresh process.
	for i := 0; ; i++ {
		o, crash, err := runTrace(b, f.Trace, "final", 3*time.Minute)
		if err != nil {
			fail("the violation (%s: %s) could not be replayed: %v", f.Class, f.Detail, err)
		}
		if crash == "" && o.Verdict == nil {
			// Only code with nondeterminism of its own that the simulator does not control gets here.
			if i == 5 {
				fail("the violation (%s: %s) did not come back in a fresh process", f.Class, f.Detail)
			}
			odd("seed %d: the violation did not come back at once", f.Trace.Seed)
			continue
		}
		if crash == "" && f.Hash != 0 && o.Hash != f.Hash {
			odd("seed %d: the violation came back as another run", f.Trace.Seed)
		}
		break
	}
	name := filepath.Join(*root, "replays", fmt.Sprintf("%s-%d.json", *prop, f.Trace.Seed))
	j, _ := json.MarshalIndent(f, "", " ")
	write(name, string(j)+"\n")
	fmt.Printf("%s\n%s\n", f.Class, f.Detail)
	for _, h := range f.History {
		fmt.Println(h)
	}
	pl := plans[*prop]
	evidence(pl, b, reports, nil, seed, start, 1, 0)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, name)
	return 1
}

// minimiseCrash drops calls and damage while the process keeps dying.
func minimiseCrash(b *builds, t *trace.Trace, class string) *trace.Trace {
	best := t
	until := time.Now().Add(60 * time.Second)
	dies := func(c *trace.Trace) bool {
		if time.Now().After(until) {
			return false
		}
		_, crash, err := runTrace(b, c, "mincrash", time.Minute)
		return err == nil && crash != "" && crashClass(crash) == class
	}
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(best.Tasks) && len(best.Tasks) > 1; {
			c := best.Clone()
			c.Tasks = append(c.Tasks[:i:i], c.Tasks[i+1:]...)
			if dies(c) {
				best, changed = c, true
			} else {
				i++
			}
		}
		for k := range best.Tasks {
			for i := 0; i < len(best.Tasks[k]); {
				c := best.Clone()
				c.Tasks[k] = append(c.Tasks[k][:i:i], c.Tasks[k][i+1:]...)
				if dies(c) {
					best, changed = c, true
				} else {
					i++
				}
			}
			for i := range best.Tasks[k] {
				for q := 0; q < len(best.Tasks[k][i].Dmg); {
					c := best.Clone()
					op := &c.Tasks[k][i]
					op.Dmg = append(op.Dmg[:q:q], op.Dmg[q+1:]...)
					if dies(c) {
						best, changed = c, true
					} else {
						q++
					}
				}
			}
		}
		for s := range best.Sheets {
			for i := 0; i < len(best.Sheets[s].Items); {
				c := best.Clone()
				c.Sheets[s].Items = append(c.Sheets[s].Items[:i:i], c.Sheets[s].Items[i+1:]...)
				if dies(c) {
					best, changed = c, true
				} else {
					i++
				}
			}
		}
	}
	return best
}

// known prints the findings of this property that were recorded and not repaired.
func known() {
	b, err := os.ReadFile(filepath.Join(*root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+*prop+" ") {
			fmt.Println(l)
		}
	}
}

// executed says for each source file how many of its yield points were executed.
func executed(b *builds, seen map[uint32]bool) map[string]string {
	n, all := map[string]int{}, map[string]int{}
	var missing strings.Builder
	for i, s := range b.out.Sites {
		if i == 0 {
			continue
		}
		all[s.File]++
		if seen[uint32(i)] {
			n[s.File]++
		} else {
			fmt.Fprintf(&missing, "%s:%d\n", s.File, s.Line)
		}
	}
	if *coverF != "" {
		os.WriteFile(*coverF, []byte(missing.String()), 0o644)
	}
	out := map[string]string{}
	for f := range all {
		out[f] = fmt.Sprintf("%d of %d", n[f], all[f])
	}
	return out
}

func evidence(pl plan, b *builds, reports []*report, procs []*proc, seed uint64, start time.Time, violations, repeated int) {
	sum := map[string]int64{}
	faults := map[string]int64{}
	sites := map[uint32]bool{}
	seen := map[uint32]bool{}
	var secs float64
	var samples []any
	var raceRuns, cloneNote = int64(0), ""
	for _, r := range reports {
		for k, v := range r.Stats {
			var n int64
			if json.Unmarshal(v, &n) == nil {
				sum[k] += n
			}
		}
		var fl map[string]int64
		if json.Unmarshal(r.Stats["Faults"], &fl) == nil {
			for k, v := range fl {
				faults[k] += v
			}
		}
		for _, s := range r.Seen {
			seen[s] = true
		}
		for _, s := range r.Sites {
			if s < 1<<28 {
				sites[s] = true
			}
		}
		if r.Seconds > secs {
			secs = r.Seconds
		}
		if r.Clone != "" {
			cloneNote = r.Clone
		}
		for _, s := range r.Samples {
			if s.History != "" && len(samples) < 4 {
				samples = append(samples, map[string]any{"seed": s.Seed, "race_build": s.Race, "history": strings.Split(strings.TrimSpace(s.History), "\n")})
			}
		}
		if r.Outcome != nil && len(samples) == 0 {
			samples = append(samples, map[string]any{"seed": r.Trace.Seed, "history": strings.Split(strings.TrimSpace(r.Outcome.History), "\n")})
		}
	}
	raceRuns = sum["RaceRuns"]
	distinct, nontriv := map[uint64]bool{}, map[uint64]bool{}
	dirs, _ := filepath.Glob(filepath.Join(scratch, "p*", "hashes"))
	for _, f := range dirs {
		d, _ := os.ReadFile(f)
		for ; len(d) >= 9; d = d[9:] {
			h := binary.LittleEndian.Uint64(d)
			distinct[h] = true
			if d[8] == 1 {
				nontriv[h] = true
			}
		}
	}
	nfaults := int64(0)
	injected := map[string]int64{}
	env := map[string]int64{}
	for k, v := range faults {
		if plainCounters[k] {
			env[k] = v
			continue
		}
		if v > 0 {
			injected[k] = v
			nfaults += v
		}
	}
	hours := secs / 3600
	perHour := func(n int64) int64 {
		if hours == 0 {
			return 0
		}
		return int64(float64(n) / hours)
	}
	assume := []string{
		"the Go compiler, runtime and race detector are right",
		"yield points at every statement of the repository's own packages are enough: code below a statement (standard library, tokenizer) runs without a switch",
		"memory is sequentially consistent in the interleavings explored; weaker behaviour is covered by the race detector in the race build only",
	}
	cov := map[string]any{
		"evaluations":         sum["Runs"],
		"distinct_nontrivial": len(nontriv),
		"rule": "One case is one simulated execution: the calls, stylesheets, deliveries, damage, cache behaviour and schedule all drawn from one seed (" + pl.what +
			"). Distinct: by a hash of every task switch (task, its step, place in the code, successor), every result returned and the final answers. Non-trivial: at least one preemption beyond the start of each task, or a seeded map order, or a fault or unusual delivery injected.",
		"samples":                       samples,
		"distinct_executions":           len(distinct),
		"seeds":                         sum["Runs"],
		"seed_base":                     seed * 1_000_000_007,
		"runs_per_hour":                 perHour(sum["Runs"]),
		"seeds_per_hour":                perHour(sum["Runs"]),
		"runs_in_race_detector_build":   raceRuns,
		"search_seconds":                secs,
		"build_seconds":                 b.secs,
		"simulated_steps":               sum["Steps"],
		"simulated_tokenizer_ticks":     sum["Ticks"],
		"simulated_time":                "the code has no clock or timer; simulated time is counted in steps (one per statement executed)",
		"task_switches":                 sum["Switches"],
		"waits_for_locks_or_streams":    sum["Blocks"],
		"operations":                    sum["Ops"],
		"loads":                         sum["Adds"],
		"merges":                        sum["Merges"],
		"runs_with_a_load_overlapping":  sum["Overlaps"],
		"runs_with_preemption":          sum["Concurrent"],
		"idle_points_with_only_stalled": sum["Idle"],
		"faults_injected":               injected,
		"faults_injected_total":         nfaults,
		"environment_choices":           env,
		"yield_points":                  len(b.out.Sites) - 1,
		"yield_points_executed":         executed(b, seen),
		"yield_points_preempted_at":     len(sites),
		"linearizability_operations":    sum["LinOps"],
		"linearizability_states":        sum["LinStates"],
		"reference_mergers_built":       sum["Twins"],
		"inconclusive_runs":             sum["Inconcl"],
		"extended_runs":                 sum["Extended"],
		"seeds_rerun_in_other_process":  repeated,
		"runs_not_the_same_when_rerun":  oddities,
		"processes":                     map[string]int{"race": pl.race, "plain": pl.plain},
		"components": map[string]any{
			"real": []string{"merge.go, cache.go, internal/cascadia, internal/props of /repo (instrumented copy of the working tree)", "github.com/tdewolff/parse/v2 (instrumented for step counting only)", "golang.org/x/net/html", "Go standard library and runtime"},
			"stub": []string{"sync, sync/atomic, time, context (cancellation, time-outs), math/rand, hash/maphash, maps as seen by /repo: deterministic shims", "goroutine scheduling: one task at a time, chosen by the seed", "map iteration order: seeded", "io.Reader given to AddRules: simulated stream", "user-supplied Cache: simulated", "Mergers are deep copies of one made by NewMerger unless the run asks for a real call"},
		},
		"std_pools_without_reuse_in_race_build": b.pool,
	}
	if cloneNote != "" {
		cov["mergers_made_by_newmerger_because"] = cloneNote
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(ev)
	write(filepath.Join(*root, "evidence", *prop+".json"), buf.String())
	keys := make([]string, 0, len(injected))
	for k := range injected {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %d runs (%d distinct and non-trivial), %d steps, %d switches, %d faults of %d kinds, %.0f s\n", *prop, sum["Runs"], len(nontriv), sum["Steps"], sum["Switches"], nfaults, len(keys), time.Since(start).Seconds())
}

var _ = io.EOF
