// Command worker runs simulated executions of one property in one process.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strings"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/trace"
)

// outcome is what a run of a trace came to.
type outcome struct {
	Verdict *verdict      `json:"verdict,omitempty"`
	Hash    uint64        `json:"hash,string"`
	History string        `json:"history,omitempty"`
	Sched   *simrt.Config `json:"sched,omitempty"` // the schedule as recorded
	res     simrt.Result
}

// report is the output of a batch.
type report struct {
	Prop    string
	Shard   int
	Done    bool
	Next    uint64 // first seed not run
	Seconds float64
	Stats   stats
	Sites   []uint32 // yield points at which a switch happened
	Seen    []uint32 // yield points executed
	Samples []sample
	Trace   *trace.Trace `json:",omitempty"`
	Outcome *outcome     `json:",omitempty"`
	Odd     []string     `json:",omitempty"` // runs that were not the same when repeated
	Clone   string       `json:",omitempty"` // why Mergers could not be copied
}

type sample struct {
	Seed    uint64
	Hash    uint64 `json:",string"`
	Race    bool
	History string
}

var (
	prop     = flag.String("prop", "", "property")
	from     = flag.Uint64("from", 0, "first seed")
	step     = flag.Uint64("step", 1, "distance of seeds")
	count    = flag.Uint64("count", 1<<40, "number of seeds")
	limit    = flag.Duration("limit", time.Hour, "time")
	thorough = flag.Bool("thorough", false, "larger inputs")
	statusF  = flag.String("status", "", "file that holds the seed being run")
	outF     = flag.String("out", "", "report")
	hashF    = flag.String("hashes", "", "file for the hashes of the runs")
	replayF  = flag.String("replay", "", "run this trace")
	minF     = flag.String("minimise", "", "minimise this trace")
	verbose  = flag.Bool("v", false, "print histories")
)

func main() {
	log.SetOutput(io.Discard)
	flag.Parse()
	st := &stats{}
	switch {
	case *replayF != "":
		t := readTrace(*replayF)
		measures(t.Prop)
		o := execute(t, st)
		o.Sched = nil
		writeJSON(*outF, o)
		if *verbose {
			fmt.Print(o.History)
			if o.Verdict != nil {
				fmt.Println(o.Verdict.Class, o.Verdict.Detail)
			}
		}
	case *minF != "":
		t := readTrace(*minF)
		measures(t.Prop)
		t, o := minimise(t, st, time.Now().Add(*limit))
		r := report{Prop: t.Prop, Trace: t, Outcome: o, Done: true}
		writeJSON(*outF, r)
	default:
		measures(*prop)
		batch(st)
	}
}

// measures makes measurements of the heap exact where they are of interest.
func measures(prop string) {
	if prop == "C16" {
		runtime.GOMAXPROCS(1)
	}
}

func readTrace(f string) *trace.Trace {
	b, err := os.ReadFile(f)
	if err == nil {
		t := new(trace.Trace)
		var file struct{ Trace *trace.Trace }
		if err = json.Unmarshal(b, &file); err == nil && file.Trace != nil {
			return file.Trace
		}
		if err = json.Unmarshal(b, t); err == nil {
			return t
		}
	}
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
	return nil
}

func writeJSON(f string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		if f == "" {
			os.Stdout.Write(append(b, '\n'))
			return
		}
		err = os.WriteFile(f+".tmp", b, 0o644)
	}
	if err == nil {
		err = os.Rename(f+".tmp", f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// execute runs a trace and judges it.
func execute(t *trace.Trace, st *stats) *outcome {
	o := executeOnce(t, st)
	if shareNoMore() {
		o = executeOnce(t, st)
	}
	return confirm(t, st, o)
}

// shareNoMore ends the sharing of tables by copies of a Merger if they have been
// written to. What was run since it was last asked has to be run again then.
func shareNoMore() bool {
	if making != mkShare || !sharing.changed() {
		return false
	}
	making, sharing = mkCopy, nil
	pristine = nil
	return true
}

var misled int // how often a verdict was due to the copying

// confirm makes sure that a verdict is not due to the copying.
func confirm(t *trace.Trace, st *stats, o *outcome) *outcome {
	if o.Verdict != nil && making != mkReal && cloneFails == "" {
		was := making
		making = mkReal
		r := executeOnce(t, st)
		making = was
		if r.Verdict == nil {
			misled++
			switch {
			case sameKind < 8:
				// They may have numbers, say: copies of different ones then.
				related, sameKind, pristine = true, 8, nil
			case misled > 10 && int64(misled)*50 > st.Runs:
				cloneFails = "copies do not behave like the original: " + o.Verdict.Class
			}
		}
		return r
	}
	return o
}

func executeOnce(t *trace.Trace, st *stats) *outcome {
	simrt.SetTime(0)
	defer simrt.Discard()
	if t.Rounds > 0 {
		return runLong(t, st)
	}
	w := &world{t: t, st: st}
	w.run()
	o := &outcome{Hash: w.res.Hash, res: w.res}
	v := w.check(t.Prop)
	if v == nil && t.Prop == "C11" {
		v = w.vary(t)
	}
	if v != nil {
		o.Verdict = v
	}
	for _, e := range w.all() {
		o.Hash = o.Hash*0x100000001b3 ^ strHash(e.String())
	}
	if v != nil || *verbose || *replayF != "" {
		o.History = w.history()
	}
	if w.res.TooMany || simrt.Starved() > 0 {
		o.Verdict = nil
	}
	sc := t.Sched
	if w.res.NSwitch == len(w.res.Switches) {
		sc = simrt.Config{Policy: simrt.PolNone, EnvSeed: t.Sched.EnvSeed, Replay: true, Switches: w.res.Switches, MaxSteps: t.Sched.MaxSteps}
	}
	o.Sched = &sc
	return o
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// vary runs the same calls again under other schedules and map orders.
func (w *world) vary(t *trace.Trace) *verdict {
	seen := map[string]said{}
	if v := w.collectAnswers(seen, 0); v != nil {
		return v
	}
	r := trace.NewRng(t.Seed ^ 0x5bd1e995)
	for i := 1; i <= t.Vary; i++ {
		c := *t
		c.Sched = simrt.Config{Policy: simrt.PolUniform, Mean: int64(r.In(3, 300)), Seed: r.U(), EnvSeed: r.U()}
		x := &world{t: &c, st: w.st}
		x.run()
		if v := x.checkBasics("C11"); v != nil {
			return v
		}
		if v := x.collectAnswers(seen, i); v != nil {
			return v
		}
	}
	return nil
}

func batch(st *stats) {
	start := time.Now()
	r := report{Prop: *prop, Shard: int(*from % *step)}
	sites := map[uint32]bool{}
	var status, hashes *os.File
	if *statusF != "" {
		status, _ = os.Create(*statusF)
	}
	var hbuf []byte
	if *hashF != "" {
		hashes, _ = os.Create(*hashF)
	}
	var sb [8]byte
	n := uint64(0)
	seed := *from
	// Looking whether shared tables were written to takes longer than most runs.
	sureN, sureSeed := n, seed
	const sureEvery = 128
	for ; n < *count; n, seed = n+1, seed+*step {
		if n >= sureN+sureEvery {
			if shareNoMore() {
				n, seed = sureN, sureSeed
			}
			sureN, sureSeed = n, seed
		}
		if time.Since(start) > *limit {
			break
		}
		if status != nil {
			binary.LittleEndian.PutUint64(sb[:], seed)
			status.WriteAt(sb[:], 0)
		}
		t := trace.Generate(*prop, seed, *thorough)
		t.Race = simrt.RaceBuild
		o := executeOnce(t, st)
		if o.Verdict != nil {
			if shareNoMore() {
				n, seed = sureN-1, sureSeed-*step
				continue
			}
			o = confirm(t, st, o)
		}
		for _, s := range o.res.Switches {
			sites[s.Site] = true
		}
		if hashes != nil {
			hbuf = binary.LittleEndian.AppendUint64(hbuf, o.Hash)
			nt := byte(0)
			if o.res.NSwitch > len(t.Tasks) || o.res.MapRanges > 0 || faulty(t) {
				nt = 1
			}
			hbuf = append(hbuf, nt)
			if len(hbuf) > 1<<16 {
				hashes.Write(hbuf)
				hbuf = hbuf[:0]
			}
		}
		if o.Verdict != nil {
			rt := t.Clone()
			rt.Sched = *o.Sched
			r.Trace, r.Outcome = rt, o
			// If the recorded schedule does not bring it back, the seeded one must.
			if p := execute(rt, &stats{}); p.Verdict == nil || p.Verdict.Class != o.Verdict.Class {
				rt.Sched = t.Sched
				if p := execute(rt, &stats{}); p.Verdict == nil || p.Verdict.Class != o.Verdict.Class {
					// Not repeatable, so not reported.
					r.Trace, r.Outcome = nil, nil
					r.odd("seed %d: a violation did not come back when its run was repeated: %s: %s", seed, o.Verdict.Class, o.Verdict.Detail)
					continue
				}
			}
			n, seed = n+1, seed+*step
			break
		}
		if n%64 == 5 {
			// Is the run the same when done again?
			p := executeOnce(t, &stats{})
			if (p.Hash != o.Hash || p.Verdict != nil) && shareNoMore() {
				n, seed = sureN-1, sureSeed-*step
				continue
			}
			if p.Hash != o.Hash || p.Verdict != nil {
				r.odd("seed %d is not repeatable in one process", seed)
				continue
			}
			rt := t.Clone()
			rt.Sched = *o.Sched
			if p := executeOnce(rt, &stats{}); p.Hash != o.Hash {
				if *verbose {
					for _, t := range []*trace.Trace{t, rt} {
						w := &world{t: t, st: &stats{}}
						simrt.SetTime(0)
						w.run()
						simrt.Discard()
						fmt.Printf("hash %x switches %d/%d ended %+v\n%s\n", w.res.Hash, w.res.NSwitch, len(w.res.Switches), w.res.Switches, w.history())
					}
				}
				r.odd("seed %d: replaying the recorded schedule gives another run", seed)
				continue
			}
			if len(r.Samples) < 6 {
				h := o.History
				if len(r.Samples) < 2 && t.Rounds == 0 {
					w := &world{t: t, st: &stats{}}
					simrt.SetTime(0)
					w.run()
					simrt.Discard()
					h = w.history()
				}
				r.Samples = append(r.Samples, sample{seed, o.Hash, simrt.RaceBuild, h})
			}
		}
	}
	if hashes != nil {
		hashes.Write(hbuf)
		hashes.Close()
	}
	st.collect()
	r.Stats = *st
	for s := range sites {
		r.Sites = append(r.Sites, s)
	}
	for s, seen := range simrt.Seen {
		if seen {
			r.Seen = append(r.Seen, uint32(s))
		}
	}
	r.Next = seed
	r.Done = true
	r.Clone = cloneFails
	r.Seconds = time.Since(start).Seconds()
	writeJSON(*outF, r)
}

func (r *report) odd(f string, a ...any) {
	if len(r.Odd) < 20 {
		r.Odd = append(r.Odd, fmt.Sprintf(f, a...))
	}
}

func faulty(t *trace.Trace) bool {
	for _, ops := range append([][]trace.Op{t.Setup}, t.Tasks...) {
		for _, op := range ops {
			if op.D != nil && (op.D.Err != nil || op.D.Panic != nil || len(op.D.Chunks) > 0 || len(op.D.Stall) > 0 || len(op.D.Empty) > 0 || op.D.Via != "") || len(op.Dmg) > 0 || op.K == "restart" {
				return true
			}
		}
	}
	return false
}

var raceSeen int64

// raceReport is the text of the last race reported.
func raceReport() string {
	f := os.Getenv("VERIF_RACELOG")
	if f == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", f, os.Getpid()))
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if i := strings.Index(s, "=================="); i >= 0 {
		s = s[:i]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/worker/") || strings.Contains(l, "main.") || strings.Contains(l, "simrt") {
			continue
		}
		out = append(out, l)
	}
	s = strings.Join(out, "\n")
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}
