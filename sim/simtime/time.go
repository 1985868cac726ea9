// Package simtime stands in for package time: the clock is the simulator's, one
// microsecond per executed step, and it jumps now and then.
package simtime

import (
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/simsync"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location

	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	ANSIC       = time.ANSIC
	DateOnly    = time.DateOnly
	DateTime    = time.DateTime
	Kitchen     = time.Kitchen
	Layout      = time.Layout
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RubyDate    = time.RubyDate
	Stamp       = time.Stamp
	StampMicro  = time.StampMicro
	StampMilli  = time.StampMilli
	StampNano   = time.StampNano
	TimeOnly    = time.TimeOnly
	UnixDate    = time.UnixDate
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
	epoch = time.Unix(1700000000, 0).UTC()
)

func Now() Time { return epoch.Add(time.Duration(simrt.Clock()) * time.Microsecond) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}
func Parse(l, v string) (Time, error)                        { return time.Parse(l, v) }
func ParseInLocation(l, v string, z *Location) (Time, error) { return time.ParseInLocation(l, v, z) }
func UnixMilli(ms int64) Time                                { return time.UnixMilli(ms) }

// Sleep waits until the simulated clock has advanced; if nothing else can run it jumps.
func Sleep(d Duration) {
	if d <= 0 {
		simrt.Sync(70)
		return
	}
	simrt.SleepUntil(simrt.Clock() + int64(d/time.Microsecond))
}

// Gosched lets others run.
func Gosched() { simrt.Sync(73) }

// A timer is a goroutine that sleeps on the simulated clock.

// Timer is time.Timer under the simulator.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	mu   simsync.Mutex
	gen  int
	live bool
	k    *simrt.Task
}

func (t *Timer) start(d Duration) {
	t.gen++
	t.live = true
	gen := t.gen
	k := simrt.NewTask()
	if k == nil {
		return // no run, no time
	}
	k.SetTimer()
	t.k.Cancel()
	t.k = k
	go func() {
		defer simrt.Enter(k)()
		Sleep(d)
		t.mu.Lock()
		fire := t.live && t.gen == gen
		if fire {
			t.live = false
		}
		t.mu.Unlock()
		if !fire {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		if len(t.c) == 0 {
			simrt.Send(t.c)(Now())
		}
	}()
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	was := t.live
	t.live = false
	t.k.Cancel()
	return was
}

func (t *Timer) Reset(d Duration) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	was := t.live
	t.start(d)
	return was
}

// Ticker is time.Ticker under the simulator.
type Ticker struct {
	C   <-chan Time
	c   chan Time
	mu  simsync.Mutex
	gen int
	k   *simrt.Task
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.mu.Lock()
	t.gen++
	gen := t.gen
	t.k.Cancel()
	t.mu.Unlock()
	k := simrt.NewTask()
	if k == nil {
		return // no run, no time
	}
	k.SetTimer()
	go func() {
		defer simrt.Enter(k)()
		for {
			Sleep(d)
			t.mu.Lock()
			live := t.gen == gen
			t.mu.Unlock()
			if !live {
				return
			}
			if len(t.c) == 0 {
				simrt.Send(t.c)(Now())
			}
		}
	}()
	t.mu.Lock()
	if t.gen == gen {
		t.k = k
	} else {
		k.Cancel()
	}
	t.mu.Unlock()
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	t.mu.Lock()
	t.gen++
	t.k.Cancel()
	t.mu.Unlock()
}

func (t *Ticker) Reset(d Duration) { t.start(d) }
