package simrt

import (
	"unsafe"
	"weak"
)

// Channels of the code under test are real ones, used without ever blocking; the
// waiting happens in the simulator. An unbuffered channel gets one slot, and its
// sender waits until the slot has been emptied.

type unbuf struct {
	ch   uintptr
	weak weak.Pointer[byte] // the simulator keeps no channel in memory
	recv int                // tasks waiting to receive
	next *unbuf
}

var unbufs [256]*unbuf

func bucket(p uintptr) *(*unbuf) { return &unbufs[(p>>5^p>>13)%256] }

// ForgetChans is called before package-level variables are initialised again.
//
//go:norace
func ForgetChans() { unbufs = [256]*unbuf{} }

//go:norace
func findUnbuf(p unsafe.Pointer) *unbuf {
	for u := *bucket(uintptr(p)); u != nil; u = u.next {
		if u.ch == uintptr(p) && u.weak.Value() != nil {
			return u
		}
	}
	return nil
}

// forgetDead drops what is known of channels that are no more.
//
//go:norace
func forgetDead() {
	for i := range unbufs {
		for l := &unbufs[i]; *l != nil; {
			if (*l).weak.Value() == nil {
				*l = (*l).next
			} else {
				l = &(*l).next
			}
		}
	}
}

//go:norace
func (u *unbuf) wait(d int) {
	if u != nil {
		u.recv += d
	}
}

//go:norace
func (u *unbuf) waiting() int { return u.recv }

// Unbuffered is the capacity given to channels made without one.
func Unbuffered() int { return 1 }

//go:norace
func addUnbuf(p unsafe.Pointer) {
	b := bucket(uintptr(p))
	*b = &unbuf{ch: uintptr(p), weak: weak.Make((*byte)(p)), next: *b}
}

// Chan registers a channel that has just been made. kind is 0 for a make without
// a capacity, or 1 with one, which is then given by size.
func Chan[C ~chan E, E any](ch C, kind int) C {
	if kind == 0 {
		addUnbuf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	}
	return ch
}

// MakeChan stands for make with a capacity, which may be 0.
func MakeChan[C ~chan E, E any](n int) C {
	if n == 0 {
		return Chan[C](make(C, 1), 0)
	}
	return make(C, n)
}

// Send returns the function that sends on ch.
func Send[E any](ch chan<- E) func(E) {
	return func(v E) {
		if !Active() {
			ch <- v
			return
		}
		p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		Y(SiteSync | 40)
		for {
			select {
			case ch <- v:
				sent(ch, p)
				return
			default:
			}
			Block(p)
		}
	}
}

// sent finishes a send that has filled a slot of the channel.
func sent[E any](ch chan<- E, p unsafe.Pointer) {
	Wake(p)
	wakeSelects(p, false)
	if findUnbuf(p) != nil {
		for len(ch) > 0 {
			Block(p)
		}
		Acquire(p)
	} else {
		Y(SiteSync | 41)
	}
}

func take[E any](ch <-chan E, p unsafe.Pointer, u *unbuf) (v E, ok, ready bool) {
	if u != nil {
		Release(p)
	}
	select {
	case v, ok = <-ch:
		Wake(p)
		wakeSelects(p, false)
		return v, ok, true
	default:
		return v, false, false
	}
}

// Recv2 receives from ch.
func Recv2[E any](ch <-chan E) (E, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	Y(SiteSync | 42)
	u := findUnbuf(p)
	for {
		if v, ok, ready := take(ch, p, u); ready {
			return v, ok
		}
		u.wait(1)
		wakeSelects(p, true) // somebody may be waiting to send to a receiver
		func() {
			defer u.wait(-1)
			Block(p)
		}()
	}
}

// Recv receives from ch.
func Recv[E any](ch <-chan E) E {
	v, _ := Recv2(ch)
	return v
}

// Close closes ch.
func Close[E any](ch chan<- E) {
	Y(SiteSync | 43)
	close(ch)
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	Wake(p)
	wakeSelects(p, false)
}

// Case is one communication of a select statement.
type Case interface {
	try(promised bool) bool
	wait(d int)
	key() (p unsafe.Pointer, send bool)
}

// RecvCase receives.
type RecvCase[E any] struct {
	ch <-chan E
	p  unsafe.Pointer
	V  E
	OK bool
}

// CRecv is a receive of a select statement.
func CRecv[E any](ch <-chan E) *RecvCase[E] {
	return &RecvCase[E]{ch: ch, p: *(*unsafe.Pointer)(unsafe.Pointer(&ch))}
}

func (c *RecvCase[E]) wait(d int) { findUnbuf(c.p).wait(d) }

//go:norace
func (c *RecvCase[E]) key() (unsafe.Pointer, bool) { return c.p, false }

func (c *RecvCase[E]) try(promised bool) bool {
	u := findUnbuf(c.p)
	if promised && (u == nil || len(c.ch) == 0) {
		return false
	}
	var ready bool
	c.V, c.OK, ready = take(c.ch, c.p, u)
	return ready
}

// SendCase sends.
type SendCase[E any] struct {
	ch chan<- E
	p  unsafe.Pointer
	v  E
}

// CSend is a send of a select statement.
func CSend[E any](ch chan<- E) func(E) *SendCase[E] {
	return func(v E) *SendCase[E] {
		return &SendCase[E]{ch: ch, p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), v: v}
	}
}

func (c *SendCase[E]) wait(d int) {}

//go:norace
func (c *SendCase[E]) key() (unsafe.Pointer, bool) { return c.p, true }

func (c *SendCase[E]) try(promised bool) bool {
	if promised {
		return false
	}
	// Without a buffer only a receiver that is waiting makes the send possible.
	if u := findUnbuf(c.p); u != nil && u.waiting() <= len(c.ch) {
		return false
	}
	select {
	case c.ch <- c.v:
		sent(c.ch, c.p)
		return true
	default:
		return false
	}
}

var selectKey byte

// wakeSelects makes the selects runnable that wait for p, all or only the senders.
//
//go:norace
func wakeSelects(p unsafe.Pointer, senders bool) {
	if !on {
		return
	}
	for i := 0; i < ntasks; i++ {
		n := tasks[i]
		if n.state != stBlocked || n.on != uintptr(unsafe.Pointer(&selectKey)) {
			continue
		}
		for k := 0; k < len(n.sel); k++ {
			if q, send := n.sel[k].key(); q == p && (send || !senders) {
				n.state = stRunnable
				live++
				break
			}
		}
	}
}

//go:norace
func blockSelect(cases []Case) {
	cur.sel = cases
	Block(unsafe.Pointer(&selectKey))
}

// Select carries out one of the cases and returns its number, or -1.
func Select(def bool, cases ...Case) int {
	Y(SiteSync | 44)
	n := len(cases)
	order := make([]int, n)
	for {
		for i := range order {
			order[i] = i
		}
		for i := n - 1; i > 0; i-- {
			j := int(EnvRnd(uint64(i + 1)))
			order[i], order[j] = order[j], order[i]
		}
		// What was sent because this task was waiting for it comes first.
		for _, promised := range []bool{true, false} {
			for _, i := range order {
				if cases[i].try(promised) {
					return i
				}
			}
		}
		if def {
			return -1
		}
		if !Active() {
			panic("simulator: select that waits outside of a run")
		}
		for _, c := range cases {
			c.wait(1)
			if p, send := c.key(); !send {
				wakeSelects(p, true)
			}
		}
		func() {
			defer func() {
				for _, c := range cases {
					c.wait(-1)
				}
			}()
			blockSelect(cases)
		}()
	}
}
