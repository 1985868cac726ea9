package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/simrt"
	"verif.local/sim/trace"
)

// ---- the caller's memory and streams

type iseof struct{}

func (iseof) Error() string        { return "stream broke" }
func (iseof) Is(target error) bool { return target == io.EOF }

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "typed nil"
	}
	return e.s
}

func faultError(kind string) error {
	switch kind {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "closedpipe":
		return io.ErrClosedPipe
	case "noprogress":
		return io.ErrNoProgress
	case "deadline":
		return os.ErrDeadlineExceeded
	case "wrapeof":
		return fmt.Errorf("reading stylesheet: %w", io.EOF)
	case "wrapeof2":
		return &os.PathError{Op: "read", Path: "x.css", Err: io.EOF}
	case "eoftext":
		return errors.New("EOF")
	case "iseof":
		return iseof{}
	case "canceled":
		return context.Canceled
	case "eintr":
		return syscall.EINTR
	case "eagain":
		return syscall.EAGAIN
	case "short":
		return io.ErrShortBuffer
	case "temporary":
		return tempErr{}
	case "joineof":
		return errors.Join(io.EOF, errors.New("connection lost"))
	case "ptr":
		return &ptrErr{"broken"}
	case "nilish":
		return (*ptrErr)(nil)
	}
	return errors.New("disk on fire")
}

const guard = 0xA5

// memory is the array a stylesheet lies in.
type memory struct {
	arr  []byte
	a, e int // the stylesheet is arr[a:e]
	orig string
}

func newMemory(text string, before, spare int) *memory {
	m := &memory{arr: make([]byte, before+len(text)+spare), a: before, e: before + len(text), orig: text}
	for i := range m.arr {
		m.arr[i] = guard
	}
	copy(m.arr[m.a:], text)
	return m
}

func (m *memory) guards() string {
	for i, b := range m.arr {
		if (i < m.a || i >= m.e) && b != guard {
			return fmt.Sprintf("byte %d of the caller's array, %d after the start of the stylesheet of %d bytes, was changed from %#x to %#x", i, i-m.a, m.e-m.a, guard, b)
		}
	}
	return ""
}

func (m *memory) text() string {
	if string(m.arr[m.a:m.e]) != m.orig {
		return "the caller's stylesheet bytes were changed"
	}
	return ""
}

func (m *memory) scribble(kind int) {
	const css = ".k1{color:red}}{.k2{margin:9px}"
	for i := m.a; i < m.e; i++ {
		switch kind {
		case 1:
			m.arr[i] = 'X'
		case 2:
			m.arr[i] = css[i%len(css)]
		default:
			m.arr[i] = 0
		}
	}
}

// reader is the simulated stream.
type reader struct {
	d     *trace.Delivery
	mem   *memory
	pos   int
	reads int
	chunk int
	ev    *event
	st    *stats
	panic int
	fault *trace.Fault
	eofed bool
	over  bool // the call that got this reader has returned
}

func (r *reader) Read(p []byte) (int, error) {
	simrt.IO(1)
	if r.over {
		r.ev.late = true
	}
	i := r.reads
	r.reads++
	data := r.mem.arr[r.mem.a:r.mem.e]
	for _, s := range r.d.Stall {
		if s <= r.pos && !r.ev.stalls[s] {
			r.ev.stalls[s] = true
			r.st.fault("stream_stall", 1)
			simrt.Stall(r.ev.tag())
		}
	}
	if r.panic >= 0 && r.pos >= r.panic {
		r.ev.panFired = true
		r.st.fault("stream_panic", 1)
		panic(injected("stream panics"))
	}
	if f := r.fault; f != nil && r.pos >= f.At {
		return r.fail(p, 0)
	}
	for _, e := range r.d.Empty {
		if e == i && len(p) > 0 && r.reads < 1000 {
			r.st.fault("read_empty", 1)
			r.scrib(p)
			return 0, nil
		}
	}
	if r.pos >= len(data) {
		r.eof()
		return 0, io.EOF
	}
	n := len(p)
	if len(r.d.Chunks) > 0 {
		c := r.d.Chunks[r.chunk%len(r.d.Chunks)]
		r.chunk++
		if c < n {
			n = c
			r.st.fault("read_short", 1)
		}
	}
	if n > len(data)-r.pos {
		n = len(data) - r.pos
	}
	if f := r.fault; f != nil && r.pos+n > f.At {
		n = f.At - r.pos
	}
	if r.panic >= 0 && r.pos+n > r.panic {
		n = r.panic - r.pos
	}
	for _, s := range r.d.Stall {
		if s > r.pos && s < r.pos+n {
			n = s - r.pos
		}
	}
	n = copy(p, data[r.pos:r.pos+n])
	r.pos += n
	r.scrib(p[n:])
	simrt.IO(2)
	if f := r.fault; f != nil && r.pos >= f.At && f.With {
		return r.fail(p, n)
	}
	if r.pos >= len(data) && r.d.EOFWith && r.fault == nil {
		r.st.fault("eof_with_data", 1)
		r.eof()
		return n, io.EOF
	}
	return n, nil
}

func (r *reader) eof() {
	if r.eofed {
		r.st.fault("read_after_eof", 1)
	}
	r.eofed = true
}

func (r *reader) scrib(p []byte) {
	if r.d.Scrib && len(p) > 0 {
		r.st.fault("read_scratch", 1)
		if len(p) > 64 {
			p = p[:64]
		}
		for i := range p {
			p[i] = ".z{color:red}}"[i%14]
		}
	}
}

func (r *reader) fail(p []byte, n int) (int, error) {
	f := r.fault
	r.ev.errFired = true
	r.st.fault("stream_error_"+f.Kind, 1)
	if n > 0 {
		r.st.fault("stream_error_with_data", 1)
	}
	err := faultError(f.Kind)
	switch f.After {
	case "eof":
		r.fault = nil
		r.pos = r.mem.e - r.mem.a
	case "resume":
		r.fault = nil
	}
	return n, err
}

// Further methods a reader may have. Those that no interface of the standard
// library ties to Read may give something else than Read delivers.

func (r *reader) other(mayLie bool) []byte {
	r.st.fault("extra_method_called", 1)
	if r.d.Lie && mayLie {
		return []byte(".k1{z-index:999}.zz-lie{color:red}")
	}
	return r.mem.arr[r.mem.a:r.mem.e]
}

type withBytes struct{ r *reader }

func (w withBytes) Bytes() []byte { return w.r.other(true) }

type withWriteTo struct{ r *reader }

func (w withWriteTo) WriteTo(out io.Writer) (int64, error) {
	b := w.r.other(false)
	b = b[min(w.r.pos, len(b)):]
	w.r.pos += len(b)
	n, err := out.Write(b)
	return int64(n), err
}

type withLen struct{ r *reader }

func (w withLen) Len() int    { return len(w.r.other(true)) / 2 }
func (w withLen) Size() int64 { return int64(len(w.r.other(true))) / 2 }

type withString struct{ r *reader }

func (w withString) String() string { return string(w.r.other(true)) }

type withReadByte struct{ r *reader }

func (w withReadByte) ReadByte() (byte, error) {
	b := w.r.other(false)
	if w.r.pos >= len(b) {
		return 0, io.EOF
	}
	w.r.pos++
	return b[w.r.pos-1], nil
}

func (w withReadByte) ReadRune() (rune, int, error) {
	b, err := w.ReadByte()
	return rune(b), 1, err
}

func (w withReadByte) UnreadByte() error { return nil }

type withClose struct{ r *reader }

func (w withClose) Close() error { return errors.New("already closed") }

type withSeek struct{ r *reader }

func (w withSeek) Seek(off int64, whence int) (int64, error) {
	w.r.st.fault("extra_method_called", 1)
	return 0, errors.New("cannot seek")
}

type withReadAt struct{ r *reader }

func (w withReadAt) ReadAt(p []byte, off int64) (int, error) {
	b := w.r.other(false)
	if off >= int64(len(b)) {
		return 0, io.EOF
	}
	n := copy(p, b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type withReadString struct{ r *reader }

func (w withReadString) ReadString(delim byte) (string, error) {
	b := w.r.other(false)
	b = b[min(w.r.pos, len(b)):]
	for i := range b {
		if b[i] == delim {
			w.r.pos += i + 1
			return string(b[:i+1]), nil
		}
	}
	w.r.pos += len(b)
	return string(b), io.EOF
}

// withPeek is like a bufio.Reader.
type withPeek struct{ r *reader }

func (w withPeek) Peek(n int) ([]byte, error) {
	b := w.r.other(false)
	b = b[min(w.r.pos, len(b)):]
	if n > len(b) {
		return b, io.EOF
	}
	return b[:n:n], nil
}

func (w withPeek) Discard(n int) (int, error) {
	b := w.r.other(false)
	if w.r.pos+n > len(b) {
		n = len(b) - w.r.pos
		w.r.pos = len(b)
		return n, io.EOF
	}
	w.r.pos += n
	return n, nil
}

func (w withPeek) Buffered() int                        { return len(w.r.other(true)) / 2 }
func (w withPeek) ReadSlice(delim byte) ([]byte, error) { return w.ReadBytes(delim) }
func (w withPeek) ReadBytes(delim byte) ([]byte, error) {
	s, err := withReadString{w.r}.ReadString(delim)
	return []byte(s), err
}
func (w withPeek) ReadLine() ([]byte, bool, error) {
	b, err := w.ReadBytes('\n')
	if len(b) > 0 {
		err = nil
	}
	return bytes.TrimSuffix(b, []byte("\n")), false, err
}

// withNext is like a bytes.Buffer.
type withNext struct{ r *reader }

func (w withNext) Next(n int) []byte {
	b := w.r.other(false)
	b = b[min(w.r.pos, len(b)):]
	n = min(n, len(b))
	w.r.pos += n
	return b[:n:n]
}

func (w withNext) Cap() int                    { return cap(w.r.other(true)) }
func (w withNext) Available() int              { return len(w.r.other(true)) / 2 }
func (w withNext) AvailableBuffer() []byte     { return w.r.other(true)[:0] }
func (w withNext) Grow(int)                    {}
func (w withNext) Reset()                      { w.r.pos = len(w.r.mem.orig) }
func (w withNext) Truncate(n int)              {}
func (w withNext) Write(p []byte) (int, error) { return len(p), nil }

// withStat is like an os.File.
type withStat struct{ r *reader }

func (w withStat) Stat() (fs.FileInfo, error) {
	if w.r.d.EOFWith {
		return nil, errors.New("no information")
	}
	return fileInfo{int64(len(w.r.other(true))) / 2}, nil
}

func (w withStat) Name() string { return "sheet.css" }
func (w withStat) Fd() uintptr  { return ^uintptr(0) }
func (w withStat) Sync() error  { return errors.New("cannot sync") }

type fileInfo struct{ size int64 }

func (i fileInfo) Name() string       { return "sheet.css" }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0o644 }
func (i fileInfo) ModTime() time.Time { return time.Unix(1, 0) }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

func (r *reader) has(m string) bool {
	for _, x := range r.d.Methods {
		if x == m {
			return true
		}
	}
	return false
}

// methods wraps r so that it has the methods its delivery asks for. Only some
// combinations exist as types; the first that is asked for wins otherwise.
func (r *reader) methods() io.Reader {
	b, w := r.has("bytes"), r.has("writeto")
	switch {
	case b && w && r.has("len"):
		return struct {
			io.Reader
			withBytes
			withWriteTo
			withLen
			withString
			withReadByte
		}{r, withBytes{r}, withWriteTo{r}, withLen{r}, withString{r}, withReadByte{r}}
	case b && w:
		return struct {
			io.Reader
			withBytes
			withWriteTo
		}{r, withBytes{r}, withWriteTo{r}}
	case b:
		return struct {
			io.Reader
			withBytes
			withString
		}{r, withBytes{r}, withString{r}}
	case w:
		return struct {
			io.Reader
			withWriteTo
			withClose
		}{r, withWriteTo{r}, withClose{r}}
	case r.has("len"):
		return struct {
			io.Reader
			withLen
			withReadByte
		}{r, withLen{r}, withReadByte{r}}
	case r.has("string"):
		return struct {
			io.Reader
			withString
			withClose
		}{r, withString{r}, withClose{r}}
	case r.has("peek"):
		return struct {
			io.Reader
			withPeek
			withReadByte
			withLen
		}{r, withPeek{r}, withReadByte{r}, withLen{r}}
	case r.has("next"):
		return struct {
			io.Reader
			withNext
			withReadByte
		}{r, withNext{r}, withReadByte{r}}
	case r.has("stat"):
		return struct {
			io.Reader
			withStat
			withSeek
			withReadAt
			withClose
		}{r, withStat{r}, withSeek{r}, withReadAt{r}, withClose{r}}
	case r.has("readbyte"):
		return struct {
			io.Reader
			withReadByte
			withSeek
		}{r, withReadByte{r}, withSeek{r}}
	case r.has("readat"):
		return struct {
			io.Reader
			withReadAt
			withSeek
			withLen
		}{r, withReadAt{r}, withSeek{r}, withLen{r}}
	case r.has("readstring"):
		return struct {
			io.Reader
			withReadString
			withLen
		}{r, withReadString{r}, withLen{r}}
	case r.has("close") || r.has("seek"):
		return struct {
			io.Reader
			withClose
			withSeek
		}{r, withClose{r}, withSeek{r}}
	}
	return r
}

const readBefore = ".k2{z-index:77}.zz-before{color:red}{"

var scratch [32]*os.File
var scratchN int

// scratchFile is an unnamed file with the text, read up to where it begins. It
// is there for the next few.
//
//go:norace
func scratchFile(before bool, text string) *os.File {
	f, err := os.CreateTemp("", "sheet")
	if err != nil {
		return nil
	}
	os.Remove(f.Name())
	at := 0
	if before {
		text, at = readBefore+text, len(readBefore)
	}
	_, err = f.WriteString(text)
	if err == nil {
		_, err = f.Seek(int64(at), io.SeekStart)
	}
	if err != nil {
		f.Close()
		return nil
	}
	if old := scratch[scratchN%len(scratch)]; old != nil {
		old.Close()
	}
	scratch[scratchN%len(scratch)] = f
	scratchN++
	return f
}

func makeReader(d *trace.Delivery, mem *memory, ev *event, st *stats) (io.Reader, *reader) {
	if d == nil {
		return strings.NewReader(mem.orig), nil
	}
	b := mem.arr[mem.a:mem.e]
	if d.Via != "" {
		st.fault("via_"+d.Via, 1)
	}
	switch d.Via {
	// With an odd number of bytes before it, the stylesheet is what is left of
	// something the caller has read in part.
	case "strings":
		if d.Before%2 == 1 {
			s := strings.NewReader(readBefore + mem.orig)
			s.Seek(int64(len(readBefore)), io.SeekStart)
			return s, nil
		}
		return strings.NewReader(mem.orig), nil
	case "bytesbuffer":
		if d.Before%2 == 1 {
			b := bytes.NewBuffer(mem.arr[:mem.e])
			b.Next(mem.a)
			return b, nil
		}
		return bytes.NewBuffer(b), nil
	case "bytesreader":
		if d.Before%2 == 1 {
			b := bytes.NewReader(mem.arr[:mem.e])
			b.Seek(int64(mem.a), io.SeekStart)
			return b, nil
		}
		return bytes.NewReader(b), nil
	case "section":
		return io.NewSectionReader(bytes.NewReader(mem.arr), int64(mem.a), int64(len(b))), nil
	case "file":
		if f := scratchFile(d.Before%2 == 1, mem.orig); f != nil {
			return f, nil
		}
		return strings.NewReader(mem.orig), nil
	case "bufio":
		if d.Before%2 == 1 {
			b := bufio.NewReaderSize(strings.NewReader(readBefore+mem.orig), 64)
			b.Discard(len(readBefore))
			return b, nil
		}
		return bufio.NewReaderSize(bytes.NewReader(b), 16), nil
	case "limited":
		return io.LimitReader(bytes.NewReader(append(append([]byte{}, b...), ".k1{color:red}"...)), int64(len(b))), nil
	case "multi":
		h := len(b) / 2
		return io.MultiReader(bytes.NewBuffer(b[:h:h]), strings.NewReader(mem.orig[h:])), nil
	case "tee":
		return io.TeeReader(bytes.NewBuffer(b), io.Discard), nil
	case "pipeless":
		return struct{ io.Reader }{bytes.NewReader(b)}, nil
	}
	r := &reader{d: d, mem: mem, ev: ev, st: st, panic: -1, fault: d.Err}
	if d.Panic != nil {
		r.panic = *d.Panic
	}
	if len(d.Methods) > 0 {
		return r.methods(), r
	}
	return r, r
}

// injected is the value of panics the simulator causes.
type injected string

// ---- caches

// simCache is a user-supplied cache. It synchronises like a lock-free map would:
// a Get that finds an entry is ordered after the Set that stored it, and nothing
// else is; so it hides none of the races the caller of the cache may have.
type simCache struct {
	kind    string
	rng     uint64
	head    *centry
	n       int
	panicOn string
	panicAt int
	calls   [3]int
	hits    int
	misses  int
	lost    int
	evicted int
	clears  int
	firedN  int
	firedIn int64 // tag of the call it panicked in
	w       *world
}

// used notes a use of the cache on behalf of a call that has returned.
//
//go:norace
func (c *simCache) used() {
	if c.w != nil {
		if ev := c.w.byTag(simrt.Tag()); ev != nil && ev.done {
			ev.lateCache = true
		}
	}
}

type centry struct {
	k, v string
	next *centry
}

//go:norace
func (c *simCache) rnd(n uint64) uint64 {
	c.rng = c.rng*6364136223846793005 + 1442695040888963407
	return (c.rng >> 33) % n
}

//go:norace
func (c *simCache) boom(op int, name string) bool {
	c.calls[op]++
	if c.panicOn == name && c.calls[op] == c.panicAt {
		c.firedN++
		c.firedIn = simrt.Tag()
		return true
	}
	return false
}

//go:norace
func (c *simCache) find(k string) *centry {
	for e := c.head; e != nil; e = e.next {
		if e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (c *simCache) get(k string) *centry {
	if c.kind == "lossy" {
		switch c.rnd(8) {
		case 0:
			c.lost++
			return nil // a miss, but still there
		case 1:
			c.drop(k)
		case 2:
			c.evictOne()
		}
	}
	e := c.find(k)
	if e == nil {
		c.misses++
	} else {
		c.hits++
	}
	return e
}

//go:norace
func (c *simCache) drop(k string) {
	for p := &c.head; *p != nil; p = &(*p).next {
		if (*p).k == k {
			*p = (*p).next
			c.n--
			c.evicted++
			return
		}
	}
}

//go:norace
func (c *simCache) evictOne() {
	if c.n == 0 {
		return
	}
	i := int(c.rnd(uint64(c.n)))
	p := &c.head
	for ; i > 0; i-- {
		p = &(*p).next
	}
	*p = (*p).next
	c.n--
	c.evicted++
}

//go:norace
func (c *simCache) set(e *centry) {
	for p := &c.head; *p != nil; p = &(*p).next {
		if (*p).k == e.k {
			*p = (*p).next
			c.n--
			break
		}
	}
	if c.kind == "lossy" {
		switch c.rnd(6) {
		case 0:
			c.lost++
			return
		case 1:
			c.evictOne()
		}
	}
	if c.kind == "tiny" && c.n >= 2 {
		c.evictOne()
	}
	e.next = c.head
	c.head = e
	c.n++
}

//go:norace
func (c *simCache) clear() { c.head, c.n = nil, 0; c.clears++ }

func (c *simCache) Get(key string) (string, bool) {
	simrt.IO(3)
	c.used()
	if c.boom(0, "get") {
		panic(injected("cache panics in Get"))
	}
	e := c.get(key)
	if e == nil {
		simrt.IO(4)
		return "", false
	}
	simrt.Acquire(unsafe.Pointer(e))
	v := e.v
	simrt.IO(4)
	return v, true
}

func (c *simCache) Set(key, data string) {
	simrt.IO(5)
	c.used()
	if c.boom(1, "set") {
		panic(injected("cache panics in Set"))
	}
	e := &centry{k: key, v: data}
	simrt.Release(unsafe.Pointer(e))
	c.set(e)
	simrt.IO(6)
}

func (c *simCache) Clear() {
	simrt.IO(7)
	c.used()
	if c.boom(2, "clear") {
		panic(injected("cache panics in Clear"))
	}
	c.clear()
	simrt.IO(8)
}
