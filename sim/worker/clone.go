package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"verif.local/sim/simatomic"
	"verif.local/sim/simsync"
)

// A fresh Merger costs a parse of the property table, which is the same every
// time, so most runs use a deep copy of one made at process start. Nothing is
// shared between the copies. A Merger holding something that cannot be copied
// faithfully (a function, a channel) is made anew each time instead.

type cloner struct {
	seen   map[unsafe.Pointer]reflect.Value
	maps   map[unsafe.Pointer]reflect.Value
	slices map[unsafe.Pointer]reflect.Value
	subs   map[unsafe.Pointer]reflect.Value // pointers to replace
	sh     *sharer
}

func newCloner(sh *sharer) *cloner {
	return &cloner{map[unsafe.Pointer]reflect.Value{}, map[unsafe.Pointer]reflect.Value{}, map[unsafe.Pointer]reflect.Value{}, map[unsafe.Pointer]reflect.Value{}, sh}
}

type cannotClone struct{ why string }

// deepClone copies v. Two values copied by one cloner have copies in common
// of what they have in common.
func (c *cloner) deepClone(v reflect.Value) (out reflect.Value, err error) {
	defer func() {
		if e := recover(); e != nil {
			if c, ok := e.(cannotClone); ok {
				err = fmt.Errorf("%s", c.why)
				return
			}
			panic(e)
		}
	}()
	out = c.clone(v)
	if sh := c.sh; sh != nil {
		for p := range c.seen {
			if sh.inside[p] {
				sh.off = true // reached from outside a shared table too
				n := newCloner(nil)
				n.subs = c.subs
				*c = *n
				return c.clone(v), nil
			}
		}
	}
	return out, nil
}

// A sharer knows the large maps that copies of a Merger share. Sharing is
// sound as long as nobody writes to them, which changed finds out.
type sharer struct {
	roots  map[unsafe.Pointer]*shared
	inside map[unsafe.Pointer]bool // what the shared maps point to
	off    bool
}

type shared struct {
	v    reflect.Value
	hash uint64
}

func newSharer() *sharer {
	return &sharer{map[unsafe.Pointer]*shared{}, map[unsafe.Pointer]bool{}, false}
}

func (s *sharer) share(v reflect.Value) bool {
	if s.off || v.Len() < 64 {
		return false
	}
	p := v.UnsafePointer()
	if s.roots[p] == nil {
		f := finger{ptrs: s.inside, seen: map[unsafe.Pointer]bool{}}
		h := f.hash(v)
		if f.bad {
			s.off = true
			return false
		}
		s.roots[p] = &shared{v, h}
	}
	return true
}

// changed says whether a shared map was written to.
func (s *sharer) changed() bool {
	if s == nil {
		return false
	}
	for _, r := range s.roots {
		f := finger{seen: map[unsafe.Pointer]bool{}}
		if f.hash(r.v) != r.hash {
			return true
		}
	}
	return false
}

// finger hashes everything reachable from a value, by address where it is immutable.
type finger struct {
	ptrs map[unsafe.Pointer]bool
	seen map[unsafe.Pointer]bool
	bad  bool
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9e3779b97f4a7c15
	return h ^ h>>29
}

func (f *finger) raw(p unsafe.Pointer, n uintptr) uint64 {
	h := uint64(n)
	i := uintptr(0)
	for ; i+8 <= n; i += 8 {
		h = mix(h, *(*uint64)(unsafe.Add(p, i)))
	}
	for ; i < n; i++ {
		h = mix(h, uint64(*(*byte)(unsafe.Add(p, i))))
	}
	return h
}

func (f *finger) first(p unsafe.Pointer) bool {
	if f.seen[p] {
		return false
	}
	f.seen[p] = true
	if f.ptrs != nil {
		f.ptrs[p] = true
	}
	return true
}

// leaf says that a value of the type refers to nothing but strings.
func leaf(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return false
	case reflect.Array:
		return leaf(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !leaf(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

// hash takes an addressable value or a map.
func (f *finger) hash(v reflect.Value) uint64 {
	t := v.Type()
	if t.Kind() == reflect.Map {
		if v.IsNil() {
			return 1
		}
		if v.CanAddr() && !f.first(v.UnsafePointer()) {
			return 2
		}
		var h uint64
		k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
		for it := v.MapRange(); it.Next(); {
			k.SetIterKey(it)
			e.SetIterValue(it)
			h += mix(f.hash(k), f.hash(e)) // in no order
		}
		return mix(h, uint64(v.Len()))
	}
	p := unsafe.Pointer(v.UnsafeAddr())
	h := f.raw(p, t.Size())
	return f.deep(h, t, p)
}

func (f *finger) deep(h uint64, t reflect.Type, p unsafe.Pointer) uint64 {
	switch t.Kind() {
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if *(*unsafe.Pointer)(p) != nil {
			f.bad = true
		}
	case reflect.Interface:
		v := reflect.NewAt(t, p).Elem()
		if !v.IsNil() {
			e := reflect.New(v.Elem().Type()).Elem()
			e.Set(v.Elem())
			h = mix(h, f.hash(e))
		}
	case reflect.Map:
		h = mix(h, f.hash(reflect.NewAt(t, p).Elem()))
	case reflect.Pointer:
		q := *(*unsafe.Pointer)(p)
		if q != nil && f.first(q) {
			h = mix(h, f.raw(q, t.Elem().Size()))
			h = f.deep(h, t.Elem(), q)
		}
	case reflect.Slice:
		sl := (*[]byte)(p) // same layout
		q := unsafe.Pointer(unsafe.SliceData(*sl))
		if len(*sl) > 0 && f.first(q) {
			e := t.Elem()
			h = mix(h, f.raw(q, uintptr(len(*sl))*e.Size()))
			if !isLeaf(e) {
				for i := 0; i < len(*sl); i++ {
					h = f.deep(h, e, unsafe.Add(q, uintptr(i)*e.Size()))
				}
			}
		}
	case reflect.Struct:
		if isLeaf(t) {
			return h
		}
		for _, fl := range fieldsOf(t) {
			if fl.t.Size() == 0 {
				continue
			}
			h = f.deep(h, fl.t, unsafe.Add(p, fl.off))
		}
	case reflect.Array:
		if isLeaf(t) {
			return h
		}
		for i := 0; i < t.Len(); i++ {
			h = f.deep(h, t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()))
		}
	}
	return h
}

// An extent is the memory of an object that something points to.
type extent struct {
	p, n uintptr
	t    reflect.Type
}

// inside says whether something reachable from v points into the middle of an
// object that is reachable too, as a condition variable does whose lock is a
// field of the same Merger. Copies would not.
func inside(v reflect.Value) bool {
	var all []extent
	have := map[extent]bool{}
	var walk func(t reflect.Type, p unsafe.Pointer)
	note := func(p unsafe.Pointer, n uintptr, t reflect.Type) bool {
		e := extent{uintptr(p), n, t}
		if n == 0 || have[e] {
			return false
		}
		have[e] = true
		all = append(all, e)
		return true
	}
	walk = func(t reflect.Type, p unsafe.Pointer) {
		switch t.Kind() {
		case reflect.Pointer:
			q := *(*unsafe.Pointer)(p)
			e := t.Elem()
			if q == nil || e.PkgPath() == "regexp" || e.PkgPath() == "reflect" || !note(q, e.Size(), e) {
				return
			}
			walk(e, q)
		case reflect.Interface:
			v := reflect.NewAt(t, p).Elem()
			if !v.IsNil() {
				e := reflect.New(v.Elem().Type()).Elem()
				e.Set(v.Elem())
				walk(e.Type(), unsafe.Pointer(e.UnsafeAddr()))
			}
		case reflect.Map:
			v := reflect.NewAt(t, p).Elem()
			if v.IsNil() || isLeaf(t.Key()) && isLeaf(t.Elem()) || !note(v.UnsafePointer(), 1, t) {
				return
			}
			for it := v.MapRange(); it.Next(); {
				k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
				k.SetIterKey(it)
				e.SetIterValue(it)
				walk(t.Key(), unsafe.Pointer(k.UnsafeAddr()))
				walk(t.Elem(), unsafe.Pointer(e.UnsafeAddr()))
			}
		case reflect.Slice:
			sl := (*[]byte)(p) // same layout
			e := t.Elem()
			q := unsafe.Pointer(unsafe.SliceData(*sl))
			if cap(*sl) == 0 || !note(q, uintptr(cap(*sl))*e.Size(), t) || isLeaf(e) {
				return
			}
			for i := 0; i < len(*sl); i++ {
				walk(e, unsafe.Add(q, uintptr(i)*e.Size()))
			}
		case reflect.Struct:
			for _, fl := range fieldsOf(t) {
				walk(fl.t, unsafe.Add(p, fl.off))
			}
		case reflect.Array:
			if !isLeaf(t) {
				for i := 0; i < t.Len(); i++ {
					walk(t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()))
				}
			}
		}
	}
	x := reflect.New(v.Type()).Elem()
	x.Set(v)
	walk(x.Type(), unsafe.Pointer(x.UnsafeAddr()))
	sort.Slice(all, func(i, j int) bool { return all[i].p < all[j].p })
	for i := 1; i < len(all); i++ {
		if a := all[i-1]; a.p+a.n > all[i].p {
			return true
		}
	}
	return false
}

type fieldAt struct {
	t   reflect.Type
	off uintptr
}

var leafMemo = map[reflect.Type]bool{}
var fieldMemo = map[reflect.Type][]fieldAt{}

func isLeaf(t reflect.Type) bool {
	l, ok := leafMemo[t]
	if !ok {
		l = leaf(t)
		leafMemo[t] = l
	}
	return l
}

// fieldsOf lists the fields that refer to something.
func fieldsOf(t reflect.Type) []fieldAt {
	l, ok := fieldMemo[t]
	if !ok {
		for i := 0; i < t.NumField(); i++ {
			if fl := t.Field(i); !leaf(fl.Type) {
				l = append(l, fieldAt{fl.Type, fl.Offset})
			}
		}
		fieldMemo[t] = l
	}
	return l
}

func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func (c *cloner) clone(v reflect.Value) reflect.Value {
	v = open(v)
	switch v.Kind() {
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsZero() {
			return v
		}
		panic(cannotClone{v.Type().String()})
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		p := v.UnsafePointer()
		if s, ok := c.subs[p]; ok {
			return s
		}
		if s, ok := c.seen[p]; ok && s.Type() == v.Type() {
			return s
		}
		if t := v.Type().Elem(); t.PkgPath() == "regexp" || t.PkgPath() == "reflect" {
			return v // immutable
		}
		n := reflect.New(v.Type().Elem())
		c.seen[p] = n
		n.Elem().Set(c.clone(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(c.clone(v.Elem()))
		return n
	case reflect.Struct:
		t := v.Type()
		name := t.Name()
		if t.PkgPath() == "sync" && name == "Map" || t.PkgPath() == "sync/atomic" && strings.HasPrefix(name, "Pointer[") || t.PkgPath() == "sync/atomic" && name == "Value" {
			if v.IsZero() {
				return v
			}
			panic(cannotClone{t.String()})
		}
		n := reflect.New(t).Elem()
		if !v.CanAddr() {
			a := reflect.New(t).Elem()
			a.Set(v)
			v = a
		}
		if t.PkgPath() == "verif.local/sim/simatomic" && strings.HasPrefix(name, "Pointer[") {
			// the type of what it points to is in its first field, the pointer in its second
			if q := *(*unsafe.Pointer)(unsafe.Pointer(v.Field(1).UnsafeAddr())); q != nil {
				to := c.clone(reflect.NewAt(t.Field(0).Type.Elem().Elem(), q))
				*(*unsafe.Pointer)(unsafe.Pointer(n.Field(1).UnsafeAddr())) = to.UnsafePointer()
			}
			return n
		}
		switch from := v.Addr().Interface().(type) {
		case *simatomic.Value:
			if x := from.Load(); x != nil {
				n.Addr().Interface().(*simatomic.Value).Store(c.clone(reflect.ValueOf(x)).Interface())
			}
			return n
		case *simsync.Map:
			from.Range(func(k, x any) bool {
				n.Addr().Interface().(*simsync.Map).Store(c.clone(reflect.ValueOf(k)).Interface(), c.any(x))
				return true
			})
			return n
		}
		for i := 0; i < t.NumField(); i++ {
			open(n.Field(i)).Set(c.clone(v.Field(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(c.clone(v.Index(i)))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		if s, ok := c.slices[v.UnsafePointer()]; ok && v.Cap() > 0 && s.Type() == v.Type() && s.Cap() >= v.Cap() && s.Len() >= v.Len() {
			return s.Slice3(0, v.Len(), v.Cap())
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		c.slices[v.UnsafePointer()] = n
		if flat(v.Type().Elem()) {
			reflect.Copy(n, v)
			return n
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(c.clone(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		if c.sh != nil && c.sh.share(v) {
			return v
		}
		if m, ok := c.maps[v.UnsafePointer()]; ok && m.Type() == v.Type() {
			return m
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		c.maps[v.UnsafePointer()] = n
		for it := v.MapRange(); it.Next(); {
			k := reflect.New(v.Type().Key()).Elem()
			k.Set(it.Key())
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			n.SetMapIndex(c.clone(k), c.clone(e))
		}
		return n
	}
	return v
}

func (c *cloner) any(x any) any {
	if x == nil {
		return nil
	}
	return c.clone(reflect.ValueOf(x)).Interface()
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Struct, reflect.Array:
		return false
	}
	return true
}
