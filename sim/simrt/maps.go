package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates over a map in an order chosen by the environment seed.
type MapIter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

// Range is the instrumented form of a range clause over a map. The zero K and V
// become the loop variables.
func Range[M ~map[K]V, K comparable, V any](m M) (*MapIter[M, K, V], K, V) {
	it := &MapIter[M, K, V]{m: m}
	var k K
	var v V
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		if len(it.keys) > 1 {
			sortKeys(it.keys)
			countRange()
			// Fisher-Yates, from the environment generator.
			for i := len(it.keys) - 1; i > 0; i-- {
				j := int(EnvRnd(uint64(i + 1)))
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it, k, v
}

// Next advances; entries deleted meanwhile are not produced.
func (it *MapIter[M, K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	switch reflect.TypeFor[K]().Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
		})
	default:
		// Good enough for plain data; keys that hold pointers keep an arbitrary order.
		s := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			s[i] = fmt.Sprintf("%#v", k)
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return s[idx[i]] < s[idx[j]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		copy(keys, out)
	}
}
