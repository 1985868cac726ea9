// Package simmaps stands in for package maps: iteration order comes from the
// simulator.
package simmaps

import (
	"iter"
	"maps"

	"verif.local/sim/simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it, k, v := simrt.Range(m)
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		it, k, _ := simrt.Range(m)
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		it, _, v := simrt.Range(m)
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return maps.Equal(m1, m2) }

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(m1, m2, eq)
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	it, k, v := simrt.Range(src)
	for it.Next(&k, &v) {
		simrt.Y(simrt.SiteSync | 61)
		dst[k] = v
	}
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	it, k, v := simrt.Range(m)
	for it.Next(&k, &v) {
		simrt.Y(simrt.SiteSync | 62)
		if del(k, v) {
			delete(m, k)
		}
	}
}
