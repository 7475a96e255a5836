package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
)

var mapSeed [MaxTasks + 1]uint64
var mapCtr [MaxTasks + 1]uint64

// SetMapSeed fixes the order in which instrumented code iterates over maps.
//
//go:norace
func SetMapSeed(seed uint64) {
	for i := range mapSeed {
		mapSeed[i] = seed
		mapCtr[i] = 0
	}
}

//go:norace
func nextMapRand() uint64 {
	i := Cur()
	if i < 0 || i > MaxTasks {
		i = 0
	}
	mapCtr[i]++
	r := Rand{S: mapSeed[i] ^ mapCtr[i]*0xD1342543DE82EF95}
	return r.Next()
}

func sortedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	default:
		strs := make(map[K]string, len(keys))
		for _, k := range keys {
			strs[k] = fmt.Sprintf("%v", k)
		}
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(strs[a], strs[b]) })
	}
	return keys
}

func permuted[K comparable, V any](m map[K]V) []K {
	keys := sortedKeys(m)
	if len(keys) > 1 {
		r := Rand{S: nextMapRand()}
		switch r.Intn(4) {
		case 0: // sorted
		case 1: // reversed
			slices.Reverse(keys)
		default:
			for i := len(keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// RangeMap replaces "range m": the seed decides the order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		for _, k := range permuted(map[K]V(m)) {
			v, ok := m[k]
			if !ok {
				continue // deleted during the iteration
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys replaces maps.Keys.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues replaces maps.Values.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// MapAll replaces maps.All.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return RangeMap(m) }
