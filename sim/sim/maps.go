//go:build go1.21

package sim

import (
	"fmt"
	"sort"
)

// MapIter visits a map in an order decided by the simulator
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIter[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		switch ks := any(it.keys).(type) {
		case []string:
			sort.Strings(ks)
		case []int:
			sort.Ints(ks)
		default:
			names := make([]string, len(it.keys))
			for i, k := range it.keys {
				names[i] = fmt.Sprint(k)
			}
			sort.Sort(&byName[K]{it.keys, names})
		}
		switch mapOrder() {
		case "sorted":
		case "reversed":
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		default:
			for i := len(it.keys) - 1; i > 0; i-- {
				j := int(taskRand() % uint64(i+1))
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

//go:norace
func mapOrder() string {
	if w == nil || cur == nil {
		return "sorted"
	}
	w.MapIters++
	return w.Cfg.Maps
}

type byName[K any] struct {
	keys  []K
	names []string
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

// Next moves to the next entry
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue // removed meanwhile
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// MapKV starts an iteration over keys and values
func MapKV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return newIter[K, V](m), k, v
}

// MapK starts an iteration over keys
func MapK[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K) {
	var k K
	return newIter[K, V](m), k
}

// MapV starts an iteration over values
func MapV[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], V) {
	var v V
	return newIter[K, V](m), v
}

// Map0 starts an iteration
func Map0[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] { return newIter[K, V](m) }

// PoolForget decides whether a pool hands out a fresh object
//
//go:norace
func PoolForget() bool {
	if w == nil || cur == nil || w.Cfg.PoolNew == 0 {
		return false
	}
	if int(taskRand()%1000) < w.Cfg.PoolNew {
		w.PoolMiss++
		return true
	}
	return false
}

// TaskRand draws from the stream of the current task
//
//go:norace
func TaskRand() uint64 { return taskRand() }
