package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates over a map in an order decided by the execution.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	ok   bool
	desc bool
	expl bool
}

func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	it := &MapIter[K, V]{m: m}
	if n := len(m); n > 0 {
		it.keys = make([]K, 0, n)
		for k := range m {
			it.keys = append(it.keys, k)
		}
	}
	if ex := curExec; ex != nil {
		sortKeys(it.keys)
		it.desc = ex.cfg.MapDesc
		it.expl = ex.cfg.Map && len(it.keys) <= 6
		if it.desc {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	k, v := it.Next()
	return it, k, v
}

func (it *MapIter[K, V]) Ok() bool { return it.ok }

func (it *MapIter[K, V]) Next() (K, V) {
	for len(it.keys) > 0 {
		i := 0
		if it.expl && len(it.keys) > 1 {
			i = ChooseKind(KMap, len(it.keys))
		}
		k := it.keys[i]
		if i == 0 {
			it.keys = it.keys[1:]
		} else {
			it.keys = append(append([]K{}, it.keys[:i]...), it.keys[i+1:]...)
		}
		if v, ok := it.m[k]; ok {
			it.ok = true
			return k, v
		}
	}
	it.ok = false
	var k K
	var v V
	return k, v
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	rv := reflect.ValueOf(keys)
	switch rv.Type().Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		xs := make([]int64, len(keys))
		for i := range keys {
			xs[i] = rv.Index(i).Int()
		}
		sort.Sort(&by[K, int64]{keys, xs})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		xs := make([]uint64, len(keys))
		for i := range keys {
			xs[i] = rv.Index(i).Uint()
		}
		sort.Sort(&by[K, uint64]{keys, xs})
	case reflect.String:
		xs := make([]string, len(keys))
		for i := range keys {
			xs[i] = rv.Index(i).String()
		}
		sort.Sort(&by[K, string]{keys, xs})
	default:
		xs := make([]string, len(keys))
		for i := range keys {
			xs[i] = fmt.Sprint(keys[i])
		}
		sort.Sort(&by[K, string]{keys, xs})
	}
}

type by[K any, X int64 | uint64 | string] struct {
	k []K
	x []X
}

func (b *by[K, X]) Len() int           { return len(b.k) }
func (b *by[K, X]) Less(i, j int) bool { return b.x[i] < b.x[j] }
func (b *by[K, X]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.x[i], b.x[j] = b.x[j], b.x[i]
}
