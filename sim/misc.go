package sim

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
)

//go:norace
func knobs() uint64 {
	if theS == nil || !active {
		return 0
	}
	return theS.cfg.Knobs
}

// NumCPU stands in for runtime.NumCPU and runtime.GOMAXPROCS.
func NumCPU() int { return []int{1, 2, 4, 8, 3}[knobs()%5] }

// GOMAXPROCS stands in for runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return NumCPU() }

// MapIter is for k, v := range m in an order the simulator decides.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// NewMapIter starts ranging over a map.
func NewMapIter[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.SliceStable(it.keys, func(i, j int) bool { return lessAny(it.keys[i], it.keys[j]) })
	if k := knobs(); k != 0 {
		r := NewRng(mix(k, uint64(len(it.keys))))
		for i := len(it.keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

func lessAny(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.IsValid() && y.IsValid() && x.Kind() == y.Kind() {
		switch {
		case x.CanInt():
			return x.Int() < y.Int()
		case x.CanUint():
			return x.Uint() < y.Uint()
		case x.CanFloat():
			return x.Float() < y.Float()
		case x.Kind() == reflect.String:
			return x.String() < y.String()
		case x.Kind() == reflect.Ptr:
			return fmt.Sprintf("%T%+v", a, x.Elem()) < fmt.Sprintf("%T%+v", b, y.Elem())
		}
	}
	return fmt.Sprintf("%T%+v", a, a) < fmt.Sprintf("%T%+v", b, b)
}

// Zero gives the loop variables their initial values.
func (it *MapIter[K, V]) Zero() (k K, v V) { return }

// ZeroKey gives the key variable its initial value.
func (it *MapIter[K, V]) ZeroKey() (k K) { return }

// ZeroVal gives the value variable its initial value.
func (it *MapIter[K, V]) ZeroVal() (v V) { return }

// Next moves to the next entry still in the map.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if val, ok := it.m[key]; ok {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
	}
	return false
}

// Rand stands in for the global generator of math/rand.
func Rand() *rand.Rand {
	return rand.New(rand.NewSource(int64(mix(knobs(), uint64(Seq())))))
}
