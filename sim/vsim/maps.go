package vsim

import (
	"fmt"
	"io"
	"reflect"
	"sort"
)

// MapIt iterates over a map in an order the simulator chooses.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter returns zero loop variables and an iterator for m.
func MapIter[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIt[K, V]) {
	var (
		k K
		v V
	)
	it := &MapIt[K, V]{m: m, keys: make([]K, 0, len(m))}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	mode, seed := mapMode()
	switch mode {
	case 1:
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	case 2:
		for i := len(it.keys) - 1; i > 0; i-- {
			j := int(rnd(&seed) % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return k, v, it
}

// Next advances the iteration and stores the entry through the non-nil
// pointers.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue // deleted during the iteration
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

//go:norace
func mapMode() (int, uint64) {
	if w == nil || !active {
		switch bootMode {
		case 0, 1:
			return bootMode, 0
		}
		return 2, rnd(&bootRng)
	}
	w.mapIters++
	if w.cfg.MapMode != 2 {
		return w.cfg.MapMode, 0
	}
	return 2, rnd(&w.mapRng)
}

func sortKeys[K comparable](keys []K) {
	if ks, ok := any(keys).([]string); ok {
		sort.Strings(ks)
		return
	}
	if len(keys) < 2 {
		return
	}
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int()
		})
	default:
		strs := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			strs[i] = fmt.Sprintf("%#v", k)
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return strs[idx[i]] < strs[idx[j]] })
		cp := append([]K(nil), keys...)
		for i, j := range idx {
			keys[i] = cp[j]
		}
	}
}

// Reader wraps a reader handed to code that accepts any io.Reader: it delivers
// the same bytes in fragments the simulator chooses.
func Reader(r io.Reader) io.Reader {
	mode := readMode()
	if mode == 0 {
		return r
	}
	return &fragReader{r: r, mode: mode}
}

type fragReader struct {
	r    io.Reader
	mode int
}

func (f *fragReader) Read(p []byte) (int, error) {
	n := len(p)
	if n > 0 {
		switch f.mode {
		case 1:
			n = 1
		case 2:
			n = 1 + int(fragment()%7)
			if n > len(p) {
				n = len(p)
			}
		}
	}
	return f.r.Read(p[:n])
}

//go:norace
func readMode() int {
	if w == nil || !active {
		return 0
	}
	if w.cfg.ReadMode != 0 {
		w.fragments++
	}
	return w.cfg.ReadMode
}

//go:norace
func fragment() uint64 {
	if w == nil || !active {
		return 0
	}
	return rnd(&w.readRng)
}

// choose is a decision between alternatives that are all possible.
//
//go:norace
func choose() uint64 { return rnd(&w.poolRng) }

// PoolPick chooses what a pool of n items hands out: an index, or -1 for none.
//
//go:norace
func PoolPick(n int) int {
	if n == 0 {
		return -1
	}
	if w == nil || !active {
		return n - 1
	}
	switch w.cfg.PoolMode {
	case 1:
		return int(rnd(&w.poolRng)%uint64(n+1)) - 1
	case 2:
		return -1
	}
	return n - 1
}
