package rt

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// MapIt traverses a map in an order taken from the choice streams. The order
// before shuffling is canonical, so that a run is a function of its choices.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIt[K comparable, V any](m map[K]V) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	canon(keys)
	if n := len(keys); n > 1 && S != nil && S.cur != nil {
		S.Count("map-iterations", 1)
		if S.Cfg.PMap > 0 {
			// One choice per traversal: 0 canonical, 1 reversed, else a seed.
			v := S.C.choose(MapOrd, 1<<16, S.Cfg.PMap)
			switch {
			case v == 0:
			case v == 1:
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			default:
				r := NewRand(uint64(v))
				for i := n - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
	}
	it.keys = keys
	return it
}

func MapIt2[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIt[K, V]) {
	var k K
	var v V
	return k, v, newIt(map[K]V(m))
}
func MapItK[M ~map[K]V, K comparable, V any](m M) (K, *MapIt[K, V]) {
	var k K
	return k, newIt(map[K]V(m))
}
func MapItV[M ~map[K]V, K comparable, V any](m M) (V, *MapIt[K, V]) {
	var v V
	return v, newIt(map[K]V(m))
}
func MapIt0[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] { return newIt(map[K]V(m)) }

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
func (it *MapIt[K, V]) NextK(k *K) bool { return it.Next(k, nil) }
func (it *MapIt[K, V]) NextV(v *V) bool { return it.Next(nil, v) }
func (it *MapIt[K, V]) Next0() bool     { return it.Next(nil, nil) }

func canon[K comparable](keys []K) {
	switch ks := interface{}(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []float64:
		sort.Float64s(ks)
		return
	}
	rv := reflect.ValueOf(keys)
	fp := make([]string, len(keys))
	for i := range keys {
		var sb strings.Builder
		fingerprint(&sb, rv.Index(i), 3)
		fp[i] = sb.String()
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return fp[idx[a]] < fp[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

// fingerprint renders a value without addresses.
func fingerprint(sb *strings.Builder, v reflect.Value, depth int) {
	if sb.Len() > 600 {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(sb, "%v,", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(sb, "%020d,", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%020d,", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%030.9f,", v.Float())
	case reflect.String:
		sb.WriteString(v.String())
		sb.WriteByte(',')
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil,")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String())
		}
		if depth > 0 {
			fingerprint(sb, v.Elem(), depth-1)
		}
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			fingerprint(sb, v.Field(i), depth)
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(sb, "[%d", v.Len())
		for i := 0; i < v.Len() && i < 8; i++ {
			fingerprint(sb, v.Index(i), depth-1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		fmt.Fprintf(sb, "map%d,", v.Len())
	}
}
