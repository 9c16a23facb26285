package rt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"regexp"
	"slices"
)

//go:norace
func mapOrder(site uint32) (int, uint64) {
	if mode == 1 {
		t := S.cur
		t.mapN++
		S.mapIt++
		return S.spec.MapMode, mix(S.spec.MapSeed ^ uint64(site)<<20 ^ t.mapN ^ uint64(t.ID)<<50)
	}
	offN++
	return bootMapMode, mix(bootMapSeed ^ uint64(site)<<20 ^ offN)
}

var rxAddr = regexp.MustCompile(`0x[0-9a-f]+`)

func fallbackKey(k, v any) string {
	return rxAddr.ReplaceAllString(fmt.Sprintf("%v|%v", k, v), "0x")
}

func sortKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch x := any(ks).(type) {
	case []string:
		slices.Sort(x)
		return ks
	case []rune:
		slices.Sort(x)
		return ks
	case []int:
		slices.Sort(x)
		return ks
	}
	switch reflect.TypeFor[K]().Kind() {
	case reflect.String:
		slices.SortFunc(ks, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		slices.SortFunc(ks, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int())
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		slices.SortFunc(ks, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint())
		})
	default:
		type kk struct {
			k K
			s string
		}
		l := make([]kk, len(ks))
		for i, k := range ks {
			l[i] = kk{k, fallbackKey(k, m[k])}
		}
		slices.SortStableFunc(l, func(a, b kk) int { return cmp.Compare(a.s, b.s) })
		for i := range l {
			ks[i] = l[i].k
		}
	}
	return ks
}

func orderedKeys[M ~map[K]V, K comparable, V any](site uint32, m M) []K {
	mm, seed := mapOrder(site)
	ks := sortKeys(m)
	switch mm {
	case 1:
		slices.Reverse(ks)
	case 2:
		for i := len(ks) - 1; i > 0; i-- {
			j := int(next(&seed) % uint64(i+1))
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// MapIter replaces the implicit iterator of `range m`.
func MapIter[M ~map[K]V, K comparable, V any](site uint32, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range orderedKeys(site, m) {
			v, ok := m[k]
			if !ok {
				continue // deleted during the loop
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapsKeys replaces maps.Keys.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapIter(1, m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues replaces maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapIter(2, m) {
			if !yield(v) {
				return
			}
		}
	}
}

// MapsAll replaces maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return MapIter(3, m) }
