package zzsim

import (
	"reflect"
	"sort"
	"unsafe"
)

// Map iteration order and concurrent map access of the code under test.

func mapPtr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func noteKey(k interface{}) {
	if w == nil {
		return
	}
	if _, ok := w.keyIDs[k]; !ok {
		w.keyIDs[k] = len(w.keyIDs) + 1
	}
}

func plainKey(k reflect.Kind) bool {
	return (k >= reflect.Bool && k <= reflect.Float64) || k == reflect.String
}

// MapKeys returns the keys in an order chosen by the simulator.
func MapKeys[K comparable, V any](site int32, m map[K]V) []K {
	MapR(site, m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	kt := reflect.TypeOf(keys).Elem()
	if plainKey(kt.Kind()) {
		sort.Slice(keys, func(i, j int) bool {
			a, b := reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])
			switch {
			case a.CanInt():
				return a.Int() < b.Int()
			case a.CanUint():
				return a.Uint() < b.Uint()
			case a.CanFloat():
				return a.Float() < b.Float()
			case a.Kind() == reflect.Bool:
				return !a.Bool() && b.Bool()
			}
			return a.String() < b.String()
		})
	} else if w != nil {
		for _, k := range keys {
			noteKey(interface{}(k))
		}
		sort.Slice(keys, func(i, j int) bool {
			return w.keyIDs[interface{}(keys[i])] < w.keyIDs[interface{}(keys[j])]
		})
	}
	if w == nil || w.cur == nil || w.cur.killed {
		return keys
	}
	out := make([]K, len(keys))
	for i, j := range w.env.Perm(len(keys)) {
		out[i] = keys[j]
	}
	return out
}

// MapZero returns zero values of the key and element type.
func MapZero[K comparable, V any](m map[K]V) (k K, v V) { return }

// MapR is a map read: it must not overlap a write by another task.
func MapR[K comparable, V any](site int32, m map[K]V) {
	t := active()
	if t == nil || t.killed || m == nil {
		return
	}
	if o := w.mapBusy[mapPtr(m)]; o != nil && o != t {
		panic("concurrent map read and map write")
	}
}

func mapBegin(p unsafe.Pointer, site int32) bool {
	t := active()
	if t == nil || t.killed || p == nil {
		return false
	}
	if o := w.mapBusy[p]; o != nil && o != t {
		panic("concurrent map writes")
	}
	if w.mapBusy[p] == t {
		return false
	}
	w.mapBusy[p] = t
	defer func() {
		// The window must close even if the task is killed inside it.
		if t.killed {
			delete(w.mapBusy, p)
		}
	}()
	Y(site)
	return true
}

// MapRef binds a map for a store.
type MapRef[K comparable, V any] struct{ m map[K]V }

// M starts a map store.
func M[K comparable, V any](m map[K]V) MapRef[K, V] { return MapRef[K, V]{m} }

// Set is m[k] = v.
func (r MapRef[K, V]) Set(site int32, k K, v V) {
	p := mapPtr(r.m)
	b := mapBegin(p, site)
	noteKey(interface{}(k))
	r.m[k] = v
	if b {
		delete(w.mapBusy, p)
	}
}

// Delete is delete(m, k).
func (r MapRef[K, V]) Delete(site int32, k K) {
	p := mapPtr(r.m)
	b := mapBegin(p, site)
	delete(r.m, k)
	if b {
		delete(w.mapBusy, p)
	}
}

// Key converts a key to the map's key type.
func (r MapRef[K, V]) Key(k K) K { return k }

// MR is a map read in an expression.
func MR[M ~map[K]V, K comparable, V any](site int32, m M) M {
	MapR(site, map[K]V(m))
	return m
}

// MW is a map store in a compound assignment.
func MW[M ~map[K]V, K comparable, V any](site int32, m M) M {
	p := mapPtr(map[K]V(m))
	if mapBegin(p, site) {
		delete(w.mapBusy, p)
	}
	return m
}

// Ref binds a memory location for a store.
type Ref[T any] struct{ p *T }

// P starts a store.
func P[T any](p *T) Ref[T] { return Ref[T]{p} }

// Set stores v after a scheduling point: the value has been computed, the
// store has not happened yet.
func (r Ref[T]) Set(site int32, v T) {
	Y(site)
	*r.p = v
}

// Zero clears a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
