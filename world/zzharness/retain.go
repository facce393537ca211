package main

import (
	"reflect"
	"strings"
	"unsafe"

	"ustack"
)

// retained says what can be reached from roots: how many bytes and how many
// connections. It follows everything but functions, what the harness
// itself owns, what the simulator owns and pools (which the collector empties).
type retained struct {
	bytes int64
	conns int
	seen  map[retKey]bool
	by    map[string]int64
}

type retKey struct {
	p unsafe.Pointer
	t reflect.Type
}

var connType = reflect.TypeOf((*ustack.TransportConnection)(nil)).Elem()

func retain(roots ...interface{}) *retained {
	r := &retained{seen: map[retKey]bool{}, by: map[string]int64{}}
	for _, x := range append(packageGlobals(), roots...) {
		r.walk(reflect.ValueOf(x))
	}
	return r
}

func (r *retained) add(t reflect.Type, n int64) {
	r.bytes += n
	r.by[t.String()] += n
}

func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "main" || p == "reflect" || strings.HasSuffix(p, "zzharness") || strings.Contains(p, "/zzsim") && !strings.HasSuffix(p, "zzsim/sync") && !strings.HasSuffix(p, "zzsim/atomic") ||
		strings.HasSuffix(p, "zzsim/sync") && t.Name() == "Pool" || strings.HasSuffix(p, "zzsim/sync") && t.Name() == "Cond"
}

func (r *retained) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	if foreign(t) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || foreign(t.Elem()) {
			return
		}
		k := retKey{unsafe.Pointer(v.Pointer()), t}
		if r.seen[k] {
			return
		}
		r.seen[k] = true
		r.add(t.Elem(), int64(t.Elem().Size()))
		if t.Implements(connType) {
			r.conns++
		}
		r.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Array:
		if plain(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		k := retKey{unsafe.Pointer(v.Pointer()), t}
		if r.seen[k] {
			return
		}
		r.seen[k] = true
		r.add(t, int64(v.Len())*int64(t.Elem().Size()))
		if plain(t.Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := retKey{unsafe.Pointer(v.Pointer()), t}
		if r.seen[k] {
			return
		}
		r.seen[k] = true
		r.add(t, int64(v.Len())*int64(t.Key().Size()+t.Elem().Size()))
		for it := v.MapRange(); it.Next(); {
			r.walk(it.Key())
			r.walk(it.Value())
		}
	case reflect.Chan:
		if v.IsNil() {
			return
		}
		k := retKey{unsafe.Pointer(v.Pointer()), t}
		if !r.seen[k] {
			r.seen[k] = true
			r.add(t, int64(v.Len())*(8+int64(t.Elem().Size())))
		}
	case reflect.String:
		r.add(t, int64(v.Len()))
	}
}

func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Array, reflect.Slice, reflect.Map, reflect.Chan, reflect.String, reflect.UnsafePointer:
		return false
	}
	return true
}
