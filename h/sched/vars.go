package sched

import (
	"reflect"
	"unsafe"
)

// The package-level variables of the library, registered by generated code, so
// that every execution can start from the state of a fresh process.

type savedVar struct {
	ptr  reflect.Value // *T
	val  reflect.Value // shallow copy of T
	deep []func()
	a, b []byte
}

var vars []reflect.Value
var saved []savedVar

// Var registers package-level variables by address.
func Var(ptrs ...interface{}) {
	for _, p := range ptrs {
		vars = append(vars, reflect.ValueOf(p))
	}
}

// NumVars is the number of registered variables.
func NumVars() int { return len(vars) }

// SaveVars remembers the present state of all registered variables.
func SaveVars() {
	saved = nil
	seen := map[unsafe.Pointer]bool{}
	for _, p := range vars {
		s := savedVar{ptr: p, val: reflect.New(p.Elem().Type()).Elem()}
		copyRaw(s.val, p.Elem())
		s.a, s.b = rawBytes(p.Elem()), rawBytes(s.val)
		deep(p.Elem(), &s.deep, seen, 0)
		saved = append(saved, s)
	}
}

func rawBytes(v reflect.Value) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), v.Type().Size())
}

func copyRaw(dst, src reflect.Value) {
	dst.Set(reflect.NewAt(src.Type(), unsafe.Pointer(src.UnsafeAddr())).Elem())
}

// deep remembers what is reachable through maps, slices and pointers.
func deep(v reflect.Value, out *[]func(), seen map[unsafe.Pointer]bool, depth int) {
	if depth > 6 {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			deep(f, out, seen, depth+1)
		}
	case reflect.Array:
		if simple(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), out, seen, depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		e := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Elem()
		if pp := e.Type().PkgPath(); e.Kind() == reflect.Func || pp == "time" || pp == "errors" || pp == "fmt" {
			return
		}
		c := reflect.New(e.Type()).Elem()
		copyRaw(c, e)
		*out = append(*out, func() { copyRaw(e, c) })
		deep(e, out, seen, depth+1)
	case reflect.Slice:
		if v.Len() == 0 || !v.CanInterface() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		s := v.Slice(0, v.Len())
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, s)
		*out = append(*out, func() { reflect.Copy(s, c) })
		if !simple(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				deep(v.Index(i), out, seen, depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() || !v.CanInterface() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		m := v
		n := m.Len()
		plain := simple(m.Type().Elem())
		var ks, vs []reflect.Value
		for it := m.MapRange(); it.Next(); {
			ks = append(ks, it.Key())
			vs = append(vs, it.Value())
			if !simple(m.Type().Elem()) {
				deep(it.Value(), out, seen, depth+1)
			}
		}
		*out = append(*out, func() {
			if m.Len() == n && plain {
				return
			}
			m.Clear()
			for i := range ks {
				m.SetMapIndex(ks[i], vs[i])
			}
		})
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			deep(v.Elem(), out, seen, depth+1)
		}
	}
}

func simple(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Struct, reflect.Array:
		return false
	}
	return true
}

// RestoreVars puts the variables back as they were when saved.
func RestoreVars() {
	for _, s := range saved {
		if string(s.a) != string(s.b) {
			copyRaw(s.ptr.Elem(), s.val)
		}
		for _, f := range s.deep {
			f()
		}
	}
}
