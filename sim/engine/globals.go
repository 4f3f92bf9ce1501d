package engine

import (
	"reflect"
	"strings"
	"unsafe"

	"github.com/henrydcase/nobs/verifrt"
)

// Package-level variables of the library are put back to their state at
// process start before every run, so that a run depends on its plan alone.

type globalSnap struct {
	undo []func()
	seen map[unsafe.Pointer]bool
}

var globals *globalSnap

// RestoreGlobals puts the library's package-level variables back.
func RestoreGlobals() {
	if globals == nil {
		globals = &globalSnap{seen: map[unsafe.Pointer]bool{}}
		for _, g := range verifrt.Globals {
			globals.value(reflect.ValueOf(g.Ptr).Elem(), 0)
		}
		return
	}
	for _, f := range globals.undo {
		f()
	}
}

func (g *globalSnap) value(v reflect.Value, depth int) {
	if v.Type().Size() == 0 {
		return
	}
	w := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	old := reflect.New(v.Type()).Elem()
	old.Set(w)
	g.undo = append(g.undo, func() { w.Set(old) })
	g.walk(w, depth)
}

func ours(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.Contains(p, "henrydcase/nobs") || strings.HasPrefix(p, "mkem") || p == "math/big"
}

func hasPtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Len() > 0 && hasPtr(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPtr(t.Field(i).Type) {
				return true
			}
		}
		return false
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return true
	}
	return false
}

func (g *globalSnap) walk(v reflect.Value, depth int) {
	if depth > 12 || !hasPtr(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type().Size() > 0 {
				g.walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.walk(v.Index(i), depth+1)
		}
	case reflect.Ptr:
		g.pointee(v, depth)
	case reflect.Interface:
		if e := v.Elem(); e.IsValid() && e.Kind() == reflect.Ptr {
			g.pointee(e, depth)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		p := unsafe.Pointer(v.Pointer())
		if g.seen[p] {
			return
		}
		g.seen[p] = true
		old := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(old, v)
		cur := reflect.New(v.Type()).Elem()
		cur.Set(v)
		g.undo = append(g.undo, func() { reflect.Copy(cur, old) })
		if hasPtr(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				g.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		cur := reflect.New(v.Type()).Elem()
		cur.Set(v)
		var ks, vs []reflect.Value
		for _, k := range v.MapKeys() {
			ks = append(ks, k)
			e := v.MapIndex(k)
			vs = append(vs, e)
			if e.Kind() == reflect.Ptr {
				g.pointee(e, depth)
			}
		}
		g.undo = append(g.undo, func() {
			for _, k := range cur.MapKeys() {
				cur.SetMapIndex(k, reflect.Value{})
			}
			for i, k := range ks {
				cur.SetMapIndex(k, vs[i])
			}
		})
	}
}

func (g *globalSnap) pointee(v reflect.Value, depth int) {
	if v.IsNil() || !ours(v.Type().Elem()) {
		return
	}
	p := unsafe.Pointer(v.Pointer())
	if g.seen[p] {
		return
	}
	g.seen[p] = true
	g.value(reflect.NewAt(v.Type().Elem(), p).Elem(), depth+1)
}
