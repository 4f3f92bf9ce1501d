package engine

import (
	"reflect"
	"unsafe"
)

// DeepCopy copies a value with everything it points to, unexported fields
// included. Functions and channels are shared.
func DeepCopy(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	o := reflect.New(v.Type()).Elem()
	o.Set(v)
	(&copier{seen: map[unsafe.Pointer]reflect.Value{}}).deep(o)
	return o.Interface()
}

type copier struct {
	seen map[unsafe.Pointer]reflect.Value
	mem  []span // structures copied
}

type span struct {
	old, size uintptr
	new       unsafe.Pointer
}

// moved gives the place in a copy that corresponds to p, if p lies inside a
// structure copied.
func (c *copier) moved(p unsafe.Pointer) unsafe.Pointer {
	for _, m := range c.mem {
		if d := uintptr(p) - m.old; uintptr(p) >= m.old && d < m.size {
			return unsafe.Add(m.new, d)
		}
	}
	return nil
}

// deep replaces what the addressable value v refers to by copies.
func (c *copier) deep(v reflect.Value) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if !hasPtr(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		p := v.UnsafePointer()
		if n, ok := c.seen[p]; ok && n.Type() == v.Type() {
			v.Set(n)
			return
		}
		if q := c.moved(p); q != nil {
			v.Set(reflect.NewAt(v.Type().Elem(), q))
			return
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem())
		c.seen[p] = n
		c.mem = append(c.mem, span{uintptr(p), v.Type().Elem().Size(), n.UnsafePointer()})
		v.Set(n)
		c.deep(n.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		n := reflect.New(v.Elem().Type()).Elem()
		n.Set(v.Elem())
		c.deep(n)
		v.Set(n)
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if q := c.moved(v.UnsafePointer()); q != nil && v.Cap() > 0 {
			a := reflect.NewAt(reflect.ArrayOf(v.Cap(), v.Type().Elem()), q).Elem()
			v.Set(a.Slice(0, v.Len()).Convert(v.Type()))
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		v.Set(n)
		for i := 0; i < n.Len(); i++ {
			c.deep(n.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			c.deep(e)
			n.SetMapIndex(k, e)
		}
		v.Set(n)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.deep(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.deep(v.Field(i))
		}
	}
}
