package main

import (
	"reflect"
	"sort"
	"unsafe"
)

func sortStrings(s []string) { sort.Strings(s) }

// an equal value that shares no memory with v, as far as its exported parts go
func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	copyInto(n, v, map[unsafe.Pointer]reflect.Value{})
	return n
}

func copyInto(dst, src reflect.Value, seen map[unsafe.Pointer]reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		if p, ok := seen[src.UnsafePointer()]; ok && p.Type() == src.Type() {
			dst.Set(p)
			return
		}
		p := reflect.New(src.Type().Elem())
		if p.Type() != src.Type() {
			p = p.Convert(src.Type())
		}
		if src.Type().Elem().Size() > 0 {
			seen[src.UnsafePointer()] = p
		}
		copyInto(p.Elem(), src.Elem(), seen)
		dst.Set(p)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		x := reflect.New(src.Elem().Type()).Elem()
		copyInto(x, src.Elem(), seen)
		dst.Set(x)
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		s := reflect.MakeSlice(src.Type(), src.Len(), src.Cap())
		for i := range src.Len() {
			copyInto(s.Index(i), src.Index(i), seen)
		}
		dst.Set(s)
	case reflect.Array:
		for i := range src.Len() {
			copyInto(dst.Index(i), src.Index(i), seen)
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMap(src.Type())
		iter := src.MapRange()
		for iter.Next() {
			e := reflect.New(src.Type().Elem()).Elem()
			copyInto(e, iter.Value(), seen)
			m.SetMapIndex(iter.Key(), e)
		}
		dst.Set(m)
	case reflect.Struct:
		if !src.CanAddr() { // for unexported fields
			a := reflect.New(src.Type()).Elem()
			a.Set(src)
			src = a
		}
		for i := range src.NumField() {
			d, s := dst.Field(i), src.Field(i)
			if !d.CanSet() {
				d = reflect.NewAt(d.Type(), unsafe.Pointer(d.UnsafeAddr())).Elem()
				s = reflect.NewAt(s.Type(), unsafe.Pointer(s.UnsafeAddr())).Elem()
			}
			copyInto(d, s, seen)
		}
	default:
		dst.Set(src)
	}
}

// Does the text have an integer key that, taken as the index of a slice, makes
// the library allocate a lot?  Such calls are left to C23 and C07, which know
// the destination.
func bigKey(s string) bool {
	p, big := 0, false
	num := func(stop byte) (n uint64, ok bool) {
		from := p
		for p < len(s) && s[p] >= '0' && s[p] <= '9' {
			if n < 1e18 {
				n = n*10 + uint64(s[p]-'0')
			}
			p++
		}
		ok = p > from && p < len(s) && s[p] == stop
		p++
		return
	}
	str := func() bool {
		n, ok := num(':')
		if !ok || n > uint64(len(s)) || p+int(n)+2 > len(s) {
			return false
		}
		p += int(n) + 2
		return true
	}
	var value func(key bool) bool
	value = func(key bool) bool {
		if p+2 > len(s) {
			return false
		}
		k := s[p]
		p += 2
		switch k {
		case 'N':
			return true
		case 'b', 'i', 'd':
			from := p
			if k == 'i' && key {
				n, _ := num(';')
				big = big || (n > 50000 && n < 1e18)
				p = from
			}
			for p < len(s) && s[p] != ';' {
				p++
			}
			p++
			return p <= len(s)
		case 's':
			if !str() {
				return false
			}
			p++
			return true
		case 'O':
			if !str() {
				return false
			}
			p++
			fallthrough
		case 'a':
			if _, ok := num(':'); !ok {
				return false
			}
			p++
			for p < len(s) && s[p] != '}' {
				if !value(true) || !value(false) {
					return false
				}
			}
			p++
			return true
		}
		return false
	}
	value(false)
	return big
}

// does a destination of this type have a slice in it (or may it get one)
func hasSlice(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice:
		return true
	case reflect.Pointer, reflect.Array, reflect.Map:
		return hasSlice(t.Elem(), seen)
	case reflect.Struct:
		for i := range t.NumField() {
			if hasSlice(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}
