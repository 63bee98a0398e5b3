package main

import (
	"reflect"
	"strings"
)

// clone copies a value so that it shares no memory with the original
// (unexported fields are copied as they are).
func clone(v reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	out.Set(v)
	if t == tTime {
		return out
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(t.Elem())
			p.Elem().Set(clone(v.Elem()))
			out.Set(p)
		}
	case reflect.String:
		out.SetString(strings.Clone(v.String()))
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(clone(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(t, v.Len(), v.Cap())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(clone(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(t)
			for _, k := range v.MapKeys() {
				m.SetMapIndex(clone(k), clone(v.MapIndex(k)))
			}
			out.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				out.Field(i).Set(clone(v.Field(i)))
			}
		}
	}
	return out
}
