package vc

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Freeze copies x and everything reachable from it, so that later changes of
// the original do not show.
func Freeze(x interface{}) interface{} {
	if x == nil {
		return nil
	}
	return deepCopy(reflect.ValueOf(x), map[visit]reflect.Value{}).Interface()
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

// open gives read/write access to unexported fields.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanInterface() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func addressable(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func deepCopy(v reflect.Value, memo map[visit]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		k := visit{unsafe.Pointer(v.Pointer()), v.Type(), 0}
		if c, ok := memo[k]; ok {
			return c
		}
		n := reflect.New(v.Type().Elem())
		memo[k] = n
		n.Elem().Set(deepCopy(v.Elem(), memo))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem(), memo))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), memo))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		k := visit{unsafe.Pointer(v.Pointer()), v.Type(), 0}
		if c, ok := memo[k]; ok {
			return c
		}
		n := reflect.MakeMap(v.Type())
		memo[k] = n
		for _, q := range v.MapKeys() {
			n.SetMapIndex(q, deepCopy(v.MapIndex(q), memo))
		}
		return n
	case reflect.Struct:
		src := addressable(v)
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			open(n.Field(i)).Set(deepCopy(open(src.Field(i)), memo))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), memo))
		}
		return n
	}
	return v
}

// Check is the obligation that got and want have the same content.
func Check(got, want interface{}, label string) {
	if got == nil || want == nil {
		if got != want {
			panic(Failure{Label: label, Detail: fmt.Sprintf("got %v, want %v", Show(got), Show(want))})
		}
		return
	}
	if p := differ(reflect.ValueOf(got), reflect.ValueOf(want), "", map[[2]visit]bool{}); p != "" {
		panic(Failure{Label: label, Detail: p})
	}
}

func differ(a, b reflect.Value, path string, seen map[[2]visit]bool) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": nil"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return path + ": " + a.Type().String() + " and " + b.Type().String()
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil"
			}
			return ""
		}
		if a.Pointer() == b.Pointer() {
			return ""
		}
		k := [2]visit{{unsafe.Pointer(a.Pointer()), a.Type(), 0}, {unsafe.Pointer(b.Pointer()), b.Type(), 0}}
		if seen[k] {
			return ""
		}
		seen[k] = true
		return differ(a.Elem(), b.Elem(), path, seen)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil"
			}
			return ""
		}
		return differ(a.Elem(), b.Elem(), path, seen)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := differ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), seen); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d members", path, a.Len(), b.Len())
		}
		for _, q := range a.MapKeys() {
			y := b.MapIndex(q)
			if !y.IsValid() {
				return fmt.Sprintf("%s[%v]", path, q)
			}
			if d := differ(a.MapIndex(q), y, fmt.Sprintf("%s[%v]", path, q), seen); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		x, y := addressable(a), addressable(b)
		for i := 0; i < a.NumField(); i++ {
			if d := differ(open(x.Field(i)), open(y.Field(i)), path+"."+a.Type().Field(i).Name, seen); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64, reflect.Float32:
		f, g := a.Float(), b.Float()
		if f == g || f != f && g != g {
			return ""
		}
		return fmt.Sprintf("%s: %v and %v", path, f, g)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return ""
	}
	x, y := a.Interface(), b.Interface()
	if x != y {
		return fmt.Sprintf("%s: %#v and %#v", path, x, y)
	}
	return ""
}

// Is: the same object (or equal scalars).
func Is(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch reflect.TypeOf(a).Kind() {
	case reflect.Slice, reflect.Map:
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	case reflect.Float64:
		return Same(a, b)
	}
	r, ok := eq(a, b)
	return ok && r
}
