package vc

import (
	"reflect"
	"unsafe"
)

// Stir adds an entry to every collection reachable from a value, and keeps
// nothing: state shared behind the back of the elements shows in later runs.
func Stir(v reflect.Value) { stir(v, map[unsafe.Pointer]bool{}, 0) }

func stir(v reflect.Value, seen map[unsafe.Pointer]bool, d int) {
	if d > 6 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			stir(v.Elem(), seen, d)
		}
	case reflect.Ptr:
		if v.IsNil() || seen[unsafe.Pointer(v.Pointer())] {
			return
		}
		seen[unsafe.Pointer(v.Pointer())] = true
		v = reflect.NewAt(v.Type().Elem(), unsafe.Pointer(v.Pointer()))
		if put := v.MethodByName("Put"); put.IsValid() && put.Type().NumIn() == 2 {
			func() {
				defer func() { recover() }()
				k := reflect.New(put.Type().In(0)).Elem()
				if k.Kind() == reflect.String {
					k.SetString("stirred")
				} else {
					k.Set(reflect.ValueOf("stirred"))
				}
				put.Call([]reflect.Value{k, reflect.Zero(put.Type().In(1))})
			}()
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			stir(v.Elem(), seen, d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				stir(f, seen, d+1)
			}
		}
	}
}
