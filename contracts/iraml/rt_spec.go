package raml

// Written by tools/mkparse.py.

import (
	"gopkg.in/yaml.v3"
	"reflect"
	"strconv"
	"strings"
	"unsafe"
)

// vcAt: the value under a key of a mapping.
func vcAt(n *yaml.Node, key string) *yaml.Node {
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == key {
			return n.Content[i+1]
		}
	}
	return nil
}

const vcMaxInt = 1<<63 - 1

// vcOnly (concrete runs): resets every property of t that is not listed to its
// value in the fresh element.
func vcOnly(t, fresh interface{}, keep ...string) {
	v, f := reflect.ValueOf(t), reflect.ValueOf(fresh)
	kept := map[string]bool{}
	for _, k := range keep {
		kept[k] = true
	}
	for i := 0; i < v.NumMethod(); i++ {
		n := v.Type().Method(i).Name
		if !strings.HasPrefix(n, "Set") || kept[n[3:]] || n == "SetType" && kept["Type"] {
			continue
		}
		if u := v.MethodByName("Unset" + n[3:]); u.IsValid() && u.Type().NumIn() == 0 {
			u.Call(nil)
		} else if g := f.MethodByName(n[3:]); g.IsValid() && g.Type().NumIn() == 0 && v.Method(i).Type().NumIn() == 1 {
			if r := g.Call(nil); r[0].Type().AssignableTo(v.Method(i).Type().In(0)) {
				v.Method(i).Call(r)
			}
		}
	}
	for _, n := range []string{"extra", "annotations", "resources", "enum", "def", "fileTypes", "documentation", "protocols", "mediaType", "securedBy"} {
		x, y := vcField(v, n), vcField(f, n)
		if n == "def" && x.IsValid() && x.Kind() != reflect.Slice {
			continue
		}
		if x.IsValid() && y.IsValid() {
			x.Set(y)
		}
	}
}

func vcField(v reflect.Value, n string) reflect.Value {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return reflect.Value{}
	}
	x := v.FieldByName(n)
	if x.IsValid() {
		x = reflect.NewAt(x.Type(), unsafe.Pointer(x.UnsafeAddr())).Elem()
	}
	return x
}

// vcOtherType: the text names no built-in type.
func vcOtherType(s string) bool {
	switch s {
	case "any", "array", "boolean", "date-only", "datetime", "datetime-only", "file", "integer", "nil", "number", "object", "string", "time-only":
		return false
	}
	return strings.IndexByte(s, '|') < 0 && !strings.HasPrefix(s, "!include ")
}

// vcTenDigits: the real is determined by ten significant digits, which is
// what is written.
func vcTenDigits(f float64) bool {
	g, err := strconv.ParseFloat(strconv.FormatFloat(f, 'g', 10, 64), 64)
	return err == nil && g == f
}
