package vc

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
)

// Rand draws the inputs of a replay.
type Rand struct {
	*rand.Rand
	Gens  map[reflect.Type]func(*Rand) interface{}
	depth int
	big   bool
}

// Count draws the number of parts of an input: less than n, except that one
// part of a few inputs is large, preferably around a literal of the source.
func (r *Rand) Count(n int) int {
	if r.big || r.Intn(150) > 0 {
		return r.Intn(n)
	}
	r.big = true
	if len(DictInts) > 0 && r.Intn(2) == 0 {
		d := DictInts
		if len(NewInts) > 0 && r.Intn(2) == 0 {
			d = NewInts
		}
		if x := d[r.Intn(len(d))]; x > 4 && x <= 2000 {
			return int(x) + r.Intn(4) - 1
		}
	}
	return []int{12, 20, 40, 70, 130, 300}[r.Intn(6)]
}

func NewRand(seed int64) *Rand {
	return &Rand{Rand: rand.New(rand.NewSource(seed)), Gens: map[reflect.Type]func(*Rand) interface{}{}}
}

var Words = []string{"a", "b", "c", "", "type", "x y", "(n)", "1", "true", "/r", "é", "a|b", "|", "null", "~", "#c"}
var Ints = []int64{0, 1, 2, 3, 4, -1, 5, 7, 100, 2147483647, -2147483648, 3000000000, 1 << 40, 9223372036854775807}
var AnyType = reflect.TypeOf((*interface{})(nil)).Elem()

// Dict and DictInts: the literals of the source, drawn now and then.
var Dict []string
var DictInts []int64
var DictFloats []float64

// NewWords, NewInts, NewFloats: those among them that the verified source did
// not have.
var NewWords []string
var NewInts []int64
var NewFloats []float64

// Word draws a text: mostly one of base, now and then a literal of the source
// or a text made of such parts.
func (r *Rand) Word(base []string) string {
	if len(NewWords) > 0 && r.Intn(5) == 0 {
		w := NewWords[r.Intn(len(NewWords))]
		switch r.Intn(4) {
		case 0:
			return r.Word(base) + w
		case 1:
			return w + r.Word(base)
		}
		return w
	}
	switch k := r.Intn(20); {
	case k == 0 || k == 1:
		if len(Dict) > 0 {
			return Dict[r.Intn(len(Dict))]
		}
	case k == 2:
		w := r.Word(base)
		if n := r.Count(1); n > 0 && len(w) < 40 {
			return strings.Repeat(w, n)
		}
		return w + r.Word(base)
	case k == 3:
		w := r.Word(base)
		switch r.Intn(5) {
		case 0:
			return strings.ToUpper(w)
		case 1:
			return strings.Title(w)
		case 2:
			return " " + w
		case 3:
			return w + "\n"
		case 4:
			if len(w) > 0 {
				return w[:len(w)-1]
			}
		}
		return w
	}
	return base[r.Intn(len(base))]
}

func (r *Rand) integer() int64 {
	if len(NewInts) > 0 && r.Intn(3) == 0 {
		return NewInts[r.Intn(len(NewInts))] + int64(r.Intn(3)) - 1
	}
	if len(DictInts) > 0 && r.Intn(3) == 0 {
		return DictInts[r.Intn(len(DictInts))] + int64(r.Intn(3)) - 1
	}
	return Ints[r.Intn(len(Ints))]
}

func (r *Rand) real() float64 {
	switch k := r.Intn(10); {
	case k == 0 && len(NewFloats) > 0:
		return NewFloats[r.Intn(len(NewFloats))]
	case k == 1 && len(DictFloats) > 0:
		return DictFloats[r.Intn(len(DictFloats))]
	case k == 2:
		return float64(r.integer())
	}
	return []float64{0, 1, -1, 1.5, 2.25, 1e6, 100}[r.Intn(7)]
}

// Value draws a value of type t.
func (r *Rand) Value(t reflect.Type) reflect.Value {
	if g, ok := r.Gens[t]; ok {
		x := g(r)
		if x == nil {
			return reflect.Zero(t)
		}
		v := reflect.ValueOf(x)
		if v.Type() != t && t.Kind() != reflect.Interface {
			v = v.Convert(t)
		}
		return v
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if r.Intn(4) > 0 {
			v.SetInt(int64(r.Intn(6)))
		} else {
			v.SetInt(r.integer())
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		if r.Intn(4) > 0 {
			v.SetUint(uint64(r.Intn(6)))
		} else if x := r.integer(); x >= 0 {
			v.SetUint(uint64(x))
		}
	case reflect.Float64:
		v.SetFloat(r.real())
	case reflect.String:
		v.SetString(r.Word(Words))
	case reflect.Interface:
		if t == AnyType {
			switch r.Intn(8) {
			case 7:
				v.Set(reflect.ValueOf(float64(r.Intn(3))))
			case 0, 1, 2:
				v.Set(reflect.ValueOf(r.Word(Words)))
			case 3:
				v.Set(reflect.ValueOf(r.Intn(4)))
			case 4:
				v.Set(reflect.ValueOf(r.Intn(2) == 0))
			case 5:
				v.Set(reflect.ValueOf(int64(r.Intn(4))))
			}
		}
	case reflect.Ptr:
		if r.Intn(3) > 0 {
			p := reflect.New(t.Elem())
			p.Elem().Set(r.Value(t.Elem()))
			v.Set(p)
		}
	case reflect.Slice:
		n := r.Count(4)
		if n > 3 {
			r.depth += 2
			defer func() { r.depth -= 2 }()
		}
		v.Set(reflect.MakeSlice(t, n, n+r.Intn(2)))
		for i := 0; i < n; i++ {
			if i > 0 && r.Intn(5) == 0 {
				v.Index(i).Set(v.Index(r.Intn(i)))
				continue
			}
			v.Index(i).Set(r.Value(t.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(r.Value(t.Field(i).Type))
			}
		}
	}
	return v
}

// Fill puts some entries into a collection.
func (r *Rand) Fill(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	put := v.MethodByName("Put")
	n := r.Count(6)
	if r.depth == 0 && n > 2 {
		n += r.Intn(4)
	}
	if r.depth > 1 {
		n = 0
	}
	r.depth++
	defer func() { r.depth-- }()
	var val reflect.Value
	for i := 0; i < n; i++ {
		if i >= 9 {
			// many entries under keys of their own
			k := reflect.ValueOf(fmt.Sprint("k", i))
			if i == 9 || put.Type().In(1).Kind() == reflect.String {
				val = r.arg(put.Type().In(1))
			}
			put.Call([]reflect.Value{k, val})
			continue
		}
		put.Call([]reflect.Value{r.arg(put.Type().In(0)), r.arg(put.Type().In(1))})
	}
	if r.Intn(5) == 0 {
		del := v.MethodByName("Delete")
		del.Call([]reflect.Value{r.arg(del.Type().In(0))})
	}
	if r.Intn(3) == 0 {
		v.MethodByName("SerializeOrdered").Call([]reflect.Value{reflect.ValueOf(false)})
	}
	return m
}

func (r *Rand) arg(t reflect.Type) reflect.Value { return r.Value(t) }

// Showers print inputs of particular types.
var Showers = map[reflect.Type]func(interface{}) string{}

// Show prints an input.
func Show(x interface{}) string {
	t := show(x)
	if len(t) > 3000 {
		t = t[:2000] + " ... (cut; the case number draws the whole input)"
	}
	return t
}

func show(x interface{}) string {
	v := reflect.ValueOf(x)
	if f, ok := Showers[reflect.TypeOf(x)]; ok {
		return f(x)
	}
	if v.IsValid() && v.Kind() == reflect.Ptr && !v.IsNil() && strings.HasSuffix(v.Elem().Type().Name(), "Map") {
		s := read(x)
		var b []string
		for i := range s.keys {
			b = append(b, fmt.Sprintf("%#v: %#v", s.keys[i], s.vals[i]))
		}
		return fmt.Sprintf("%s{%s}", v.Elem().Type().Name(), strings.Join(b, ", "))
	}
	if st, ok := x.(interface{ VcShow() string }); ok {
		return st.VcShow()
	}
	t := fmt.Sprintf("%#v", x)
	if v.IsValid() && v.Kind() == reflect.Ptr && !v.IsNil() {
		t = fmt.Sprintf("&%#v", v.Elem().Interface())
	}
	if len(t) > 600 {
		t = t[:600] + "..."
	}
	return t
}

// Relate makes some of the arguments refer to each other: keys that are in the
// collections among them, indices within their length.
func (r *Rand) Relate(in []reflect.Value) {
	var keys []reflect.Value
	var lens []int
	add := func(m reflect.Value) {
		defer func() { recover() }()
		at, ln := m.MethodByName("At"), m.MethodByName("Len")
		if !at.IsValid() || !ln.IsValid() {
			return
		}
		n := int(ln.Call(nil)[0].Int())
		lens = append(lens, n)
		for i := 0; i < n && i < 40; i++ {
			keys = append(keys, at.Call([]reflect.Value{reflect.ValueOf(i)})[0].FieldByName("Key"))
		}
	}
	relevant := false
	for _, a := range in {
		k := a.Kind()
		relevant = relevant || k == reflect.String || k == reflect.Int || a.Type() == AnyType
	}
	if !relevant {
		return
	}
	for _, a := range in {
		if k := a.Kind(); k != reflect.Interface && k != reflect.Ptr || a.IsNil() || a.Type() == AnyType {
			continue
		}
		add(a)
		t := a.Type()
		for i := 0; i < t.NumMethod(); i++ {
			m := a.Method(i)
			if m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
				continue
			}
			if o := m.Type().Out(0); o.Kind() == reflect.Interface {
				if _, ok := o.MethodByName("At"); ok {
					if strings.HasPrefix(t.Method(i).Name, "Unset") {
						continue
					}
					func() {
						defer func() { recover() }()
						add(m.Call(nil)[0])
					}()
				}
			}
		}
	}
	for i, a := range in {
		if r.Intn(2) == 0 {
			continue
		}
		switch {
		case a.Kind() == reflect.Int && len(lens) > 0:
			in[i] = reflect.ValueOf(r.Intn(lens[r.Intn(len(lens))] + 1)).Convert(a.Type())
		case (a.Kind() == reflect.String || a.Type() == AnyType) && len(keys) > 0:
			k := keys[r.Intn(len(keys))]
			if k.Kind() == reflect.Interface && a.Type() != AnyType {
				k = k.Elem()
			}
			if k.IsValid() && k.Type().ConvertibleTo(a.Type()) && (k.Kind() == a.Kind() || a.Type() == AnyType) {
				v := reflect.New(a.Type()).Elem()
				v.Set(k.Convert(a.Type()))
				in[i] = v
			}
		}
	}
}
