package raml

import (
	"reflect"
	"unsafe"

	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

var vcKindType = reflect.TypeOf(NewStringType().Kind())
var vcDepth int

// vcElem draws an arbitrary state of an element: every property set through
// memory, the collections filled through their own operations.
func vcElem(r *vc.Rand, x interface{}) interface{} {
	vcDepth++
	defer func() { vcDepth-- }()
	vcHavoc(r, reflect.ValueOf(x).Elem())
	if r.Intn(4) == 0 {
		vcAlias(reflect.ValueOf(x).Elem())
	}
	return x
}

// vcAlias makes the lists of one type that an element holds the same list.
func vcAlias(v reflect.Value) {
	first := map[reflect.Type]reflect.Value{}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if f.Kind() != reflect.Slice || f.Len() == 0 {
			continue
		}
		if g, ok := first[f.Type()]; ok {
			f.Set(g)
		} else {
			first[f.Type()] = f.Slice3(0, f.Len(), f.Len())
		}
	}
}

func vcHavoc(r *vc.Rand, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch {
		case v.Type().Field(i).Name == "self" || f.Type() == vcKindType:
		case f.Kind() == reflect.Struct:
			vcHavoc(r, f)
		case f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct && f.Type() != reflect.TypeOf((*yaml.Node)(nil)):
			if !f.IsNil() {
				vcHavoc(r, f.Elem())
			}
		case f.Kind() == reflect.Interface && f.Type().NumMethod() > 0 && !f.IsNil() && f.MethodByName("Put").IsValid():
			if vcDepth < 3 && r.Intn(3) > 0 {
				r.Fill(f.Interface())
			}
		case f.Kind() == reflect.Interface && f.Type().NumMethod() > 0 && vcDepth > 2:
		default:
			f.Set(r.Value(f.Type()))
		}
	}
}

func vcMaybe(r *vc.Rand, x interface{}) interface{} {
	if vcDepth > 0 && r.Intn(4) == 0 || vcDepth > 2 {
		return nil
	}
	return vcElem(r, x)
}

func vcDrawType(r *vc.Rand) interface{} {
	switch r.Intn(16) {
	case 0:
		return vcElem(r, NewAnyType())
	case 1:
		return vcElem(r, NewArrayType())
	case 2:
		return vcElem(r, NewBoolType())
	case 3:
		return vcElem(r, NewCustomType())
	case 4:
		return vcElem(r, NewDateOnlyType())
	case 5:
		return vcElem(r, NewDatetimeOnlyType())
	case 6:
		return vcElem(r, NewDatetimeType())
	case 7:
		return vcElem(r, NewFileType())
	case 8:
		return vcElem(r, NewIntegerType())
	case 9:
		return vcElem(r, NewNumberType())
	case 10:
		return vcElem(r, NewObjectType())
	case 11:
		return vcElem(r, NewStringType())
	case 12:
		return vcElem(r, NewTimeOnlyType())
	case 13:
		return vcElem(r, NewUnionType())
	case 14:
		return vcElem(r, NewIncludeType())
	}
	return vcElem(r, NewNilType())
}

func vcElemGens(m map[reflect.Type]func(*vc.Rand) interface{}) {
	m[reflect.TypeOf((*raml.AnyType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewAnyType()) }
	m[reflect.TypeOf((*raml.AnyExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewAnyExample()) }
	m[reflect.TypeOf((*raml.ArrayType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewArrayType()) }
	m[reflect.TypeOf((*raml.ArrayExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewArrayExample()) }
	m[reflect.TypeOf((*raml.BoolType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewBoolType()) }
	m[reflect.TypeOf((*raml.BoolExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewBoolExample()) }
	m[reflect.TypeOf((*raml.CustomType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewCustomType()) }
	m[reflect.TypeOf((*raml.CustomExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewCustomExample()) }
	m[reflect.TypeOf((*raml.DateOnlyType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewDateOnlyType()) }
	m[reflect.TypeOf((*raml.DateOnlyExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewDateOnlyExample()) }
	m[reflect.TypeOf((*raml.DatetimeOnlyType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewDatetimeOnlyType()) }
	m[reflect.TypeOf((*raml.DatetimeOnlyExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewDatetimeOnlyExample()) }
	m[reflect.TypeOf((*raml.DatetimeType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewDatetimeType()) }
	m[reflect.TypeOf((*raml.DatetimeExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewDatetimeExample()) }
	m[reflect.TypeOf((*raml.FileType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewFileType()) }
	m[reflect.TypeOf((*raml.FileExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewFileExample()) }
	m[reflect.TypeOf((*raml.IntegerType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewIntegerType()) }
	m[reflect.TypeOf((*raml.IntegerExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewIntegerExample()) }
	m[reflect.TypeOf((*raml.NumberType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewNumberType()) }
	m[reflect.TypeOf((*raml.NumberExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewNumberExample()) }
	m[reflect.TypeOf((*raml.ObjectType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewObjectType()) }
	m[reflect.TypeOf((*raml.ObjectExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewObjectExample()) }
	m[reflect.TypeOf((*raml.StringType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewStringType()) }
	m[reflect.TypeOf((*raml.StringExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewStringExample()) }
	m[reflect.TypeOf((*raml.TimeOnlyType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewTimeOnlyType()) }
	m[reflect.TypeOf((*raml.TimeOnlyExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewTimeOnlyExample()) }
	m[reflect.TypeOf((*raml.UnionType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewUnionType()) }
	m[reflect.TypeOf((*raml.UnionExample)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewUnionExample()) }
	m[reflect.TypeOf((*raml.IncludeType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewIncludeType()) }
	m[reflect.TypeOf((*raml.NilType)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewNilType()) }
	m[reflect.TypeOf((*raml.XML)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcMaybe(r, NewXML()) }
	m[reflect.TypeOf((*raml.Documentation)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewDocumentation()) }
	m[reflect.TypeOf((*raml.APISpec)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewApiSpec()) }
	m[reflect.TypeOf((*raml.Library)(nil)).Elem()] = func(r *vc.Rand) interface{} { return vcElem(r, NewLibrary()) }
	m[reflect.TypeOf((*raml.DataType)(nil)).Elem()] = vcDrawType
	m[reflect.TypeOf((*raml.Property)(nil)).Elem()] = vcDrawType
}
