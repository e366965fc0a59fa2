package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// Parsing any tree into any state of an element ends without a panic.

func VcC11_AnyType_parse(t raml.AnyType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_ArrayType_parse(t raml.ArrayType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_BoolType_parse(t raml.BoolType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_CustomType_parse(t raml.CustomType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_DateOnlyType_parse(t raml.DateOnlyType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_DatetimeOnlyType_parse(t raml.DatetimeOnlyType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_DatetimeType_parse(t raml.DatetimeType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_FileType_parse(t raml.FileType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_IntegerType_parse(t raml.IntegerType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_NumberType_parse(t raml.NumberType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_ObjectType_parse(t raml.ObjectType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_StringType_parse(t raml.StringType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_TimeOnlyType_parse(t raml.TimeOnlyType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_UnionType_parse(t raml.UnionType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_IncludeType_parse(t raml.IncludeType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_NilType_parse(t raml.NilType, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_AnyExample_parse(t raml.AnyExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_ArrayExample_parse(t raml.ArrayExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_BoolExample_parse(t raml.BoolExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_CustomExample_parse(t raml.CustomExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_DateOnlyExample_parse(t raml.DateOnlyExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_DatetimeOnlyExample_parse(t raml.DatetimeOnlyExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_DatetimeExample_parse(t raml.DatetimeExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_FileExample_parse(t raml.FileExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_IntegerExample_parse(t raml.IntegerExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_NumberExample_parse(t raml.NumberExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_ObjectExample_parse(t raml.ObjectExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_StringExample_parse(t raml.StringExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_TimeOnlyExample_parse(t raml.TimeOnlyExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_UnionExample_parse(t raml.UnionExample, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_XML_parse(t raml.XML, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_Documentation_parse(t raml.Documentation, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_APISpec_parse(t raml.APISpec, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(yaml.Unmarshaler).UnmarshalYAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_Library_parse(t raml.Library, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return t.(yaml.Unmarshaler).UnmarshalYAML(y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_AnyExampleMap_parse(m raml.AnyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalAnyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_ArrayExampleMap_parse(m raml.ArrayExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalArrayExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_BoolExampleMap_parse(m raml.BoolExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalBoolExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_CustomExampleMap_parse(m raml.CustomExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalCustomExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_DateOnlyExampleMap_parse(m raml.DateOnlyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalDateOnlyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_DatetimeOnlyExampleMap_parse(m raml.DatetimeOnlyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalDatetimeOnlyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_DatetimeExampleMap_parse(m raml.DatetimeExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalDatetimeExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_FileExampleMap_parse(m raml.FileExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalFileExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_IntegerExampleMap_parse(m raml.IntegerExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalIntegerExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_NumberExampleMap_parse(m raml.NumberExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalNumberExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_ObjectExampleMap_parse(m raml.ObjectExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalObjectExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_StringExampleMap_parse(m raml.StringExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalStringExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_TimeOnlyExampleMap_parse(m raml.TimeOnlyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalTimeOnlyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_UnionExampleMap_parse(m raml.UnionExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalUnionExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_UntypedMap_parse(m raml.UntypedMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalUntypedMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_StringMap_parse(m raml.StringMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalStringMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_DataTypeMap_parse(m raml.DataTypeMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalDataTypeMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_PropertyMap_parse(m raml.PropertyMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalPropertyMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_FacetMap_parse(m raml.FacetMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalFacetMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_fill_AnnotationMap_parse(m raml.AnnotationMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return UnmarshalAnnotationMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_TypeSortingHat(y *yaml.Node) {
	vc.Assume(y != nil)
	vc.Real()
	d, err := TypeSortingHat(y)
	vc.Assert((err == nil) == (d != nil), "a declaration or an error")
}

func VcC11_PropertySortingHat(y *yaml.Node) {
	vc.Assume(y != nil)
	d, err := PropertySortingHat(y)
	vc.Assert((err == nil) == (d != nil), "a declaration or an error")
}
