package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// Filling a collection from a mapping: every key is text and every value is
// parsed as an item of that collection. At call sites the library's functions,
// proved to do just this, and these are the same function of the node.

// VcFillAnyExampleMap adds the entries of a mapping, in document order.
func VcFillAnyExampleMap(m raml.AnyExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemAnyExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemAnyExampleMap(m raml.AnyExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewAnyExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillArrayExampleMap adds the entries of a mapping, in document order.
func VcFillArrayExampleMap(m raml.ArrayExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemArrayExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemArrayExampleMap(m raml.ArrayExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewArrayExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillBoolExampleMap adds the entries of a mapping, in document order.
func VcFillBoolExampleMap(m raml.BoolExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemBoolExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemBoolExampleMap(m raml.BoolExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewBoolExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillCustomExampleMap adds the entries of a mapping, in document order.
func VcFillCustomExampleMap(m raml.CustomExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemCustomExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemCustomExampleMap(m raml.CustomExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewCustomExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillDateOnlyExampleMap adds the entries of a mapping, in document order.
func VcFillDateOnlyExampleMap(m raml.DateOnlyExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemDateOnlyExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemDateOnlyExampleMap(m raml.DateOnlyExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewDateOnlyExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillDatetimeOnlyExampleMap adds the entries of a mapping, in document order.
func VcFillDatetimeOnlyExampleMap(m raml.DatetimeOnlyExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemDatetimeOnlyExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemDatetimeOnlyExampleMap(m raml.DatetimeOnlyExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewDatetimeOnlyExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillDatetimeExampleMap adds the entries of a mapping, in document order.
func VcFillDatetimeExampleMap(m raml.DatetimeExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemDatetimeExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemDatetimeExampleMap(m raml.DatetimeExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewDatetimeExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillFileExampleMap adds the entries of a mapping, in document order.
func VcFillFileExampleMap(m raml.FileExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemFileExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemFileExampleMap(m raml.FileExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewFileExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillIntegerExampleMap adds the entries of a mapping, in document order.
func VcFillIntegerExampleMap(m raml.IntegerExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemIntegerExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemIntegerExampleMap(m raml.IntegerExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewIntegerExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillNumberExampleMap adds the entries of a mapping, in document order.
func VcFillNumberExampleMap(m raml.NumberExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemNumberExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemNumberExampleMap(m raml.NumberExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewNumberExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillObjectExampleMap adds the entries of a mapping, in document order.
func VcFillObjectExampleMap(m raml.ObjectExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemObjectExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemObjectExampleMap(m raml.ObjectExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewObjectExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillStringExampleMap adds the entries of a mapping, in document order.
func VcFillStringExampleMap(m raml.StringExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemStringExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemStringExampleMap(m raml.StringExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewStringExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillTimeOnlyExampleMap adds the entries of a mapping, in document order.
func VcFillTimeOnlyExampleMap(m raml.TimeOnlyExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemTimeOnlyExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemTimeOnlyExampleMap(m raml.TimeOnlyExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewTimeOnlyExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillUnionExampleMap adds the entries of a mapping, in document order.
func VcFillUnionExampleMap(m raml.UnionExampleMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemUnionExampleMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemUnionExampleMap(m raml.UnionExampleMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := NewUnionExample()
	if err := x.UnmarshalRAML(v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillUntypedMap adds the entries of a mapping, in document order.
func VcFillUntypedMap(m raml.UntypedMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemUntypedMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemUntypedMap(m raml.UntypedMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	var x interface{} = v
	m.Put(key, x)
	return nil
}

// VcFillStringMap adds the entries of a mapping, in document order.
func VcFillStringMap(m raml.StringMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemStringMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemStringMap(m raml.StringMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x, err := vcText(v)
	if err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillDataTypeMap adds the entries of a mapping, in document order.
func VcFillDataTypeMap(m raml.DataTypeMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemDataTypeMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemDataTypeMap(m raml.DataTypeMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x, err := TypeSortingHat(v)
	if err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillPropertyMap adds the entries of a mapping, in document order.
func VcFillPropertyMap(m raml.PropertyMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemPropertyMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemPropertyMap(m raml.PropertyMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	d, err := TypeSortingHat(v)
	if err != nil {
		return err
	}
	x := d.(raml.Property)
	m.Put(key, x)
	return nil
}

// VcFillFacetMap adds the entries of a mapping, in document order.
func VcFillFacetMap(m raml.FacetMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemFacetMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemFacetMap(m raml.FacetMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := raml.NewDataTypeMap(0).SerializeOrdered(false)
	if err := VcFillDataTypeMap(x, v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}

// VcFillAnnotationMap adds the entries of a mapping, in document order.
func VcFillAnnotationMap(m raml.AnnotationMap, y *yaml.Node) error {
	if y.Kind != yaml.MappingNode {
		return vcWrongKind()
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		if err := vcItemAnnotationMap(m, y.Content[i], y.Content[i+1]); err != nil {
			return err
		}
	}
	return nil
}

func vcItemAnnotationMap(m raml.AnnotationMap, k, v *yaml.Node) error {
	key, err := vcText(k)
	if err != nil {
		return err
	}
	x := raml.NewUntypedMap(0).SerializeOrdered(false)
	if err := VcFillUntypedMap(x, v); err != nil {
		return err
	}
	m.Put(key, x)
	return nil
}
