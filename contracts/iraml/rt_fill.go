package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC15_fill_AnyExampleMap(k, l string, v, w raml.AnyExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewAnyExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewAnyExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalAnyExampleMapRAML(b, n)
	want := raml.NewAnyExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemAnyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemAnyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_ArrayExampleMap(k, l string, v, w raml.ArrayExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewArrayExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewArrayExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalArrayExampleMapRAML(b, n)
	want := raml.NewArrayExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemArrayExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemArrayExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_BoolExampleMap(k, l string, v, w raml.BoolExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewBoolExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewBoolExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalBoolExampleMapRAML(b, n)
	want := raml.NewBoolExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemBoolExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemBoolExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_CustomExampleMap(k, l string, v, w raml.CustomExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewCustomExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewCustomExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalCustomExampleMapRAML(b, n)
	want := raml.NewCustomExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemCustomExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemCustomExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_DateOnlyExampleMap(k, l string, v, w raml.DateOnlyExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewDateOnlyExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalDateOnlyExampleMapRAML(b, n)
	want := raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemDateOnlyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemDateOnlyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_DatetimeOnlyExampleMap(k, l string, v, w raml.DatetimeOnlyExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewDatetimeOnlyExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalDatetimeOnlyExampleMapRAML(b, n)
	want := raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemDatetimeOnlyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemDatetimeOnlyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_DatetimeExampleMap(k, l string, v, w raml.DatetimeExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewDatetimeExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalDatetimeExampleMapRAML(b, n)
	want := raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemDatetimeExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemDatetimeExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_FileExampleMap(k, l string, v, w raml.FileExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewFileExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewFileExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalFileExampleMapRAML(b, n)
	want := raml.NewFileExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemFileExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemFileExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_IntegerExampleMap(k, l string, v, w raml.IntegerExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewIntegerExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewIntegerExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalIntegerExampleMapRAML(b, n)
	want := raml.NewIntegerExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemIntegerExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemIntegerExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_NumberExampleMap(k, l string, v, w raml.NumberExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewNumberExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewNumberExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalNumberExampleMapRAML(b, n)
	want := raml.NewNumberExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemNumberExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemNumberExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_ObjectExampleMap(k, l string, v, w raml.ObjectExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewObjectExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewObjectExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalObjectExampleMapRAML(b, n)
	want := raml.NewObjectExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemObjectExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemObjectExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_StringExampleMap(k, l string, v, w raml.StringExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewStringExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewStringExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalStringExampleMapRAML(b, n)
	want := raml.NewStringExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemStringExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemStringExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_TimeOnlyExampleMap(k, l string, v, w raml.TimeOnlyExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewTimeOnlyExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalTimeOnlyExampleMapRAML(b, n)
	want := raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemTimeOnlyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemTimeOnlyExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_UnionExampleMap(k, l string, v, w raml.UnionExample, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewUnionExampleMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewUnionExampleMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalUnionExampleMapRAML(b, n)
	want := raml.NewUnionExampleMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemUnionExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemUnionExampleMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_UntypedMap(k, l string, v, w *yaml.Node, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewUntypedMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalUntypedMapRAML(b, n)
	want := raml.NewUntypedMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = want.Put(k, v) != nil
		if ok && count != 1 {
			ok = want.Put(l, w) != nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_StringMap(k, l string, v, w string, count int) {
	vc.Assume(k != l)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewStringMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewStringMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalStringMapRAML(b, n)
	want := raml.NewStringMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = want.Put(k, v) != nil
		if ok && count != 1 {
			ok = want.Put(l, w) != nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_DataTypeMap(k, l string, v, w raml.DataType, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewDataTypeMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalDataTypeMapRAML(b, n)
	want := raml.NewDataTypeMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemDataTypeMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemDataTypeMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_PropertyMap(k, l string, v, w raml.Property, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewPropertyMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewPropertyMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalPropertyMapRAML(b, n)
	want := raml.NewPropertyMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemPropertyMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemPropertyMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_FacetMap(k, l string, v, w raml.DataTypeMap, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewFacetMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalFacetMapRAML(b, n)
	want := raml.NewFacetMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemFacetMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemFacetMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}

func VcC15_fill_AnnotationMap(k, l string, v, w raml.UntypedMap, count int) {
	vc.Assume(k != l && v != nil && w != nil)
	vc.Split(count == 0)
	vc.Split(count == 1)
	m := raml.NewAnnotationMap(2).SerializeOrdered(false)
	if count != 0 {
		m.Put(k, v)
		if count != 1 {
			m.Put(l, w)
		}
	}
	n, err := m.ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Real()
	perr := UnmarshalAnnotationMapRAML(b, n)
	want := raml.NewAnnotationMap(0).SerializeOrdered(false)
	ok := true
	if count != 0 {
		ok = vcItemAnnotationMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, vcAt(n, k)) == nil
		if ok && count != 1 {
			ok = vcItemAnnotationMap(want, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: l}, vcAt(n, l)) == nil
		}
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(b, want, "every entry comes back under its own key, in order")
	}
}
