package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_ArrayType_common(t raml.ArrayType) {
	vc.Concretely(func() {
		vcOnly(t, NewArrayType(), "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Type", "XML", "Required")
	})
	vc.Assume(vcReadArrayType(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadArrayType(t)).(vcArrayTypeState)
	vc.Assume(s.Default == nil || len(s.Default) > 0)
	vc.Assume(!(len(s.Default) > 0))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Items != nil))
	vc.Assume(!(s.MaxItems != 2147483647))
	vc.Assume(!(s.MinItems != 0))
	vc.Assume(!(s.UniqueItems))
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewArrayType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadArrayType(NewArrayType())
	ok := true
	if len(s.Default) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "default").Content); i++ {
			l = append(l, vcAt(n, "default").Content[i])
		}
		vcNode(vcAt(n, "default"), s.Default, "an untyped list is written as it converts")
		want.Default = l
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewArrayExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillArrayExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Items != nil {
		x, xerr := TypeSortingHat(vcAt(n, "items"))
		ok = ok && xerr == nil
		want.Items = x
	}
	want.MaxItems = s.MaxItems
	want.MinItems = s.MinItems
	want.Type, want.Schema = s.Type, s.Type
	want.UniqueItems = s.UniqueItems
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ArrayType_own(t raml.ArrayType) {
	vc.Concretely(func() { vcOnly(t, NewArrayType(), "Items", "MaxItems", "MinItems", "Type", "UniqueItems", "Required") })
	vc.Assume(vcReadArrayType(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadArrayType(t)).(vcArrayTypeState)
	vc.Assume(s.Default == nil || len(s.Default) > 0)
	vc.Assume(!(len(s.Default) > 0))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Items != nil)
	vc.Split(s.MaxItems != 2147483647)
	vc.Assume(!(s.MaxItems != 2147483647) || s.MaxItems <= vcMaxInt)
	vc.Split(s.MinItems != 0)
	vc.Assume(!(s.MinItems != 0) || s.MinItems <= vcMaxInt)
	vc.Split(s.UniqueItems)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewArrayType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadArrayType(NewArrayType())
	ok := true
	if len(s.Default) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "default").Content); i++ {
			l = append(l, vcAt(n, "default").Content[i])
		}
		vcNode(vcAt(n, "default"), s.Default, "an untyped list is written as it converts")
		want.Default = l
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewArrayExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillArrayExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Items != nil {
		x, xerr := TypeSortingHat(vcAt(n, "items"))
		ok = ok && xerr == nil
		want.Items = x
	}
	want.MaxItems = s.MaxItems
	want.MinItems = s.MinItems
	want.Type, want.Schema = s.Type, s.Type
	want.UniqueItems = s.UniqueItems
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ArrayType_deep(t raml.ArrayType) {
	vc.Concretely(func() {
		vcOnly(t, NewArrayType(), "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Items", "MaxItems", "MinItems", "Type", "UniqueItems", "XML", "Required")
	})
	vc.Assume(vcReadArrayType(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadArrayType(t)).(vcArrayTypeState)
	vc.Assume(s.Default == nil || len(s.Default) > 0)
	vc.Assume(!(len(s.Default) > 0))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.Items != nil)
	vc.Split(s.MaxItems != 2147483647)
	vc.Assume(!(s.MaxItems != 2147483647) || s.MaxItems <= vcMaxInt)
	vc.Split(s.MinItems != 0)
	vc.Assume(!(s.MinItems != 0) || s.MinItems <= vcMaxInt)
	vc.Split(s.UniqueItems)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewArrayType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadArrayType(NewArrayType())
	ok := true
	if len(s.Default) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "default").Content); i++ {
			l = append(l, vcAt(n, "default").Content[i])
		}
		vcNode(vcAt(n, "default"), s.Default, "an untyped list is written as it converts")
		want.Default = l
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewArrayExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillArrayExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Items != nil {
		x, xerr := TypeSortingHat(vcAt(n, "items"))
		ok = ok && xerr == nil
		want.Items = x
	}
	want.MaxItems = s.MaxItems
	want.MinItems = s.MinItems
	want.Type, want.Schema = s.Type, s.Type
	want.UniqueItems = s.UniqueItems
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ArrayType_lists(t raml.ArrayType) {
	vc.Concretely(func() { vcOnly(t, NewArrayType(), "Default", "Enum", "Type") })
	vc.Assume(vcReadArrayType(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadArrayType(t)).(vcArrayTypeState)
	vc.Assume(s.Default == nil || len(s.Default) > 0)
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.Items != nil))
	vc.Assume(!(s.MaxItems != 2147483647))
	vc.Assume(!(s.MinItems != 0))
	vc.Assume(!(s.UniqueItems))
	vc.Assume(!(s.XML != nil))
	vc.Assume(!(!s.Required))
	vc.Split(len(s.Default) > 0)
	vc.Split(len(s.Enum) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewArrayType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadArrayType(NewArrayType())
	ok := true
	if len(s.Default) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "default").Content); i++ {
			l = append(l, vcAt(n, "default").Content[i])
		}
		vcNode(vcAt(n, "default"), s.Default, "an untyped list is written as it converts")
		want.Default = l
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewArrayExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillArrayExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Items != nil {
		x, xerr := TypeSortingHat(vcAt(n, "items"))
		ok = ok && xerr == nil
		want.Items = x
	}
	want.MaxItems = s.MaxItems
	want.MinItems = s.MinItems
	want.Type, want.Schema = s.Type, s.Type
	want.UniqueItems = s.UniqueItems
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ArrayType_kind(t raml.ArrayType) {
	vc.Concretely(func() { vcOnly(t, NewArrayType(), "Description", "Items", "Type", "Required") })
	vc.Assume(vcReadArrayType(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadArrayType(t)).(vcArrayTypeState)
	vc.Assume(s.Default == nil || len(s.Default) > 0)
	vc.Assume(!(len(s.Default) > 0))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.MaxItems != 2147483647))
	vc.Assume(!(s.MinItems != 0))
	vc.Assume(!(s.UniqueItems))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Description.IsPresent())
	vc.Split(s.Items != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewArrayType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadArrayType(NewArrayType())
	ok := true
	if len(s.Default) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "default").Content); i++ {
			l = append(l, vcAt(n, "default").Content[i])
		}
		vcNode(vcAt(n, "default"), s.Default, "an untyped list is written as it converts")
		want.Default = l
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewArrayExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillArrayExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Items != nil {
		x, xerr := TypeSortingHat(vcAt(n, "items"))
		ok = ok && xerr == nil
		want.Items = x
	}
	want.MaxItems = s.MaxItems
	want.MinItems = s.MinItems
	want.Type, want.Schema = s.Type, s.Type
	want.UniqueItems = s.UniqueItems
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayType(b), want, "what is written parses back to the same properties")
	}
	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*ArrayType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_ArrayType_extra(t raml.ArrayType, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewArrayType(), "Type", "Title", "Content") })
	vc.Assume(vcReadArrayType(t).Default == nil)
	vc.Assume(!(vcReadArrayType(t).Description.IsPresent()))
	vc.Assume(!(vcReadArrayType(t).DisplayName.IsPresent()))
	vc.Assume(vcReadArrayType(t).Enum == nil)
	vc.Assume(!(vcReadArrayType(t).Example != nil))
	vc.Assume(!(vcReadArrayType(t).Examples.Len() > 0))
	vc.Assume(!(vcReadArrayType(t).FacetDefinitions.Len() > 0))
	vc.Assume(!(vcReadArrayType(t).Items != nil))
	vc.Assume(!(vcReadArrayType(t).MaxItems != 2147483647))
	vc.Assume(!(vcReadArrayType(t).MinItems != 0))
	vc.Assume(!(vcReadArrayType(t).UniqueItems))
	vc.Assume(!(vcReadArrayType(t).XML != nil))
	vc.Assume(!(!vcReadArrayType(t).Required))
	vc.Assume(vcReadArrayType(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayType(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadArrayType(NewArrayType())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadArrayType(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownArrayType(ek))
		vcReadArrayType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewArrayType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadArrayType(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownArrayType: the key is the name of no property and no annotation.
func vcUnknownArrayType(k string) bool {
	switch k {
	case "type", "schema", "default", "description", "displayName", "enum", "example", "examples", "facets", "items", "maxItems", "minItems", "uniqueItems", "xml", "required":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
