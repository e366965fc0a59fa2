package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_CustomType(t raml.CustomType) {
	vc.Concretely(func() {
		vcOnly(t, NewCustomType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Type", "XML", "Required")
	})
	vc.Assume(vcReadCustomType(t).Annotations.Len() == 0)
	vc.Assume(vcReadCustomType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadCustomType(t)).(vcCustomTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewCustomType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadCustomType(NewCustomType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewCustomExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillCustomExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadCustomType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_CustomType_lists(t raml.CustomType) {
	vc.Concretely(func() { vcOnly(t, NewCustomType(), "Enum", "Type") })
	vc.Assume(vcReadCustomType(t).Annotations.Len() == 0)
	vc.Assume(vcReadCustomType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadCustomType(t)).(vcCustomTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.XML != nil))
	vc.Assume(!(!s.Required))
	vc.Split(len(s.Enum) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewCustomType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadCustomType(NewCustomType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewCustomExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillCustomExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadCustomType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_CustomType_kind(t raml.CustomType) {
	vc.Concretely(func() { vcOnly(t, NewCustomType(), "Description", "Type", "Required") })
	vc.Assume(vcReadCustomType(t).Annotations.Len() == 0)
	vc.Assume(vcReadCustomType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadCustomType(t)).(vcCustomTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.XML != nil))
	other := vcOtherType(s.Type)
	vc.Split(other)
	vc.Split(s.Description.IsPresent())
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewCustomType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadCustomType(NewCustomType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewCustomExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillCustomExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadCustomType(b), want, "what is written parses back to the same properties")
	}
	if other {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*CustomType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_CustomType_extra(t raml.CustomType, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewCustomType(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadCustomType(t).Default.IsPresent()))
	vc.Assume(!(vcReadCustomType(t).Description.IsPresent()))
	vc.Assume(!(vcReadCustomType(t).DisplayName.IsPresent()))
	vc.Assume(vcReadCustomType(t).Enum == nil)
	vc.Assume(!(vcReadCustomType(t).Example != nil))
	vc.Assume(!(vcReadCustomType(t).Examples.Len() > 0))
	vc.Assume(!(vcReadCustomType(t).FacetDefinitions.Len() > 0))
	vc.Assume(!(vcReadCustomType(t).XML != nil))
	vc.Assume(!(!vcReadCustomType(t).Required))
	vc.Assume(vcReadCustomType(t).Annotations.Len() == 0)
	vc.Assume(vcReadCustomType(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadCustomType(NewCustomType())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadCustomType(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownCustomType(ek))
		vcReadCustomType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewCustomType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadCustomType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadCustomType(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownCustomType: the key is the name of no property and no annotation.
func vcUnknownCustomType(k string) bool {
	switch k {
	case "type", "schema", "default", "description", "displayName", "enum", "example", "examples", "facets", "xml", "required":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
