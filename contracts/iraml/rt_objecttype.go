package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_ObjectType_common(t raml.ObjectType) {
	vc.Concretely(func() {
		vcOnly(t, NewObjectType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Type", "XML", "Required")
	})
	vc.Assume(vcReadObjectType(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadObjectType(t)).(vcObjectTypeState)
	vc.Assume(!(!s.AdditionalProperties))
	vc.Assume(!(s.Discriminator.IsPresent()))
	vc.Assume(!(s.DiscriminatorValue.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.MaxProperties.IsPresent()))
	vc.Assume(!(s.MinProperties.IsPresent()))
	vc.Assume(!(s.Properties.Len() > 0))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewObjectType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadObjectType(NewObjectType())
	ok := true
	want.AdditionalProperties = s.AdditionalProperties
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.Discriminator = s.Discriminator
	if s.DiscriminatorValue.IsPresent() {
		var x interface{} = vcAt(n, "discriminatorValue")
		vcNode(vcAt(n, "discriminatorValue"), s.DiscriminatorValue.Get(), "an untyped value is written as it converts")
		want.DiscriminatorValue = option.NewMaybeUntyped(&x)
	}
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewObjectExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillObjectExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.MaxProperties = s.MaxProperties
	want.MinProperties = s.MinProperties
	if s.Properties.Len() > 0 {
		vc.Written(vcAt(n, "properties"), s.Properties, "properties are written as a whole")
		ok = VcFillPropertyMap(want.Properties, vcAt(n, "properties")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ObjectType_own(t raml.ObjectType) {
	vc.Concretely(func() {
		vcOnly(t, NewObjectType(), "AdditionalProperties", "Default", "Discriminator", "DiscriminatorValue", "MaxProperties", "MinProperties", "Properties", "Type", "Required")
	})
	vc.Assume(vcReadObjectType(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadObjectType(t)).(vcObjectTypeState)
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.XML != nil))
	vc.Split(!s.AdditionalProperties)
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Discriminator.IsPresent())
	vc.Split(s.DiscriminatorValue.IsPresent())
	vc.Split(s.MaxProperties.IsPresent())
	vc.Assume(!(s.MaxProperties.IsPresent()) || s.MaxProperties.Get() <= vcMaxInt)
	vc.Split(s.MinProperties.IsPresent())
	vc.Assume(!(s.MinProperties.IsPresent()) || s.MinProperties.Get() <= vcMaxInt)
	vc.Split(s.Properties.Len() > 0)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewObjectType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadObjectType(NewObjectType())
	ok := true
	want.AdditionalProperties = s.AdditionalProperties
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.Discriminator = s.Discriminator
	if s.DiscriminatorValue.IsPresent() {
		var x interface{} = vcAt(n, "discriminatorValue")
		vcNode(vcAt(n, "discriminatorValue"), s.DiscriminatorValue.Get(), "an untyped value is written as it converts")
		want.DiscriminatorValue = option.NewMaybeUntyped(&x)
	}
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewObjectExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillObjectExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.MaxProperties = s.MaxProperties
	want.MinProperties = s.MinProperties
	if s.Properties.Len() > 0 {
		vc.Written(vcAt(n, "properties"), s.Properties, "properties are written as a whole")
		ok = VcFillPropertyMap(want.Properties, vcAt(n, "properties")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ObjectType_deep(t raml.ObjectType) {
	vc.Concretely(func() {
		vcOnly(t, NewObjectType(), "AdditionalProperties", "Default", "Description", "Discriminator", "DiscriminatorValue", "DisplayName", "Example", "Examples", "FacetDefinitions", "MaxProperties", "MinProperties", "Properties", "Type", "XML", "Required")
	})
	vc.Assume(vcReadObjectType(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadObjectType(t)).(vcObjectTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Split(!s.AdditionalProperties)
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.Discriminator.IsPresent())
	vc.Split(s.DiscriminatorValue.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.MaxProperties.IsPresent())
	vc.Assume(!(s.MaxProperties.IsPresent()) || s.MaxProperties.Get() <= vcMaxInt)
	vc.Split(s.MinProperties.IsPresent())
	vc.Assume(!(s.MinProperties.IsPresent()) || s.MinProperties.Get() <= vcMaxInt)
	vc.Split(s.Properties.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewObjectType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadObjectType(NewObjectType())
	ok := true
	want.AdditionalProperties = s.AdditionalProperties
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.Discriminator = s.Discriminator
	if s.DiscriminatorValue.IsPresent() {
		var x interface{} = vcAt(n, "discriminatorValue")
		vcNode(vcAt(n, "discriminatorValue"), s.DiscriminatorValue.Get(), "an untyped value is written as it converts")
		want.DiscriminatorValue = option.NewMaybeUntyped(&x)
	}
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewObjectExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillObjectExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.MaxProperties = s.MaxProperties
	want.MinProperties = s.MinProperties
	if s.Properties.Len() > 0 {
		vc.Written(vcAt(n, "properties"), s.Properties, "properties are written as a whole")
		ok = VcFillPropertyMap(want.Properties, vcAt(n, "properties")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ObjectType_lists(t raml.ObjectType) {
	vc.Concretely(func() { vcOnly(t, NewObjectType(), "Enum", "Type") })
	vc.Assume(vcReadObjectType(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadObjectType(t)).(vcObjectTypeState)
	vc.Assume(!(!s.AdditionalProperties))
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.Discriminator.IsPresent()))
	vc.Assume(!(s.DiscriminatorValue.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.MaxProperties.IsPresent()))
	vc.Assume(!(s.MinProperties.IsPresent()))
	vc.Assume(!(s.Properties.Len() > 0))
	vc.Assume(!(s.XML != nil))
	vc.Assume(!(!s.Required))
	vc.Split(len(s.Enum) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewObjectType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadObjectType(NewObjectType())
	ok := true
	want.AdditionalProperties = s.AdditionalProperties
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.Discriminator = s.Discriminator
	if s.DiscriminatorValue.IsPresent() {
		var x interface{} = vcAt(n, "discriminatorValue")
		vcNode(vcAt(n, "discriminatorValue"), s.DiscriminatorValue.Get(), "an untyped value is written as it converts")
		want.DiscriminatorValue = option.NewMaybeUntyped(&x)
	}
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewObjectExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillObjectExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.MaxProperties = s.MaxProperties
	want.MinProperties = s.MinProperties
	if s.Properties.Len() > 0 {
		vc.Written(vcAt(n, "properties"), s.Properties, "properties are written as a whole")
		ok = VcFillPropertyMap(want.Properties, vcAt(n, "properties")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ObjectType_kind(t raml.ObjectType) {
	vc.Concretely(func() { vcOnly(t, NewObjectType(), "Description", "Properties", "Type", "Required") })
	vc.Assume(vcReadObjectType(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadObjectType(t)).(vcObjectTypeState)
	vc.Assume(!(!s.AdditionalProperties))
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.Discriminator.IsPresent()))
	vc.Assume(!(s.DiscriminatorValue.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.MaxProperties.IsPresent()))
	vc.Assume(!(s.MinProperties.IsPresent()))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Description.IsPresent())
	vc.Split(s.Properties.Len() > 0)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewObjectType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadObjectType(NewObjectType())
	ok := true
	want.AdditionalProperties = s.AdditionalProperties
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.Discriminator = s.Discriminator
	if s.DiscriminatorValue.IsPresent() {
		var x interface{} = vcAt(n, "discriminatorValue")
		vcNode(vcAt(n, "discriminatorValue"), s.DiscriminatorValue.Get(), "an untyped value is written as it converts")
		want.DiscriminatorValue = option.NewMaybeUntyped(&x)
	}
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewObjectExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillObjectExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	want.MaxProperties = s.MaxProperties
	want.MinProperties = s.MinProperties
	if s.Properties.Len() > 0 {
		vc.Written(vcAt(n, "properties"), s.Properties, "properties are written as a whole")
		ok = VcFillPropertyMap(want.Properties, vcAt(n, "properties")) == nil && ok
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectType(b), want, "what is written parses back to the same properties")
	}
	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*ObjectType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_ObjectType_extra(t raml.ObjectType, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewObjectType(), "Type", "Title", "Content") })
	vc.Assume(!(!vcReadObjectType(t).AdditionalProperties))
	vc.Assume(!(vcReadObjectType(t).Default.IsPresent()))
	vc.Assume(!(vcReadObjectType(t).Description.IsPresent()))
	vc.Assume(!(vcReadObjectType(t).Discriminator.IsPresent()))
	vc.Assume(!(vcReadObjectType(t).DiscriminatorValue.IsPresent()))
	vc.Assume(!(vcReadObjectType(t).DisplayName.IsPresent()))
	vc.Assume(vcReadObjectType(t).Enum == nil)
	vc.Assume(!(vcReadObjectType(t).Example != nil))
	vc.Assume(!(vcReadObjectType(t).Examples.Len() > 0))
	vc.Assume(!(vcReadObjectType(t).FacetDefinitions.Len() > 0))
	vc.Assume(!(vcReadObjectType(t).MaxProperties.IsPresent()))
	vc.Assume(!(vcReadObjectType(t).MinProperties.IsPresent()))
	vc.Assume(!(vcReadObjectType(t).Properties.Len() > 0))
	vc.Assume(!(vcReadObjectType(t).XML != nil))
	vc.Assume(!(!vcReadObjectType(t).Required))
	vc.Assume(vcReadObjectType(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectType(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadObjectType(NewObjectType())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadObjectType(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownObjectType(ek))
		vcReadObjectType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewObjectType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadObjectType(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownObjectType: the key is the name of no property and no annotation.
func vcUnknownObjectType(k string) bool {
	switch k {
	case "type", "schema", "additionalProperties", "default", "description", "discriminator", "discriminatorValue", "displayName", "enum", "example", "examples", "facets", "maxProperties", "minProperties", "properties", "xml", "required":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
