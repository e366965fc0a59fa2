package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_FileType_common(t raml.FileType) {
	vc.Concretely(func() {
		vcOnly(t, NewFileType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Type", "XML", "Required")
	})
	vc.Assume(vcReadFileType(t).Annotations.Len() == 0)
	vc.Assume(vcReadFileType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadFileType(t)).(vcFileTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(s.FileTypes == nil || len(s.FileTypes) > 0)
	vc.Assume(!(len(s.FileTypes) > 0))
	vc.Assume(!(s.MaxLength != 2147483647))
	vc.Assume(!(s.MinLength != 0))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewFileType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadFileType(NewFileType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewFileExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillFileExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if len(s.FileTypes) > 0 {
		want.FileTypes = s.FileTypes
	}
	want.MaxLength = s.MaxLength
	want.MinLength = s.MinLength
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadFileType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_FileType_own(t raml.FileType) {
	vc.Concretely(func() { vcOnly(t, NewFileType(), "Default", "MaxLength", "MinLength", "Type", "Required") })
	vc.Assume(vcReadFileType(t).Annotations.Len() == 0)
	vc.Assume(vcReadFileType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadFileType(t)).(vcFileTypeState)
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(s.FileTypes == nil || len(s.FileTypes) > 0)
	vc.Assume(!(len(s.FileTypes) > 0))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.MaxLength != 2147483647)
	vc.Assume(!(s.MaxLength != 2147483647) || s.MaxLength <= vcMaxInt)
	vc.Split(s.MinLength != 0)
	vc.Assume(!(s.MinLength != 0) || s.MinLength <= vcMaxInt)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewFileType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadFileType(NewFileType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewFileExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillFileExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if len(s.FileTypes) > 0 {
		want.FileTypes = s.FileTypes
	}
	want.MaxLength = s.MaxLength
	want.MinLength = s.MinLength
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadFileType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_FileType_deep(t raml.FileType) {
	vc.Concretely(func() {
		vcOnly(t, NewFileType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "MaxLength", "MinLength", "Type", "XML", "Required")
	})
	vc.Assume(vcReadFileType(t).Annotations.Len() == 0)
	vc.Assume(vcReadFileType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadFileType(t)).(vcFileTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(s.FileTypes == nil || len(s.FileTypes) > 0)
	vc.Assume(!(len(s.FileTypes) > 0))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.MaxLength != 2147483647)
	vc.Assume(!(s.MaxLength != 2147483647) || s.MaxLength <= vcMaxInt)
	vc.Split(s.MinLength != 0)
	vc.Assume(!(s.MinLength != 0) || s.MinLength <= vcMaxInt)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewFileType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadFileType(NewFileType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewFileExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillFileExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if len(s.FileTypes) > 0 {
		want.FileTypes = s.FileTypes
	}
	want.MaxLength = s.MaxLength
	want.MinLength = s.MinLength
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadFileType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_FileType_lists(t raml.FileType) {
	vc.Concretely(func() { vcOnly(t, NewFileType(), "Enum", "FileTypes", "Type") })
	vc.Assume(vcReadFileType(t).Annotations.Len() == 0)
	vc.Assume(vcReadFileType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadFileType(t)).(vcFileTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(s.FileTypes == nil || len(s.FileTypes) > 0)
	vc.Assume(!(s.MaxLength != 2147483647))
	vc.Assume(!(s.MinLength != 0))
	vc.Assume(!(s.XML != nil))
	vc.Assume(!(!s.Required))
	vc.Split(len(s.Enum) > 0)
	vc.Split(len(s.FileTypes) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewFileType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadFileType(NewFileType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewFileExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillFileExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if len(s.FileTypes) > 0 {
		want.FileTypes = s.FileTypes
	}
	want.MaxLength = s.MaxLength
	want.MinLength = s.MinLength
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadFileType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_FileType_kind(t raml.FileType) {
	vc.Concretely(func() { vcOnly(t, NewFileType(), "Description", "Type", "Required") })
	vc.Assume(vcReadFileType(t).Annotations.Len() == 0)
	vc.Assume(vcReadFileType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadFileType(t)).(vcFileTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(s.FileTypes == nil || len(s.FileTypes) > 0)
	vc.Assume(!(len(s.FileTypes) > 0))
	vc.Assume(!(s.MaxLength != 2147483647))
	vc.Assume(!(s.MinLength != 0))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Description.IsPresent())
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewFileType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadFileType(NewFileType())
	ok := true
	if s.Default.IsPresent() {
		var x interface{} = vcAt(n, "default")
		vcNode(vcAt(n, "default"), s.Default.Get(), "an untyped value is written as it converts")
		want.Default = option.NewMaybeUntyped(&x)
	}
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		var l []interface{}
		for i := 0; i < len(vcAt(n, "enum").Content); i++ {
			l = append(l, vcAt(n, "enum").Content[i])
		}
		vcNode(vcAt(n, "enum"), s.Enum, "an untyped list is written as it converts")
		want.Enum = l
	}
	if s.Example != nil {
		x := NewFileExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillFileExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if len(s.FileTypes) > 0 {
		want.FileTypes = s.FileTypes
	}
	want.MaxLength = s.MaxLength
	want.MinLength = s.MinLength
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadFileType(b), want, "what is written parses back to the same properties")
	}
	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*FileType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_FileType_extra(t raml.FileType, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewFileType(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadFileType(t).Default.IsPresent()))
	vc.Assume(!(vcReadFileType(t).Description.IsPresent()))
	vc.Assume(!(vcReadFileType(t).DisplayName.IsPresent()))
	vc.Assume(vcReadFileType(t).Enum == nil)
	vc.Assume(!(vcReadFileType(t).Example != nil))
	vc.Assume(!(vcReadFileType(t).Examples.Len() > 0))
	vc.Assume(!(vcReadFileType(t).FacetDefinitions.Len() > 0))
	vc.Assume(vcReadFileType(t).FileTypes == nil)
	vc.Assume(!(vcReadFileType(t).MaxLength != 2147483647))
	vc.Assume(!(vcReadFileType(t).MinLength != 0))
	vc.Assume(!(vcReadFileType(t).XML != nil))
	vc.Assume(!(!vcReadFileType(t).Required))
	vc.Assume(vcReadFileType(t).Annotations.Len() == 0)
	vc.Assume(vcReadFileType(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadFileType(NewFileType())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadFileType(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownFileType(ek))
		vcReadFileType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewFileType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadFileType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadFileType(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownFileType: the key is the name of no property and no annotation.
func vcUnknownFileType(k string) bool {
	switch k {
	case "type", "schema", "default", "description", "displayName", "enum", "example", "examples", "facets", "fileTypes", "maxLength", "minLength", "xml", "required":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
