package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_DatetimeType_common(t raml.DatetimeType, format string, formatted bool) {
	vc.Concretely(func() {
		vcOnly(t, NewDatetimeType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Type", "XML", "Required")
	})
	if formatted {
		f := DateFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadDatetimeType(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDatetimeType(t)).(vcDatetimeTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Format != nil))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDatetimeType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDatetimeType(NewDatetimeType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewDatetimeExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillDatetimeExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_DatetimeType_own(t raml.DatetimeType, format string, formatted bool) {
	vc.Concretely(func() { vcOnly(t, NewDatetimeType(), "Default", "Format", "Type", "Required") })
	if formatted {
		f := DateFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadDatetimeType(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDatetimeType(t)).(vcDatetimeTypeState)
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Format != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDatetimeType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDatetimeType(NewDatetimeType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewDatetimeExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillDatetimeExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_DatetimeType_deep(t raml.DatetimeType, format string, formatted bool) {
	vc.Concretely(func() {
		vcOnly(t, NewDatetimeType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Format", "Type", "XML", "Required")
	})
	if formatted {
		f := DateFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadDatetimeType(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDatetimeType(t)).(vcDatetimeTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.Format != nil)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDatetimeType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDatetimeType(NewDatetimeType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewDatetimeExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillDatetimeExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_DatetimeType_lists(t raml.DatetimeType, format string, formatted bool) {
	vc.Concretely(func() { vcOnly(t, NewDatetimeType(), "Enum", "Type") })
	if formatted {
		f := DateFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadDatetimeType(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDatetimeType(t)).(vcDatetimeTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.Format != nil))
	vc.Assume(!(s.XML != nil))
	vc.Assume(!(!s.Required))
	vc.Split(len(s.Enum) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDatetimeType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDatetimeType(NewDatetimeType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewDatetimeExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillDatetimeExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_DatetimeType_kind(t raml.DatetimeType, format string, formatted bool) {
	vc.Concretely(func() { vcOnly(t, NewDatetimeType(), "Description", "Type", "Required") })
	if formatted {
		f := DateFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadDatetimeType(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDatetimeType(t)).(vcDatetimeTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.Format != nil))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Description.IsPresent())
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDatetimeType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDatetimeType(NewDatetimeType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewDatetimeExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillDatetimeExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeType(b), want, "what is written parses back to the same properties")
	}
	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*DatetimeType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_DatetimeType_extra(t raml.DatetimeType, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewDatetimeType(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadDatetimeType(t).Default.IsPresent()))
	vc.Assume(!(vcReadDatetimeType(t).Description.IsPresent()))
	vc.Assume(!(vcReadDatetimeType(t).DisplayName.IsPresent()))
	vc.Assume(vcReadDatetimeType(t).Enum == nil)
	vc.Assume(!(vcReadDatetimeType(t).Example != nil))
	vc.Assume(!(vcReadDatetimeType(t).Examples.Len() > 0))
	vc.Assume(!(vcReadDatetimeType(t).FacetDefinitions.Len() > 0))
	vc.Assume(!(vcReadDatetimeType(t).Format != nil))
	vc.Assume(!(vcReadDatetimeType(t).XML != nil))
	vc.Assume(!(!vcReadDatetimeType(t).Required))
	vc.Assume(vcReadDatetimeType(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeType(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadDatetimeType(NewDatetimeType())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadDatetimeType(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownDatetimeType(ek))
		vcReadDatetimeType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewDatetimeType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadDatetimeType(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownDatetimeType: the key is the name of no property and no annotation.
func vcUnknownDatetimeType(k string) bool {
	switch k {
	case "type", "schema", "default", "description", "displayName", "enum", "example", "examples", "facets", "format", "xml", "required":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
