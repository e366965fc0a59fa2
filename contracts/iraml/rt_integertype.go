package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_IntegerType_common(t raml.IntegerType, format string, formatted bool) {
	vc.Concretely(func() {
		vcOnly(t, NewIntegerType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Type", "XML", "Required")
	})
	if formatted {
		f := IntegerFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadIntegerType(t).Annotations.Len() == 0)
	vc.Assume(vcReadIntegerType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadIntegerType(t)).(vcIntegerTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Format != nil))
	vc.Assume(!(s.Maximum.IsPresent()))
	vc.Assume(!(s.Minimum.IsPresent()))
	vc.Assume(!(s.MultipleOf.IsPresent()))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewIntegerType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadIntegerType(NewIntegerType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewIntegerExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillIntegerExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Maximum = s.Maximum
	want.Minimum = s.Minimum
	want.MultipleOf = s.MultipleOf
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIntegerType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_IntegerType_own(t raml.IntegerType, format string, formatted bool) {
	vc.Concretely(func() {
		vcOnly(t, NewIntegerType(), "Default", "Format", "Maximum", "Minimum", "MultipleOf", "Type", "Required")
	})
	if formatted {
		f := IntegerFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadIntegerType(t).Annotations.Len() == 0)
	vc.Assume(vcReadIntegerType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadIntegerType(t)).(vcIntegerTypeState)
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Format != nil)
	vc.Split(s.Maximum.IsPresent())
	vc.Split(s.Minimum.IsPresent())
	vc.Split(s.MultipleOf.IsPresent())
	vc.Assume(!(s.MultipleOf.IsPresent()) || vcTenDigits(s.MultipleOf.Get()))
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewIntegerType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadIntegerType(NewIntegerType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewIntegerExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillIntegerExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Maximum = s.Maximum
	want.Minimum = s.Minimum
	want.MultipleOf = s.MultipleOf
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIntegerType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_IntegerType_deep(t raml.IntegerType, format string, formatted bool) {
	vc.Concretely(func() {
		vcOnly(t, NewIntegerType(), "Default", "Description", "DisplayName", "Example", "Examples", "FacetDefinitions", "Format", "Maximum", "Minimum", "MultipleOf", "Type", "XML", "Required")
	})
	if formatted {
		f := IntegerFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadIntegerType(t).Annotations.Len() == 0)
	vc.Assume(vcReadIntegerType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadIntegerType(t)).(vcIntegerTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Split(s.Default.IsPresent())
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(s.Example != nil)
	vc.Split(s.Examples.Len() > 0)
	vc.Split(s.FacetDefinitions.Len() > 0)
	vc.Split(s.Format != nil)
	vc.Split(s.Maximum.IsPresent())
	vc.Split(s.Minimum.IsPresent())
	vc.Split(s.MultipleOf.IsPresent())
	vc.Assume(!(s.MultipleOf.IsPresent()) || vcTenDigits(s.MultipleOf.Get()))
	vc.Split(s.XML != nil)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewIntegerType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadIntegerType(NewIntegerType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewIntegerExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillIntegerExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Maximum = s.Maximum
	want.Minimum = s.Minimum
	want.MultipleOf = s.MultipleOf
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIntegerType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_IntegerType_lists(t raml.IntegerType, format string, formatted bool) {
	vc.Concretely(func() { vcOnly(t, NewIntegerType(), "Enum", "Type") })
	if formatted {
		f := IntegerFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadIntegerType(t).Annotations.Len() == 0)
	vc.Assume(vcReadIntegerType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadIntegerType(t)).(vcIntegerTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.Format != nil))
	vc.Assume(!(s.Maximum.IsPresent()))
	vc.Assume(!(s.Minimum.IsPresent()))
	vc.Assume(!(s.MultipleOf.IsPresent()))
	vc.Assume(!(s.XML != nil))
	vc.Assume(!(!s.Required))
	vc.Split(len(s.Enum) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewIntegerType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadIntegerType(NewIntegerType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewIntegerExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillIntegerExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Maximum = s.Maximum
	want.Minimum = s.Minimum
	want.MultipleOf = s.MultipleOf
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIntegerType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_IntegerType_kind(t raml.IntegerType, format string, formatted bool) {
	vc.Concretely(func() { vcOnly(t, NewIntegerType(), "Description", "Type", "Required") })
	if formatted {
		f := IntegerFormat(format)
		t.SetFormat(&f)
	} else {
		t.UnsetFormat()
	}
	vc.Assume(vcReadIntegerType(t).Annotations.Len() == 0)
	vc.Assume(vcReadIntegerType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadIntegerType(t)).(vcIntegerTypeState)
	vc.Assume(!(s.Default.IsPresent()))
	vc.Assume(!(s.DisplayName.IsPresent()))
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!(len(s.Enum) > 0))
	vc.Assume(!(s.Example != nil))
	vc.Assume(!(s.Examples.Len() > 0))
	vc.Assume(!(s.FacetDefinitions.Len() > 0))
	vc.Assume(!(s.Format != nil))
	vc.Assume(!(s.Maximum.IsPresent()))
	vc.Assume(!(s.Minimum.IsPresent()))
	vc.Assume(!(s.MultipleOf.IsPresent()))
	vc.Assume(!(s.XML != nil))
	vc.Split(s.Description.IsPresent())
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewIntegerType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadIntegerType(NewIntegerType())
	ok := true
	want.Default = s.Default
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	if len(s.Enum) > 0 {
		want.Enum = s.Enum
	}
	if s.Example != nil {
		x := NewIntegerExample()
		ok = x.UnmarshalRAML(vcAt(n, "example")) == nil && ok
		want.Example = x
	}
	if s.Examples.Len() > 0 {
		vc.Written(vcAt(n, "examples"), s.Examples, "examples are written as a whole")
		ok = VcFillIntegerExampleMap(want.Examples, vcAt(n, "examples")) == nil && ok
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.Written(vcAt(n, "facets"), s.FacetDefinitions, "facets are written as a whole")
		ok = VcFillFacetMap(want.FacetDefinitions, vcAt(n, "facets")) == nil && ok
	}
	if s.Format != nil {
		want.Format = s.Format
	}
	want.Maximum = s.Maximum
	want.Minimum = s.Minimum
	want.MultipleOf = s.MultipleOf
	want.Type, want.Schema = s.Type, s.Type
	if s.XML != nil {
		x := NewXML()
		ok = x.UnmarshalRAML(vcAt(n, "xml")) == nil && ok
		want.XML = x
	}
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIntegerType(b), want, "what is written parses back to the same properties")
	}
	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*IntegerType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_IntegerType_extra(t raml.IntegerType, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewIntegerType(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadIntegerType(t).Default.IsPresent()))
	vc.Assume(!(vcReadIntegerType(t).Description.IsPresent()))
	vc.Assume(!(vcReadIntegerType(t).DisplayName.IsPresent()))
	vc.Assume(vcReadIntegerType(t).Enum == nil)
	vc.Assume(!(vcReadIntegerType(t).Example != nil))
	vc.Assume(!(vcReadIntegerType(t).Examples.Len() > 0))
	vc.Assume(!(vcReadIntegerType(t).FacetDefinitions.Len() > 0))
	vc.Assume(!(vcReadIntegerType(t).Format != nil))
	vc.Assume(!(vcReadIntegerType(t).Maximum.IsPresent()))
	vc.Assume(!(vcReadIntegerType(t).Minimum.IsPresent()))
	vc.Assume(!(vcReadIntegerType(t).MultipleOf.IsPresent()))
	vc.Assume(!(vcReadIntegerType(t).XML != nil))
	vc.Assume(!(!vcReadIntegerType(t).Required))
	vc.Assume(vcReadIntegerType(t).Annotations.Len() == 0)
	vc.Assume(vcReadIntegerType(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadIntegerType(NewIntegerType())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadIntegerType(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownIntegerType(ek))
		vcReadIntegerType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewIntegerType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIntegerType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadIntegerType(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownIntegerType: the key is the name of no property and no annotation.
func vcUnknownIntegerType(k string) bool {
	switch k {
	case "type", "schema", "default", "description", "displayName", "enum", "example", "examples", "facets", "format", "maximum", "minimum", "multipleOf", "xml", "required":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
