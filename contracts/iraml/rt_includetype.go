package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC15_IncludeType(t raml.IncludeType) {
	vc.Concretely(func() { vcOnly(t, NewIncludeType(), "Type", "Required") })
	vc.Assume(vcReadIncludeType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadIncludeType(t)).(vcIncludeTypeState)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewIncludeType()
	vc.Real()
	var perr error
	if n.Kind == yaml.ScalarNode {
		var d raml.DataType
		d, perr = TypeSortingHat(n)
		b, _ = d.(*IncludeType)
	} else {
		perr = raml.Unmarshaler(b).UnmarshalRAML(n)
	}
	want := vcReadIncludeType(NewIncludeType())
	ok := true
	want.Type, want.Schema = s.Type, s.Type
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIncludeType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_IncludeType_extra(t raml.IncludeType, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewIncludeType(), "Type", "Title", "Content") })
	vc.Assume(!(!vcReadIncludeType(t).Required))
	vc.Assume(vcReadIncludeType(t).ExtraFacets.Len() == 0)
	vc.Split(extra)
	want := vcReadIncludeType(NewIncludeType())
	if extra {
		vc.Assume(ev != nil && vcUnknownIncludeType(ek))
		vcReadIncludeType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewIncludeType()
	vc.Real()
	var perr error
	if n.Kind == yaml.ScalarNode {
		var d raml.DataType
		d, perr = TypeSortingHat(n)
		b, _ = d.(*IncludeType)
	} else {
		perr = raml.Unmarshaler(b).UnmarshalRAML(n)
	}
	ok := true
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadIncludeType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
	}
}

// vcUnknownIncludeType: the key is the name of no property and no annotation.
func vcUnknownIncludeType(k string) bool {
	switch k {
	case "type", "schema", "required":
		return false
	}
	return true
}
