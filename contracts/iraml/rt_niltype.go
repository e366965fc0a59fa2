package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC15_NilType(t raml.NilType) {
	vc.Concretely(func() { vcOnly(t, NewNilType(), "Type", "Required") })
	vc.Assume(vcReadNilType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadNilType(t)).(vcNilTypeState)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewNilType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadNilType(NewNilType())
	ok := true
	want.Type, want.Schema = s.Type, s.Type
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadNilType(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_NilType_kind(t raml.NilType) {
	vc.Concretely(func() { vcOnly(t, NewNilType(), "Type", "Required") })
	vc.Assume(vcReadNilType(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadNilType(t)).(vcNilTypeState)
	vc.Split(!s.Required)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewNilType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadNilType(NewNilType())
	ok := true
	want.Type, want.Schema = s.Type, s.Type
	want.Required = s.Required
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadNilType(b), want, "what is written parses back to the same properties")
	}
	if s.Type == string(s.Kind) {
		vc.Real()
		d, derr := TypeSortingHat(n)
		_, is := d.(*NilType)
		vc.Assert(derr != nil || is, "what is written is recognised as a declaration of the same kind")
	}
}

func VcC15_NilType_extra(t raml.NilType, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewNilType(), "Type", "Title", "Content") })
	vc.Assume(!(!vcReadNilType(t).Required))
	vc.Assume(vcReadNilType(t).ExtraFacets.Len() == 0)
	vc.Split(extra)
	want := vcReadNilType(NewNilType())
	if extra {
		vc.Assume(ev != nil && vcUnknownNilType(ek))
		vcReadNilType(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewNilType()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadNilType(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
	}
}

// vcUnknownNilType: the key is the name of no property and no annotation.
func vcUnknownNilType(k string) bool {
	switch k {
	case "type", "schema", "required":
		return false
	}
	return true
}
