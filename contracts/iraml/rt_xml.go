package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC15_XML(t raml.XML) {
	vc.Concretely(func() { vcOnly(t, NewXML(), "IsAttribute", "IsWrapped", "Name", "Namespace", "Prefix") })
	vc.Assume(vcReadXMLAll(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadXML(t)).(vcXMLState)
	vc.Split(s.IsAttribute.IsPresent())
	vc.Split(s.IsWrapped.IsPresent())
	vc.Split(s.Name.IsPresent())
	vc.Split(s.Namespace.IsPresent())
	vc.Split(s.Prefix.IsPresent())
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewXML()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadXML(NewXML())
	ok := true
	want.IsAttribute = s.IsAttribute
	want.IsWrapped = s.IsWrapped
	want.Name = s.Name
	want.Namespace = s.Namespace
	want.Prefix = s.Prefix
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadXML(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_XML_extra(t raml.XML, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewXML(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadXML(t).IsAttribute.IsPresent()))
	vc.Assume(!(vcReadXML(t).IsWrapped.IsPresent()))
	vc.Assume(!(vcReadXML(t).Name.IsPresent()))
	vc.Assume(!(vcReadXML(t).Namespace.IsPresent()))
	vc.Assume(!(vcReadXML(t).Prefix.IsPresent()))
	vc.Assume(vcReadXMLAll(t).ExtraFacets.Len() == 0)
	vc.Split(extra)
	want := vcReadXMLAll(NewXML())
	if extra {
		vc.Assume(ev != nil && vcUnknownXML(ek))
		vcReadXMLAll(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewXML()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadXMLAll(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
	}
}

// vcUnknownXML: the key is the name of no property and no annotation.
func vcUnknownXML(k string) bool {
	switch k {
	case "attribute", "wrapped", "name", "namespace", "prefix":
		return false
	}
	return true
}
