package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC13_XML_ToYAML(t raml.XML, q interface{}) {
	s := vc.Freeze(vcReadXMLAll(t)).(vcXMLAll)
	vc.Assume(!s.ExtraFacets.Has("attribute"))
	vc.Assume(!s.ExtraFacets.Has("wrapped"))
	vc.Assume(!s.ExtraFacets.Has("name"))
	vc.Assume(!s.ExtraFacets.Has("namespace"))
	vc.Assume(!s.ExtraFacets.Has("prefix"))
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Check(vcReadXMLAll(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesXML(s, n)
	vcOthersXML(s, n, q)
}

func VcC13_XML_order(t raml.XML, i, j int) {
	s := vc.Freeze(vcReadXMLAll(t)).(vcXMLAll)
	vc.Assume(!s.ExtraFacets.Has("attribute"))
	vc.Assume(!s.ExtraFacets.Has("wrapped"))
	vc.Assume(!s.ExtraFacets.Has("name"))
	vc.Assume(!s.ExtraFacets.Has("namespace"))
	vc.Assume(!s.ExtraFacets.Has("prefix"))
	vc.Assume(0 <= i && i < j)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil || !vc.WMap(n) {
		return
	}
	if j < s.ExtraFacets.Len() {
		a, b := s.ExtraFacets.At(i).Key, s.ExtraFacets.At(j).Key
		vc.WBefore(n, a, b, "the entries of ExtraFacets are written in their order")
	}
}

// vcEntriesXML: the entries of the written element.
func vcEntriesXML(s vcXMLAll, n *yaml.Node) {
	if s.XML.IsAttribute.IsPresent() {
		vc.WEntry(n, "attribute", s.XML.IsAttribute.Get(), "the property attribute is written with its current value")
	} else {
		vc.WNone(n, "attribute", "the property attribute is left out when it is not set")
	}
	if s.XML.IsWrapped.IsPresent() {
		vc.WEntry(n, "wrapped", s.XML.IsWrapped.Get(), "the property wrapped is written with its current value")
	} else {
		vc.WNone(n, "wrapped", "the property wrapped is left out when it is not set")
	}
	if s.XML.Name.IsPresent() {
		vc.WEntry(n, "name", s.XML.Name.Get(), "the property name is written with its current value")
	} else {
		vc.WNone(n, "name", "the property name is left out when it is not set")
	}
	if s.XML.Namespace.IsPresent() {
		vc.WEntry(n, "namespace", s.XML.Namespace.Get(), "the property namespace is written with its current value")
	} else {
		vc.WNone(n, "namespace", "the property namespace is left out when it is not set")
	}
	if s.XML.Prefix.IsPresent() {
		vc.WEntry(n, "prefix", s.XML.Prefix.Get(), "the property prefix is written with its current value")
	} else {
		vc.WNone(n, "prefix", "the property prefix is left out when it is not set")
	}
}

// vcOthersXML: every other entry is an annotation or an extra entry.
func vcOthersXML(s vcXMLAll, n *yaml.Node, q interface{}) {
	switch q {
	case "attribute", "wrapped", "name", "namespace", "prefix":
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
