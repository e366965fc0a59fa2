package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC12_CustomType_ToYAML(t raml.CustomType, q interface{}) {
	s := vc.Freeze(vcReadCustomType(t)).(vcCustomTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!s.ExtraFacets.Has("type"))
	vc.Assume(!s.Annotations.Has("type"))
	vc.Assume(!s.ExtraFacets.Has("default"))
	vc.Assume(!s.Annotations.Has("default"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("displayName"))
	vc.Assume(!s.Annotations.Has("displayName"))
	vc.Assume(!s.ExtraFacets.Has("enum"))
	vc.Assume(!s.Annotations.Has("enum"))
	vc.Assume(!s.ExtraFacets.Has("example"))
	vc.Assume(!s.Annotations.Has("example"))
	vc.Assume(!s.ExtraFacets.Has("examples"))
	vc.Assume(!s.Annotations.Has("examples"))
	vc.Assume(!s.ExtraFacets.Has("facets"))
	vc.Assume(!s.Annotations.Has("facets"))
	vc.Assume(!s.ExtraFacets.Has("xml"))
	vc.Assume(!s.Annotations.Has("xml"))
	vc.Assume(!s.ExtraFacets.Has("required"))
	vc.Assume(!s.Annotations.Has("required"))
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Check(vcReadCustomType(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	if !(s.Default.IsPresent() || s.Description.IsPresent() || s.DisplayName.IsPresent() || len(s.Enum) > 0 || s.Example != nil || s.Examples.Len() > 0 || s.FacetDefinitions.Len() > 0 || s.XML != nil || !s.Required || s.Annotations.Len() > 0 || s.ExtraFacets.Len() > 0) {
		vcBare(n, s.Type)
		return
	}
	vc.Assert(vc.WMap(n), "a declaration with more than its type is written as a mapping")
	vcEntriesCustomType(s, n)
	vcOthersCustomType(s, n, q)
}

func VcC12_CustomType_MarshalYAML(t raml.CustomType, q interface{}) {
	s := vc.Freeze(vcReadCustomType(t)).(vcCustomTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!s.ExtraFacets.Has("type"))
	vc.Assume(!s.Annotations.Has("type"))
	vc.Assume(!s.ExtraFacets.Has("default"))
	vc.Assume(!s.Annotations.Has("default"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("displayName"))
	vc.Assume(!s.Annotations.Has("displayName"))
	vc.Assume(!s.ExtraFacets.Has("enum"))
	vc.Assume(!s.Annotations.Has("enum"))
	vc.Assume(!s.ExtraFacets.Has("example"))
	vc.Assume(!s.Annotations.Has("example"))
	vc.Assume(!s.ExtraFacets.Has("examples"))
	vc.Assume(!s.Annotations.Has("examples"))
	vc.Assume(!s.ExtraFacets.Has("facets"))
	vc.Assume(!s.Annotations.Has("facets"))
	vc.Assume(!s.ExtraFacets.Has("xml"))
	vc.Assume(!s.Annotations.Has("xml"))
	vc.Assume(!s.ExtraFacets.Has("required"))
	vc.Assume(!s.Annotations.Has("required"))
	r, err := t.(yaml.Marshaler).MarshalYAML()
	n, _ := r.(*yaml.Node)
	vc.Check(vcReadCustomType(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	if !(s.Default.IsPresent() || s.Description.IsPresent() || s.DisplayName.IsPresent() || len(s.Enum) > 0 || s.Example != nil || s.Examples.Len() > 0 || s.FacetDefinitions.Len() > 0 || s.XML != nil || !s.Required || s.Annotations.Len() > 0 || s.ExtraFacets.Len() > 0) {
		vcBare(n, s.Type)
		return
	}
	vc.Assert(vc.WMap(n), "a declaration with more than its type is written as a mapping")
	vcEntriesCustomType(s, n)
	vcOthersCustomType(s, n, q)
}

func VcC12_CustomType_order(t raml.CustomType, i, j int) {
	s := vc.Freeze(vcReadCustomType(t)).(vcCustomTypeState)
	vc.Assume(s.Enum == nil || len(s.Enum) > 0)
	vc.Assume(!s.Annotations.Has("type"))
	vc.Assume(!s.ExtraFacets.Has("type"))
	vc.Assume(!s.Annotations.Has("default"))
	vc.Assume(!s.ExtraFacets.Has("default"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("displayName"))
	vc.Assume(!s.ExtraFacets.Has("displayName"))
	vc.Assume(!s.Annotations.Has("enum"))
	vc.Assume(!s.ExtraFacets.Has("enum"))
	vc.Assume(!s.Annotations.Has("example"))
	vc.Assume(!s.ExtraFacets.Has("example"))
	vc.Assume(!s.Annotations.Has("examples"))
	vc.Assume(!s.ExtraFacets.Has("examples"))
	vc.Assume(!s.Annotations.Has("facets"))
	vc.Assume(!s.ExtraFacets.Has("facets"))
	vc.Assume(!s.Annotations.Has("xml"))
	vc.Assume(!s.ExtraFacets.Has("xml"))
	vc.Assume(!s.Annotations.Has("required"))
	vc.Assume(!s.ExtraFacets.Has("required"))
	vc.Assume(0 <= i && i < j)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil || !vc.WMap(n) {
		return
	}
	if j < s.Annotations.Len() {
		a, b := s.Annotations.At(i).Key, s.Annotations.At(j).Key
		vc.Assume(!s.ExtraFacets.Has(a))
		vc.Assume(!s.ExtraFacets.Has(b))
		vc.WBefore(n, a, b, "the entries of Annotations are written in their order")
	}
	if j < s.ExtraFacets.Len() {
		a, b := s.ExtraFacets.At(i).Key, s.ExtraFacets.At(j).Key
		if w, ok := a.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		if w, ok := b.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		vc.WBefore(n, a, b, "the entries of ExtraFacets are written in their order")
	}
}

// vcEntriesCustomType: the entries of a written declaration.
func vcEntriesCustomType(s vcCustomTypeState, n *yaml.Node) {
	vc.WEntry(n, "type", s.Type, "the type is written")
	if s.Default.IsPresent() {
		vc.WEntry(n, "default", s.Default.Get(), "the property default is written with its current value")
	} else {
		vc.WNone(n, "default", "the property default is left out when it is not set")
	}
	if s.Description.IsPresent() {
		vc.WEntry(n, "description", s.Description.Get(), "the property description is written with its current value")
	} else {
		vc.WNone(n, "description", "the property description is left out when it is not set")
	}
	if s.DisplayName.IsPresent() {
		vc.WEntry(n, "displayName", s.DisplayName.Get(), "the property displayName is written with its current value")
	} else {
		vc.WNone(n, "displayName", "the property displayName is left out when it is not set")
	}
	if len(s.Enum) > 0 {
		vc.WEntry(n, "enum", s.Enum, "the property enum is written with its current value")
	} else {
		vc.WNone(n, "enum", "the property enum is left out when it is not set")
	}
	if s.Example != nil {
		vc.WEntry(n, "example", s.Example, "the property example is written with its current value")
	} else {
		vc.WNone(n, "example", "the property example is left out when it is not set")
	}
	if s.Examples.Len() > 0 {
		vc.WEntry(n, "examples", s.Examples, "the property examples is written with its current value")
	} else {
		vc.WNone(n, "examples", "the property examples is left out when it is not set")
	}
	if s.FacetDefinitions.Len() > 0 {
		vc.WEntry(n, "facets", s.FacetDefinitions, "the property facets is written with its current value")
	} else {
		vc.WNone(n, "facets", "the property facets is left out when it is not set")
	}
	if s.XML != nil {
		vc.WEntry(n, "xml", s.XML, "the property xml is written with its current value")
	} else {
		vc.WNone(n, "xml", "the property xml is left out when it is not set")
	}
	if !s.Required {
		vc.WEntry(n, "required", false, "the property required is written with its current value")
	} else {
		vc.WNone(n, "required", "the property required is left out when it is not set")
	}
}

// vcOthersCustomType: every other entry is an annotation or an extra entry.
func vcOthersCustomType(s vcCustomTypeState, n *yaml.Node, q interface{}) {
	switch q {
	case "type", "default", "description", "displayName", "enum", "example", "examples", "facets", "xml", "required":
		return
	}
	if w, ok := q.(string); ok && s.Annotations.Has(w) {
		vc.Assume(!s.ExtraFacets.Has(q))
		v, _ := s.Annotations.Get(w)
		vc.WEntry(n, q, v, "each entry of Annotations is written under its own key")
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
