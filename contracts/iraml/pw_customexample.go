package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC13_CustomExample_ToYAML(t raml.CustomExample, q interface{}) {
	s := vc.Freeze(vcReadCustomExample(t)).(vcCustomExampleState)
	vc.Assume(!s.Annotations.Has("displayName"))
	vc.Assume(!s.ExtraFacets.Has("displayName"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("value"))
	vc.Assume(!s.ExtraFacets.Has("value"))
	vc.Assume(!s.Annotations.Has("strict"))
	vc.Assume(!s.ExtraFacets.Has("strict"))
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Check(vcReadCustomExample(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	if !(s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict || s.Annotations.Len() > 0 || s.ExtraFacets.Len() > 0) {
		if !s.Value.IsPresent() {
			vcNode(n, nil, "an example without a value is written as null")
			return
		}
		vcNode(n, s.Value.Get(), "an example without metadata is written as its bare value")
		return
	}
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesCustomExample(s, n)
	vcOthersCustomExample(s, n, q)
}

func VcC13_CustomExample_order(t raml.CustomExample, i, j int) {
	s := vc.Freeze(vcReadCustomExample(t)).(vcCustomExampleState)
	vc.Assume(!s.Annotations.Has("displayName"))
	vc.Assume(!s.ExtraFacets.Has("displayName"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("value"))
	vc.Assume(!s.ExtraFacets.Has("value"))
	vc.Assume(!s.Annotations.Has("strict"))
	vc.Assume(!s.ExtraFacets.Has("strict"))
	vc.Assume(0 <= i && i < j)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil || !vc.WMap(n) {
		return
	}
	if j < s.Annotations.Len() {
		a, b := s.Annotations.At(i).Key, s.Annotations.At(j).Key
		vc.Assume(!s.ExtraFacets.Has(a))
		vc.Assume(!s.ExtraFacets.Has(b))
		vc.WBefore(n, a, b, "the entries of Annotations are written in their order")
	}
	if j < s.ExtraFacets.Len() {
		a, b := s.ExtraFacets.At(i).Key, s.ExtraFacets.At(j).Key
		if w, ok := a.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		if w, ok := b.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		vc.WBefore(n, a, b, "the entries of ExtraFacets are written in their order")
	}
}

// vcEntriesCustomExample: the entries of the written element.
func vcEntriesCustomExample(s vcCustomExampleState, n *yaml.Node) {
	if s.DisplayName.IsPresent() {
		vc.WEntry(n, "displayName", s.DisplayName.Get(), "the property displayName is written with its current value")
	} else {
		vc.WNone(n, "displayName", "the property displayName is left out when it is not set")
	}
	if s.Description.IsPresent() {
		vc.WEntry(n, "description", s.Description.Get(), "the property description is written with its current value")
	} else {
		vc.WNone(n, "description", "the property description is left out when it is not set")
	}
	if s.Value.IsPresent() {
		vc.WEntry(n, "value", s.Value.Get(), "the property value is written with its current value")
	} else {
		vc.WNone(n, "value", "the property value is left out when it is not set")
	}
	if !s.Strict {
		vc.WEntry(n, "strict", false, "the property strict is written with its current value")
	} else {
		vc.WNone(n, "strict", "the property strict is left out when it is not set")
	}
}

// vcOthersCustomExample: every other entry is an annotation or an extra entry.
func vcOthersCustomExample(s vcCustomExampleState, n *yaml.Node, q interface{}) {
	switch q {
	case "displayName", "description", "value", "strict":
		return
	}
	if w, ok := q.(string); ok && s.Annotations.Has(w) {
		vc.Assume(!s.ExtraFacets.Has(q))
		v, _ := s.Annotations.Get(w)
		vc.WEntry(n, q, v, "each entry of Annotations is written under its own key")
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
