package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC12_IncludeType_ToYAML(t raml.IncludeType, q interface{}) {
	s := vc.Freeze(vcReadIncludeType(t)).(vcIncludeTypeState)
	vc.Assume(!s.ExtraFacets.Has("type"))
	vc.Assume(!s.ExtraFacets.Has("required"))
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Check(vcReadIncludeType(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	if !(!s.Required || s.ExtraFacets.Len() > 0) {
		vcBareInclude(n, s.Type)
		return
	}
	vc.Assert(vc.WMap(n), "a declaration with more than its type is written as a mapping")
	vcEntriesIncludeType(s, n)
	vcOthersIncludeType(s, n, q)
}

func VcC12_IncludeType_MarshalYAML(t raml.IncludeType, q interface{}) {
	s := vc.Freeze(vcReadIncludeType(t)).(vcIncludeTypeState)
	vc.Assume(!s.ExtraFacets.Has("type"))
	vc.Assume(!s.ExtraFacets.Has("required"))
	r, err := t.(yaml.Marshaler).MarshalYAML()
	n, _ := r.(*yaml.Node)
	vc.Check(vcReadIncludeType(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	if !(!s.Required || s.ExtraFacets.Len() > 0) {
		vcBareInclude(n, s.Type)
		return
	}
	vc.Assert(vc.WMap(n), "a declaration with more than its type is written as a mapping")
	vcEntriesIncludeType(s, n)
	vcOthersIncludeType(s, n, q)
}

func VcC12_IncludeType_order(t raml.IncludeType, i, j int) {
	s := vc.Freeze(vcReadIncludeType(t)).(vcIncludeTypeState)
	vc.Assume(!s.ExtraFacets.Has("type"))
	vc.Assume(!s.ExtraFacets.Has("required"))
	vc.Assume(0 <= i && i < j)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil || !vc.WMap(n) {
		return
	}
	if j < s.ExtraFacets.Len() {
		a, b := s.ExtraFacets.At(i).Key, s.ExtraFacets.At(j).Key
		vc.WBefore(n, a, b, "the entries of ExtraFacets are written in their order")
	}
}

// vcEntriesIncludeType: the entries of a written declaration.
func vcEntriesIncludeType(s vcIncludeTypeState, n *yaml.Node) {
	vc.WEntry(n, "type", vcIncluded(s.Type), "the type is written")
	if !s.Required {
		vc.WEntry(n, "required", false, "the property required is written with its current value")
	} else {
		vc.WNone(n, "required", "the property required is left out when it is not set")
	}
}

// vcOthersIncludeType: every other entry is an annotation or an extra entry.
func vcOthersIncludeType(s vcIncludeTypeState, n *yaml.Node, q interface{}) {
	switch q {
	case "type", "required":
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
