package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC13_Documentation_ToYAML(t raml.Documentation, q interface{}) {
	s := vc.Freeze(vcReadDocumentation(t)).(vcDocumentationState)
	vc.Assume(!s.ExtraFacets.Has("content"))
	vc.Assume(!s.ExtraFacets.Has("title"))
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Check(vcReadDocumentation(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesDocumentation(s, n)
	vcOthersDocumentation(s, n, q)
}

// vcEntriesDocumentation: the entries of the written element.
func vcEntriesDocumentation(s vcDocumentationState, n *yaml.Node) {
	if true {
		vc.WEntry(n, "content", s.Content, "the property content is written with its current value")
	} else {
		vc.WNone(n, "content", "the property content is left out when it is not set")
	}
	if true {
		vc.WEntry(n, "title", s.Title, "the property title is written with its current value")
	} else {
		vc.WNone(n, "title", "the property title is left out when it is not set")
	}
}

// vcOthersDocumentation: every other entry is an annotation or an extra entry.
func vcOthersDocumentation(s vcDocumentationState, n *yaml.Node, q interface{}) {
	switch q {
	case "content", "title":
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
