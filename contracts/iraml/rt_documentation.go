package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC15_Documentation(t raml.Documentation) {
	vc.Concretely(func() { vcOnly(t, NewDocumentation(), "Content", "Title") })
	vc.Assume(t.ExtraFacets().Len() == 0)
	s := vc.Freeze(vcReadDocumentation(t)).(vcDocumentationState)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDocumentation()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDocumentation(NewDocumentation())
	ok := true
	want.Content = s.Content
	want.Title = s.Title
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDocumentation(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_Documentation_extra(t raml.Documentation, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewDocumentation(), "Type", "Title", "Content") })
	vc.Assume(vcReadDocumentation(t).ExtraFacets.Len() == 0)
	vc.Split(extra)
	want := vcReadDocumentation(NewDocumentation())
	if extra {
		vc.Assume(ev != nil && vcUnknownDocumentation(ek))
		vcReadDocumentation(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewDocumentation()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDocumentation(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
	}
}

// vcUnknownDocumentation: the key is the name of no property and no annotation.
func vcUnknownDocumentation(k string) bool {
	switch k {
	case "content", "title":
		return false
	}
	return true
}
