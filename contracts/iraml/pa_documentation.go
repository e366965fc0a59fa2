package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC09_Documentation_parse(t raml.Documentation, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcDocumentationState
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadDocumentation(t)).(vcDocumentationState) }, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcDocumentationState)
			werr := vcParseDocumentation(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadDocumentation(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		vc.Check(vcReadDocumentation(t), old, "nothing is stored without entries")
	}
	vcFolded(y, err, how)
	if how == 2 {
		vc.Check(vcReadDocumentation(t), old, "nothing but the entries is stored")
	}
}

// vcParseDocumentation: one entry of the mapping.
func vcParseDocumentation(want *vcDocumentationState, k, v *yaml.Node) error {
	switch k.Value {
	case "content":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Content = x
		return nil
	case "title":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Title = x
		return nil
	}
	return vcExtra(want.ExtraFacets, k, v)
}
