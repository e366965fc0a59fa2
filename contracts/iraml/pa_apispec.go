package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC10_APISpec_parse(t raml.APISpec, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcAPISpecState
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState) }, y,
		func(y *yaml.Node) error { return t.(yaml.Unmarshaler).UnmarshalYAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcAPISpecState)
			werr := vcParseAPISpec(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadAPISpec(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		vc.Check(vcReadAPISpec(t), old, "nothing is stored without entries")
	}
	vcFolded(y, err, how)
	if how == 2 {
		vc.Check(vcReadAPISpec(t), old, "nothing but the entries is stored")
	}
}

// vcParseAPISpec: one entry of the mapping.
func vcParseAPISpec(want *vcAPISpecState, k, v *yaml.Node) error {
	if !vcIsText(k) {
		return vcExtra(want.ExtraFacets, k, v)
	}
	if vcPrefixed(k, '(') {
		return vcAnnotate(want.Annotations, k, v)
	}
	if vcPrefixed(k, '/') {
		want.Resources.Put(k.Value, v)
		return nil
	}
	switch k.Value {
	case "annotationTypes":
		return VcFillUntypedMap(want.AnnotationTypes, v)
	case "baseUri":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.BaseURI = option.NewMaybeString(&x)
		return nil
	case "baseUriParameters":
		return VcFillUntypedMap(want.BaseURIParameters, v)
	case "description":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Description = option.NewMaybeString(&x)
		return nil
	case "documentation":
		if err := vcSeq(v); err != nil {
			return err
		}
		vc.Assume(len(want.Documentation) == 0)
		for i := 0; i < len(v.Content); i++ {
			x := NewDocumentation()
			if err := x.UnmarshalRAML(v.Content[i]); err != nil {
				return err
			}
			want.Documentation = append(want.Documentation, x)
		}
		return nil
	case "mediaType":
		if vcIsText(v) {
			vc.Assume(len(want.MediaTypes) == 0)
			want.MediaTypes = []string{v.Value}
			return nil
		}
		x, err := vcTexts(v)
		if err != nil {
			return err
		}
		want.MediaTypes = x
		return nil
	case "protocols":
		x, err := vcTexts(v)
		if err != nil {
			return err
		}
		want.Protocols = x
		return nil
	case "resourceTypes":
		return VcFillUntypedMap(want.ResourceTypes, v)
	case "securedBy":
		x, err := vcTexts(v)
		if err != nil {
			return err
		}
		want.SecuredBy = x
		return nil
	case "securitySchemes":
		return VcFillUntypedMap(want.SecuritySchemes, v)
	case "title":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Title = x
		return nil
	case "traits":
		return VcFillUntypedMap(want.Traits, v)
	case "types", "schemas":
		return VcFillDataTypeMap(want.Types, v)
	case "uses":
		return VcFillStringMap(want.Uses, v)
	case "version":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Version = option.NewMaybeString(&x)
		return nil
	}
	return vcExtra(want.ExtraFacets, k, v)
}
