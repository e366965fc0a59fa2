package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC10_Library_parse(t raml.Library, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcLibraryState
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadLibrary(t)).(vcLibraryState) }, y,
		func(y *yaml.Node) error { return t.(yaml.Unmarshaler).UnmarshalYAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcLibraryState)
			werr := vcParseLibrary(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadLibrary(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		vc.Check(vcReadLibrary(t), old, "nothing is stored without entries")
	}
	vcFolded(y, err, how)
	if how == 2 {
		vc.Check(vcReadLibrary(t), old, "nothing but the entries is stored")
	}
}

// vcParseLibrary: one entry of the mapping.
func vcParseLibrary(want *vcLibraryState, k, v *yaml.Node) error {
	switch k.Value {
	case "annotationTypes":
		return VcFillUntypedMap(want.AnnotationTypes, v)
	case "resourceTypes":
		return VcFillUntypedMap(want.ResourceTypes, v)
	case "securitySchemes":
		return VcFillUntypedMap(want.SecuritySchemes, v)
	case "traits":
		return VcFillUntypedMap(want.Traits, v)
	case "types", "schemas":
		return VcFillDataTypeMap(want.Types, v)
	case "usage":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Usage = option.NewMaybeString(&x)
		return nil
	case "uses":
		return VcFillStringMap(want.Uses, v)
	}
	if vcIsText(k) && vcPrefixed(k, '(') {
		return vcAnnotate(want.Annotations, k, v)
	}
	return vcExtra(want.ExtraFacets, k, v)
}
