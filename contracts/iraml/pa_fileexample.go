package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC09_FileExample_parse(t raml.FileExample, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcFileExampleState
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadFileExample(t)).(vcFileExampleState) }, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcFileExampleState)
			werr := vcParseFileExample(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadFileExample(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		// not a mapping, or an empty one
		want := vc.Freeze(old).(vcFileExampleState)
		if y.Kind != yaml.MappingNode {
			werr := vcValueFileExample(&want, y)
			vc.Assert(werr == nil, "a value of the wrong kind is an error")
		}
		vc.Check(vcReadFileExample(t), want, "an example that is not a mapping is its own value")
	}
	if how == 0 && err != nil {
		want := vc.Freeze(old).(vcFileExampleState)
		vc.Assert(y.Kind != yaml.MappingNode && vcValueFileExample(&want, y) != nil, "mappings and values of the right kind are examples")
	}
	if how == 2 {
		vc.Check(vcReadFileExample(t), old, "nothing but the entries is stored")
	}
}

func vcValueFileExample(want *vcFileExampleState, v *yaml.Node) error {
	var x interface{} = v
	want.Value = option.NewMaybeUntyped(&x)
	return nil
}

// vcParseFileExample: one entry of the mapping.
func vcParseFileExample(want *vcFileExampleState, k, v *yaml.Node) error {
	if !vcIsText(k) {
		return vcExtra(want.ExtraFacets, k, v)
	}
	if vcPrefixed(k, '(') {
		return vcAnnotate(want.Annotations, k, v)
	}
	switch k.Value {
	case "description":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Description = option.NewMaybeString(&x)
		return nil
	case "displayName":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.DisplayName = option.NewMaybeString(&x)
		return nil
	case "strict":
		x, err := vcBool(v)
		if err != nil {
			return err
		}
		want.Strict = x
		return nil
	}
	if k.Value == "value" {
		return vcValueFileExample(want, v)
	}
	return vcExtra(want.ExtraFacets, k, v)
}
