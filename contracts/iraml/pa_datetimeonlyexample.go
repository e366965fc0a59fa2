package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC09_DatetimeOnlyExample_parse(t raml.DatetimeOnlyExample, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcDatetimeOnlyExampleState
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadDatetimeOnlyExample(t)).(vcDatetimeOnlyExampleState) }, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcDatetimeOnlyExampleState)
			werr := vcParseDatetimeOnlyExample(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadDatetimeOnlyExample(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		// not a mapping, or an empty one
		want := vc.Freeze(old).(vcDatetimeOnlyExampleState)
		if y.Kind != yaml.MappingNode {
			werr := vcValueDatetimeOnlyExample(&want, y)
			vc.Assert(werr == nil, "a value of the wrong kind is an error")
		}
		vc.Check(vcReadDatetimeOnlyExample(t), want, "an example that is not a mapping is its own value")
	}
	if how == 0 && err != nil {
		want := vc.Freeze(old).(vcDatetimeOnlyExampleState)
		vc.Assert(y.Kind != yaml.MappingNode && vcValueDatetimeOnlyExample(&want, y) != nil, "mappings and values of the right kind are examples")
	}
	if how == 2 {
		vc.Check(vcReadDatetimeOnlyExample(t), old, "nothing but the entries is stored")
	}
}

func vcValueDatetimeOnlyExample(want *vcDatetimeOnlyExampleState, v *yaml.Node) error {
	x, err := vcText(v)
	if err != nil {
		return err
	}
	want.Value = option.NewMaybeString(&x)
	return nil
}

// vcParseDatetimeOnlyExample: one entry of the mapping.
func vcParseDatetimeOnlyExample(want *vcDatetimeOnlyExampleState, k, v *yaml.Node) error {
	if !vcIsText(k) {
		return vcExtra(want.ExtraFacets, k, v)
	}
	if vcPrefixed(k, '(') {
		return vcAnnotate(want.Annotations, k, v)
	}
	switch k.Value {
	case "description":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Description = option.NewMaybeString(&x)
		return nil
	case "displayName":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.DisplayName = option.NewMaybeString(&x)
		return nil
	case "strict":
		x, err := vcBool(v)
		if err != nil {
			return err
		}
		want.Strict = x
		return nil
	}
	if k.Value == "value" {
		return vcValueDatetimeOnlyExample(want, v)
	}
	return vcExtra(want.ExtraFacets, k, v)
}
