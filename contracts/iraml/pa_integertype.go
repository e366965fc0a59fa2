package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC08_IntegerType_parse(t raml.IntegerType, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcIntegerTypeState
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadIntegerType(t)).(vcIntegerTypeState) }, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcIntegerTypeState)
			werr := vcParseIntegerType(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadIntegerType(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		want := vc.Freeze(old).(vcIntegerTypeState)
		if vcIsText(y) {
			want.Type, want.Schema = y.Value, y.Value
		} else {
			vc.Assert(y.Kind == yaml.MappingNode && len(y.Content) == 0, "a declaration is text or a mapping")
		}
		vc.Check(vcReadIntegerType(t), want, "a declaration given as text has that type")
	}
	vc.Assert(how != 0 || err == nil || !vcIsText(y) && y.Kind != yaml.MappingNode, "text and mappings are declarations")
	if how == 2 {
		vc.Check(vcReadIntegerType(t), old, "nothing but the entries is stored")
	}
}

// vcParseIntegerType: one entry of a declaration.
func vcParseIntegerType(want *vcIntegerTypeState, k, v *yaml.Node) error {
	switch k.Value {
	case "default":
		x, err := vcInt(v)
		if err != nil {
			return err
		}
		want.Default = option.NewMaybeInt64(&x)
		return nil
	case "description":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Description = option.NewMaybeString(&x)
		return nil
	case "displayName":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.DisplayName = option.NewMaybeString(&x)
		return nil
	case "enum":
		if err := vcSeq(v); err != nil {
			return err
		}
		vc.Assume(len(want.Enum) == 0)
		for i := 0; i < len(v.Content); i++ {
			c := v.Content[i]
			x, err := vcInt(c)
			if err != nil {
				return err
			}
			want.Enum = append(want.Enum, x)
		}
		return nil
	case "example":
		x := NewIntegerExample()
		if err := x.UnmarshalRAML(v); err != nil {
			return err
		}
		want.Example = x
		return nil
	case "examples":
		return VcFillIntegerExampleMap(want.Examples, v)
	case "facets":
		return VcFillFacetMap(want.FacetDefinitions, v)
	case "format":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		f := IntegerFormat(x)
		want.Format = &f
		return nil
	case "maximum":
		x, err := vcInt(v)
		if err != nil {
			return err
		}
		want.Maximum = option.NewMaybeInt64(&x)
		return nil
	case "minimum":
		x, err := vcInt(v)
		if err != nil {
			return err
		}
		want.Minimum = option.NewMaybeInt64(&x)
		return nil
	case "multipleOf":
		x, err := vcFloat(v)
		if err != nil {
			return err
		}
		want.MultipleOf = option.NewMaybeFloat64(&x)
		return nil
	case "xml":
		x := NewXML()
		if err := x.UnmarshalRAML(v); err != nil {
			return err
		}
		want.XML = x
		return nil
	case "required":
		x, err := vcBool(v)
		if err != nil {
			return err
		}
		want.Required = x
		return nil
	case "type", "schema":
		if v.Tag == "!include" {
			want.Type, want.Schema = v.Value, v.Value
			return nil
		}
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.Type, want.Schema = x, x
		return nil
	}
	if vcIsText(k) && vcPrefixed(k, '(') {
		return vcAnnotate(want.Annotations, k, v)
	}
	want.ExtraFacets.Put(k.Value, v)
	return nil
}
