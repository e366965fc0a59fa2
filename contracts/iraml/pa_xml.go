package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC09_XML_parse(t raml.XML, y *yaml.Node) {
	vc.Assume(y != nil)
	var old vcXMLAll
	err, how := vc.FoldMap(func() { old = vc.Freeze(vcReadXMLAll(t)).(vcXMLAll) }, y,
		func(y *yaml.Node) error { return t.(raml.Unmarshaler).UnmarshalRAML(y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(vcXMLAll)
			werr := vcParseXML(&want, k, v)
			vc.Assert((err == nil) == (werr == nil), "a value of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(vcReadXMLAll(t), want, "the entry sets its own property")
			}
		})
	if how == 0 && err == nil {
		vc.Check(vcReadXMLAll(t), old, "nothing is stored without entries")
	}
	vcFolded(y, err, how)
	if how == 2 {
		vc.Check(vcReadXMLAll(t), old, "nothing but the entries is stored")
	}
}

// vcParseXML: one entry of the mapping.
func vcParseXML(want *vcXMLAll, k, v *yaml.Node) error {
	switch k.Value {
	case "attribute":
		x, err := vcBool(v)
		if err != nil {
			return err
		}
		want.XML.IsAttribute = option.NewMaybeBool(&x)
		return nil
	case "wrapped":
		x, err := vcBool(v)
		if err != nil {
			return err
		}
		want.XML.IsWrapped = option.NewMaybeBool(&x)
		return nil
	case "name":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.XML.Name = option.NewMaybeString(&x)
		return nil
	case "namespace":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.XML.Namespace = option.NewMaybeString(&x)
		return nil
	case "prefix":
		x, err := vcText(v)
		if err != nil {
			return err
		}
		want.XML.Prefix = option.NewMaybeString(&x)
		return nil
	}
	return vcExtra(want.ExtraFacets, k, v)
}

// vcXMLAll is an XML element with the entries it does not know.
type vcXMLAll struct {
	XML         vcXMLState
	ExtraFacets raml.AnyMap
}

func vcReadXMLAll(t raml.XML) vcXMLAll {
	return vcXMLAll{vcReadXML(t), t.(*XML).extra}
}
