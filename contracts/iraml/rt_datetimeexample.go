package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_DatetimeExample(t raml.DatetimeExample) {
	vc.Concretely(func() { vcOnly(t, NewDatetimeExample(), "Description", "DisplayName", "Strict", "Value") })
	vc.Assume(vcReadDatetimeExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeExample(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDatetimeExample(t)).(vcDatetimeExampleState)
	vc.Assume(s.Value.IsPresent() || s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(!s.Strict)
	vc.Split(s.Value.IsPresent())
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDatetimeExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDatetimeExample(NewDatetimeExample())
	ok := true
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	want.Strict = s.Strict
	want.Value = s.Value
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeExample(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_DatetimeExample_extra(t raml.DatetimeExample, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewDatetimeExample(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadDatetimeExample(t).Description.IsPresent()))
	vc.Assume(!(vcReadDatetimeExample(t).DisplayName.IsPresent()))
	vc.Assume(!(!vcReadDatetimeExample(t).Strict))
	vc.Assume(!(vcReadDatetimeExample(t).Value.IsPresent()))
	vc.Assume(vcReadDatetimeExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadDatetimeExample(t).ExtraFacets.Len() == 0)
	vc.Assume(annotated || extra)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadDatetimeExample(NewDatetimeExample())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadDatetimeExample(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownDatetimeExample(ek))
		vcReadDatetimeExample(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewDatetimeExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDatetimeExample(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadDatetimeExample(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownDatetimeExample: the key is the name of no property and no annotation.
func vcUnknownDatetimeExample(k string) bool {
	switch k {
	case "description", "displayName", "strict", "value":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
