package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_DateOnlyExample(t raml.DateOnlyExample) {
	vc.Concretely(func() { vcOnly(t, NewDateOnlyExample(), "Description", "DisplayName", "Strict", "Value") })
	vc.Assume(vcReadDateOnlyExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadDateOnlyExample(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadDateOnlyExample(t)).(vcDateOnlyExampleState)
	vc.Assume(s.Value.IsPresent() || s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(!s.Strict)
	vc.Split(s.Value.IsPresent())
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewDateOnlyExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadDateOnlyExample(NewDateOnlyExample())
	ok := true
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	want.Strict = s.Strict
	want.Value = s.Value
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDateOnlyExample(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_DateOnlyExample_extra(t raml.DateOnlyExample, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewDateOnlyExample(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadDateOnlyExample(t).Description.IsPresent()))
	vc.Assume(!(vcReadDateOnlyExample(t).DisplayName.IsPresent()))
	vc.Assume(!(!vcReadDateOnlyExample(t).Strict))
	vc.Assume(!(vcReadDateOnlyExample(t).Value.IsPresent()))
	vc.Assume(vcReadDateOnlyExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadDateOnlyExample(t).ExtraFacets.Len() == 0)
	vc.Assume(annotated || extra)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadDateOnlyExample(NewDateOnlyExample())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadDateOnlyExample(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownDateOnlyExample(ek))
		vcReadDateOnlyExample(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewDateOnlyExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadDateOnlyExample(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadDateOnlyExample(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownDateOnlyExample: the key is the name of no property and no annotation.
func vcUnknownDateOnlyExample(k string) bool {
	switch k {
	case "description", "displayName", "strict", "value":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
