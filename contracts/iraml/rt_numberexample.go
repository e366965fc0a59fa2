package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_NumberExample(t raml.NumberExample) {
	vc.Concretely(func() { vcOnly(t, NewNumberExample(), "Description", "DisplayName", "Strict", "Value") })
	vc.Assume(vcReadNumberExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadNumberExample(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadNumberExample(t)).(vcNumberExampleState)
	vc.Assume(s.Value.IsPresent() || s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(!s.Strict)
	vc.Split(s.Value.IsPresent())
	vc.Assume(!(s.Value.IsPresent()) || vcTenDigits(s.Value.Get()))
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewNumberExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadNumberExample(NewNumberExample())
	ok := true
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	want.Strict = s.Strict
	want.Value = s.Value
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadNumberExample(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_NumberExample_extra(t raml.NumberExample, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewNumberExample(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadNumberExample(t).Description.IsPresent()))
	vc.Assume(!(vcReadNumberExample(t).DisplayName.IsPresent()))
	vc.Assume(!(!vcReadNumberExample(t).Strict))
	vc.Assume(!(vcReadNumberExample(t).Value.IsPresent()))
	vc.Assume(vcReadNumberExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadNumberExample(t).ExtraFacets.Len() == 0)
	vc.Assume(annotated || extra)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadNumberExample(NewNumberExample())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadNumberExample(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownNumberExample(ek))
		vcReadNumberExample(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewNumberExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadNumberExample(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadNumberExample(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownNumberExample: the key is the name of no property and no annotation.
func vcUnknownNumberExample(k string) bool {
	switch k {
	case "description", "displayName", "strict", "value":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
