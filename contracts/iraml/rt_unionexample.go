package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_UnionExample(t raml.UnionExample, v *yaml.Node, valued bool) {
	vc.Concretely(func() { vcOnly(t, NewUnionExample(), "Description", "DisplayName", "Strict") })
	if valued {
		vc.Assume(v != nil && v.Kind != yaml.MappingNode)
		t.SetValue(v)
	}
	vc.Assume(valued || !vcReadUnionExample(t).Value.IsPresent())
	vc.Split(valued)
	vc.Assume(vcReadUnionExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadUnionExample(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadUnionExample(t)).(vcUnionExampleState)
	vc.Assume(s.Value.IsPresent() || s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(!s.Strict)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewUnionExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadUnionExample(NewUnionExample())
	ok := true
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	want.Strict = s.Strict
	if valued {
		var x interface{} = v
		want.Value = option.NewMaybeUntyped(&x)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadUnionExample(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_UnionExample_extra(t raml.UnionExample, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewUnionExample(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadUnionExample(t).Description.IsPresent()))
	vc.Assume(!(vcReadUnionExample(t).DisplayName.IsPresent()))
	vc.Assume(!(!vcReadUnionExample(t).Strict))
	vc.Assume(!(vcReadUnionExample(t).Value.IsPresent()))
	vc.Assume(vcReadUnionExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadUnionExample(t).ExtraFacets.Len() == 0)
	vc.Assume(annotated || extra)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadUnionExample(NewUnionExample())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadUnionExample(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownUnionExample(ek))
		vcReadUnionExample(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewUnionExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadUnionExample(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadUnionExample(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownUnionExample: the key is the name of no property and no annotation.
func vcUnknownUnionExample(k string) bool {
	switch k {
	case "description", "displayName", "strict", "value":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
