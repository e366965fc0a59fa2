package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_ObjectExample(t raml.ObjectExample, v *yaml.Node, valued bool) {
	vc.Concretely(func() { vcOnly(t, NewObjectExample(), "Description", "DisplayName", "Strict") })
	if valued {
		vc.Assume(v != nil && v.Kind != yaml.MappingNode)
		t.SetValue(v)
	}
	vc.Assume(valued || !vcReadObjectExample(t).Value.IsPresent())
	vc.Split(valued)
	vc.Assume(vcReadObjectExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectExample(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadObjectExample(t)).(vcObjectExampleState)
	vc.Assume(s.Value.IsPresent() || s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(!s.Strict)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewObjectExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	want := vcReadObjectExample(NewObjectExample())
	ok := true
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	want.Strict = s.Strict
	if valued {
		var x interface{} = v
		want.Value = option.NewMaybeUntyped(&x)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectExample(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ObjectExample_extra(t raml.ObjectExample, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewObjectExample(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadObjectExample(t).Description.IsPresent()))
	vc.Assume(!(vcReadObjectExample(t).DisplayName.IsPresent()))
	vc.Assume(!(!vcReadObjectExample(t).Strict))
	vc.Assume(!(vcReadObjectExample(t).Value.IsPresent()))
	vc.Assume(vcReadObjectExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadObjectExample(t).ExtraFacets.Len() == 0)
	vc.Assume(annotated || extra)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadObjectExample(NewObjectExample())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadObjectExample(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownObjectExample(ek))
		vcReadObjectExample(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewObjectExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadObjectExample(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadObjectExample(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownObjectExample: the key is the name of no property and no annotation.
func vcUnknownObjectExample(k string) bool {
	switch k {
	case "description", "displayName", "strict", "value":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
