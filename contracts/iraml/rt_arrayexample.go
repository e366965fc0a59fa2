package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_ArrayExample(t raml.ArrayExample) {
	vc.Concretely(func() { vcOnly(t, NewArrayExample(), "Description", "DisplayName", "Strict", "Value") })
	vc.Assume(vcReadArrayExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayExample(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadArrayExample(t)).(vcArrayExampleState)
	vc.Assume(s.Value == nil || len(s.Value) > 0)
	vc.Assume(len(s.Value) > 0 || s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.DisplayName.IsPresent())
	vc.Split(!s.Strict)
	vc.Split(len(s.Value) > 0)
	n, err := t.(xyml.Marshaler).ToYAML()
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewArrayExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	at := n
	if s.DisplayName.IsPresent() || s.Description.IsPresent() || !s.Strict {
		at = vcAt(n, "value")
	}
	want := vcReadArrayExample(NewArrayExample())
	ok := true
	want.Description = s.Description
	want.DisplayName = s.DisplayName
	want.Strict = s.Strict
	if len(s.Value) > 0 {
		var l []interface{}
		for i := 0; i < len(at.Content); i++ {
			l = append(l, at.Content[i])
		}
		vcNode(at, s.Value, "an untyped list is written as it converts")
		want.Value = l
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayExample(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_ArrayExample_extra(t raml.ArrayExample, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewArrayExample(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadArrayExample(t).Description.IsPresent()))
	vc.Assume(!(vcReadArrayExample(t).DisplayName.IsPresent()))
	vc.Assume(!(!vcReadArrayExample(t).Strict))
	vc.Assume(vcReadArrayExample(t).Value == nil)
	vc.Assume(vcReadArrayExample(t).Annotations.Len() == 0)
	vc.Assume(vcReadArrayExample(t).ExtraFacets.Len() == 0)
	vc.Assume(annotated || extra)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadArrayExample(NewArrayExample())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadArrayExample(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownArrayExample(ek))
		vcReadArrayExample(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	n, err := t.(xyml.Marshaler).ToYAML()
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewArrayExample()
	vc.Real()
	perr := raml.Unmarshaler(b).UnmarshalRAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadArrayExample(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadArrayExample(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownArrayExample: the key is the name of no property and no annotation.
func vcUnknownArrayExample(k string) bool {
	switch k {
	case "description", "displayName", "strict", "value":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
