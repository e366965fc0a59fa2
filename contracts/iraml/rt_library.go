package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_Library(t raml.Library) {
	vc.Concretely(func() {
		vcOnly(t, NewLibrary(), "AnnotationTypes", "ResourceTypes", "SecuritySchemes", "Traits", "Types", "Usage", "Uses")
	})
	vc.Assume(vcReadLibrary(t).Annotations.Len() == 0)
	vc.Assume(vcReadLibrary(t).ExtraFacets.Len() == 0)
	s := vc.Freeze(vcReadLibrary(t)).(vcLibraryState)
	vc.Split(s.AnnotationTypes.Len() > 0)
	vc.Split(s.ResourceTypes.Len() > 0)
	vc.Split(s.SecuritySchemes.Len() > 0)
	vc.Split(s.Traits.Len() > 0)
	vc.Split(s.Types.Len() > 0)
	vc.Split(s.Usage.IsPresent())
	vc.Split(s.Uses.Len() > 0)
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewLibrary()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	want := vcReadLibrary(NewLibrary())
	ok := true
	if s.AnnotationTypes.Len() > 0 {
		vc.Written(vcAt(n, "annotationTypes"), s.AnnotationTypes, "annotationTypes are written as a whole")
		ok = VcFillUntypedMap(want.AnnotationTypes, vcAt(n, "annotationTypes")) == nil && ok
	}
	if s.ResourceTypes.Len() > 0 {
		vc.Written(vcAt(n, "resourceTypes"), s.ResourceTypes, "resourceTypes are written as a whole")
		ok = VcFillUntypedMap(want.ResourceTypes, vcAt(n, "resourceTypes")) == nil && ok
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.Written(vcAt(n, "securitySchemes"), s.SecuritySchemes, "securitySchemes are written as a whole")
		ok = VcFillUntypedMap(want.SecuritySchemes, vcAt(n, "securitySchemes")) == nil && ok
	}
	if s.Traits.Len() > 0 {
		vc.Written(vcAt(n, "traits"), s.Traits, "traits are written as a whole")
		ok = VcFillUntypedMap(want.Traits, vcAt(n, "traits")) == nil && ok
	}
	if s.Types.Len() > 0 {
		vc.Written(vcAt(n, "types"), s.Types, "types are written as a whole")
		ok = VcFillDataTypeMap(want.Types, vcAt(n, "types")) == nil && ok
	}
	want.Usage = s.Usage
	if s.Uses.Len() > 0 {
		vc.Written(vcAt(n, "uses"), s.Uses, "uses are written as a whole")
		ok = VcFillStringMap(want.Uses, vcAt(n, "uses")) == nil && ok
	}
	want.Schemas = want.Types
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadLibrary(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_Library_extra(t raml.Library, ak, ik string, av *yaml.Node, annotated, filled bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewLibrary(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadLibrary(t).AnnotationTypes.Len() > 0))
	vc.Assume(!(vcReadLibrary(t).ResourceTypes.Len() > 0))
	vc.Assume(!(vcReadLibrary(t).SecuritySchemes.Len() > 0))
	vc.Assume(!(vcReadLibrary(t).Traits.Len() > 0))
	vc.Assume(!(vcReadLibrary(t).Types.Len() > 0))
	vc.Assume(!(vcReadLibrary(t).Usage.IsPresent()))
	vc.Assume(!(vcReadLibrary(t).Uses.Len() > 0))
	vc.Assume(vcReadLibrary(t).Annotations.Len() == 0)
	vc.Assume(vcReadLibrary(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	want := vcReadLibrary(NewLibrary())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadLibrary(t).Annotations.Put(ak, m)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownLibrary(ek))
		vcReadLibrary(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewLibrary()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadLibrary(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadLibrary(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownLibrary: the key is the name of no property and no annotation.
func vcUnknownLibrary(k string) bool {
	switch k {
	case "schemas", "annotationTypes", "resourceTypes", "securitySchemes", "traits", "types", "usage", "uses":
		return false
	}
	return !strings.HasPrefix(k, "(")
}
