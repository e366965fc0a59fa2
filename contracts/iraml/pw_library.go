package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC14_Library_MarshalYAML(t raml.Library, q interface{}) {
	s := vc.Freeze(vcReadLibrary(t)).(vcLibraryState)
	vc.Assume(!s.Annotations.Has("annotationTypes"))
	vc.Assume(!s.ExtraFacets.Has("annotationTypes"))
	vc.Assume(!s.Annotations.Has("resourceTypes"))
	vc.Assume(!s.ExtraFacets.Has("resourceTypes"))
	vc.Assume(!s.Annotations.Has("securitySchemes"))
	vc.Assume(!s.ExtraFacets.Has("securitySchemes"))
	vc.Assume(!s.Annotations.Has("traits"))
	vc.Assume(!s.ExtraFacets.Has("traits"))
	vc.Assume(!s.Annotations.Has("types"))
	vc.Assume(!s.ExtraFacets.Has("types"))
	vc.Assume(!s.Annotations.Has("usage"))
	vc.Assume(!s.ExtraFacets.Has("usage"))
	vc.Assume(!s.Annotations.Has("uses"))
	vc.Assume(!s.ExtraFacets.Has("uses"))
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	vc.Check(vcReadLibrary(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesLibrary(s, n)
	vcOthersLibrary(s, n, q)
}

func VcC14_Library_order(t raml.Library, i, j int) {
	s := vc.Freeze(vcReadLibrary(t)).(vcLibraryState)
	vc.Assume(!s.Annotations.Has("annotationTypes"))
	vc.Assume(!s.ExtraFacets.Has("annotationTypes"))
	vc.Assume(!s.Annotations.Has("resourceTypes"))
	vc.Assume(!s.ExtraFacets.Has("resourceTypes"))
	vc.Assume(!s.Annotations.Has("securitySchemes"))
	vc.Assume(!s.ExtraFacets.Has("securitySchemes"))
	vc.Assume(!s.Annotations.Has("traits"))
	vc.Assume(!s.ExtraFacets.Has("traits"))
	vc.Assume(!s.Annotations.Has("types"))
	vc.Assume(!s.ExtraFacets.Has("types"))
	vc.Assume(!s.Annotations.Has("usage"))
	vc.Assume(!s.ExtraFacets.Has("usage"))
	vc.Assume(!s.Annotations.Has("uses"))
	vc.Assume(!s.ExtraFacets.Has("uses"))
	vc.Assume(0 <= i && i < j)
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil || !vc.WMap(n) {
		return
	}
	if j < s.Annotations.Len() {
		a, b := s.Annotations.At(i).Key, s.Annotations.At(j).Key
		vc.Assume(!s.ExtraFacets.Has(a))
		vc.Assume(!s.ExtraFacets.Has(b))
		vc.WBefore(n, a, b, "the entries of Annotations are written in their order")
	}
	if j < s.ExtraFacets.Len() {
		a, b := s.ExtraFacets.At(i).Key, s.ExtraFacets.At(j).Key
		if w, ok := a.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		if w, ok := b.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		vc.WBefore(n, a, b, "the entries of ExtraFacets are written in their order")
	}
}

func VcC14_Library_WriteRAML(t raml.Library, q interface{}, limit int) {
	s := vc.Freeze(vcReadLibrary(t)).(vcLibraryState)
	vc.Assume(!s.Annotations.Has("annotationTypes"))
	vc.Assume(!s.ExtraFacets.Has("annotationTypes"))
	vc.Assume(!s.Annotations.Has("resourceTypes"))
	vc.Assume(!s.ExtraFacets.Has("resourceTypes"))
	vc.Assume(!s.Annotations.Has("securitySchemes"))
	vc.Assume(!s.ExtraFacets.Has("securitySchemes"))
	vc.Assume(!s.Annotations.Has("traits"))
	vc.Assume(!s.ExtraFacets.Has("traits"))
	vc.Assume(!s.Annotations.Has("types"))
	vc.Assume(!s.ExtraFacets.Has("types"))
	vc.Assume(!s.Annotations.Has("usage"))
	vc.Assume(!s.ExtraFacets.Has("usage"))
	vc.Assume(!s.Annotations.Has("uses"))
	vc.Assume(!s.ExtraFacets.Has("uses"))
	w := vc.NewSink(limit)
	err := t.WriteRAML(w)
	vc.Check(vcReadLibrary(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(w.Failed() || vc.WFailed(), "only a failing destination or a value that cannot be converted makes writing fail")
		return
	}
	vc.Assert(!w.Failed(), "a failure of the destination is returned")
	head, n := w.Document()
	vc.Assert(head == "#%RAML 1.0 Library", "the output starts with the header line of the document kind")
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesLibrary(s, n)
	vcOthersLibrary(s, n, q)
}

// vcEntriesLibrary: the entries of the written element.
func vcEntriesLibrary(s vcLibraryState, n *yaml.Node) {
	if s.AnnotationTypes.Len() > 0 {
		vc.WEntry(n, "annotationTypes", s.AnnotationTypes, "the property annotationTypes is written with its current value")
	} else {
		vc.WNone(n, "annotationTypes", "the property annotationTypes is left out when it is not set")
	}
	if s.ResourceTypes.Len() > 0 {
		vc.WEntry(n, "resourceTypes", s.ResourceTypes, "the property resourceTypes is written with its current value")
	} else {
		vc.WNone(n, "resourceTypes", "the property resourceTypes is left out when it is not set")
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.WEntry(n, "securitySchemes", s.SecuritySchemes, "the property securitySchemes is written with its current value")
	} else {
		vc.WNone(n, "securitySchemes", "the property securitySchemes is left out when it is not set")
	}
	if s.Traits.Len() > 0 {
		vc.WEntry(n, "traits", s.Traits, "the property traits is written with its current value")
	} else {
		vc.WNone(n, "traits", "the property traits is left out when it is not set")
	}
	if s.Types.Len() > 0 {
		vc.WEntry(n, "types", s.Types, "the property types is written with its current value")
	} else {
		vc.WNone(n, "types", "the property types is left out when it is not set")
	}
	if s.Usage.IsPresent() {
		vc.WEntry(n, "usage", s.Usage.Get(), "the property usage is written with its current value")
	} else {
		vc.WNone(n, "usage", "the property usage is left out when it is not set")
	}
	if s.Uses.Len() > 0 {
		vc.WEntry(n, "uses", s.Uses, "the property uses is written with its current value")
	} else {
		vc.WNone(n, "uses", "the property uses is left out when it is not set")
	}
}

// vcOthersLibrary: every other entry is an annotation or an extra entry.
func vcOthersLibrary(s vcLibraryState, n *yaml.Node, q interface{}) {
	switch q {
	case "annotationTypes", "resourceTypes", "securitySchemes", "traits", "types", "usage", "uses":
		return
	}
	if w, ok := q.(string); ok && s.Annotations.Has(w) {
		vc.Assume(!s.ExtraFacets.Has(q))
		v, _ := s.Annotations.Get(w)
		vc.WEntry(n, q, v, "each entry of Annotations is written under its own key")
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
