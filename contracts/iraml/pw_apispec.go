package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC14_APISpec_MarshalYAML(t raml.APISpec, q interface{}) {
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!s.Annotations.Has("annotationTypes"))
	vc.Assume(!s.Resources.Has("annotationTypes"))
	vc.Assume(!s.ExtraFacets.Has("annotationTypes"))
	vc.Assume(!s.Annotations.Has("baseUri"))
	vc.Assume(!s.Resources.Has("baseUri"))
	vc.Assume(!s.ExtraFacets.Has("baseUri"))
	vc.Assume(!s.Annotations.Has("baseUriParameters"))
	vc.Assume(!s.Resources.Has("baseUriParameters"))
	vc.Assume(!s.ExtraFacets.Has("baseUriParameters"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.Resources.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("documentation"))
	vc.Assume(!s.Resources.Has("documentation"))
	vc.Assume(!s.ExtraFacets.Has("documentation"))
	vc.Assume(!s.Annotations.Has("mediaType"))
	vc.Assume(!s.Resources.Has("mediaType"))
	vc.Assume(!s.ExtraFacets.Has("mediaType"))
	vc.Assume(!s.Annotations.Has("protocols"))
	vc.Assume(!s.Resources.Has("protocols"))
	vc.Assume(!s.ExtraFacets.Has("protocols"))
	vc.Assume(!s.Annotations.Has("resourceTypes"))
	vc.Assume(!s.Resources.Has("resourceTypes"))
	vc.Assume(!s.ExtraFacets.Has("resourceTypes"))
	vc.Assume(!s.Annotations.Has("securedBy"))
	vc.Assume(!s.Resources.Has("securedBy"))
	vc.Assume(!s.ExtraFacets.Has("securedBy"))
	vc.Assume(!s.Annotations.Has("securitySchemes"))
	vc.Assume(!s.Resources.Has("securitySchemes"))
	vc.Assume(!s.ExtraFacets.Has("securitySchemes"))
	vc.Assume(!s.Annotations.Has("title"))
	vc.Assume(!s.Resources.Has("title"))
	vc.Assume(!s.ExtraFacets.Has("title"))
	vc.Assume(!s.Annotations.Has("traits"))
	vc.Assume(!s.Resources.Has("traits"))
	vc.Assume(!s.ExtraFacets.Has("traits"))
	vc.Assume(!s.Annotations.Has("types"))
	vc.Assume(!s.Resources.Has("types"))
	vc.Assume(!s.ExtraFacets.Has("types"))
	vc.Assume(!s.Annotations.Has("uses"))
	vc.Assume(!s.Resources.Has("uses"))
	vc.Assume(!s.ExtraFacets.Has("uses"))
	vc.Assume(!s.Annotations.Has("version"))
	vc.Assume(!s.Resources.Has("version"))
	vc.Assume(!s.ExtraFacets.Has("version"))
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	vc.Check(vcReadAPISpec(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(vc.WFailed() && n == nil, "only a value that cannot be converted makes writing fail")
		return
	}
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesAPISpec(s, n)
	vcOthersAPISpec(s, n, q)
}

func VcC14_APISpec_order(t raml.APISpec, i, j int) {
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!s.Annotations.Has("annotationTypes"))
	vc.Assume(!s.Resources.Has("annotationTypes"))
	vc.Assume(!s.ExtraFacets.Has("annotationTypes"))
	vc.Assume(!s.Annotations.Has("baseUri"))
	vc.Assume(!s.Resources.Has("baseUri"))
	vc.Assume(!s.ExtraFacets.Has("baseUri"))
	vc.Assume(!s.Annotations.Has("baseUriParameters"))
	vc.Assume(!s.Resources.Has("baseUriParameters"))
	vc.Assume(!s.ExtraFacets.Has("baseUriParameters"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.Resources.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("documentation"))
	vc.Assume(!s.Resources.Has("documentation"))
	vc.Assume(!s.ExtraFacets.Has("documentation"))
	vc.Assume(!s.Annotations.Has("mediaType"))
	vc.Assume(!s.Resources.Has("mediaType"))
	vc.Assume(!s.ExtraFacets.Has("mediaType"))
	vc.Assume(!s.Annotations.Has("protocols"))
	vc.Assume(!s.Resources.Has("protocols"))
	vc.Assume(!s.ExtraFacets.Has("protocols"))
	vc.Assume(!s.Annotations.Has("resourceTypes"))
	vc.Assume(!s.Resources.Has("resourceTypes"))
	vc.Assume(!s.ExtraFacets.Has("resourceTypes"))
	vc.Assume(!s.Annotations.Has("securedBy"))
	vc.Assume(!s.Resources.Has("securedBy"))
	vc.Assume(!s.ExtraFacets.Has("securedBy"))
	vc.Assume(!s.Annotations.Has("securitySchemes"))
	vc.Assume(!s.Resources.Has("securitySchemes"))
	vc.Assume(!s.ExtraFacets.Has("securitySchemes"))
	vc.Assume(!s.Annotations.Has("title"))
	vc.Assume(!s.Resources.Has("title"))
	vc.Assume(!s.ExtraFacets.Has("title"))
	vc.Assume(!s.Annotations.Has("traits"))
	vc.Assume(!s.Resources.Has("traits"))
	vc.Assume(!s.ExtraFacets.Has("traits"))
	vc.Assume(!s.Annotations.Has("types"))
	vc.Assume(!s.Resources.Has("types"))
	vc.Assume(!s.ExtraFacets.Has("types"))
	vc.Assume(!s.Annotations.Has("uses"))
	vc.Assume(!s.Resources.Has("uses"))
	vc.Assume(!s.ExtraFacets.Has("uses"))
	vc.Assume(!s.Annotations.Has("version"))
	vc.Assume(!s.Resources.Has("version"))
	vc.Assume(!s.ExtraFacets.Has("version"))
	vc.Assume(0 <= i && i < j)
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil || !vc.WMap(n) {
		return
	}
	if j < s.Annotations.Len() {
		a, b := s.Annotations.At(i).Key, s.Annotations.At(j).Key
		vc.Assume(!s.Resources.Has(a))
		vc.Assume(!s.Resources.Has(b))
		vc.Assume(!s.ExtraFacets.Has(a))
		vc.Assume(!s.ExtraFacets.Has(b))
		vc.WBefore(n, a, b, "the entries of Annotations are written in their order")
	}
	if j < s.Resources.Len() {
		a, b := s.Resources.At(i).Key, s.Resources.At(j).Key
		vc.Assume(!s.Annotations.Has(a))
		vc.Assume(!s.Annotations.Has(b))
		vc.Assume(!s.ExtraFacets.Has(a))
		vc.Assume(!s.ExtraFacets.Has(b))
		vc.WBefore(n, a, b, "the entries of Resources are written in their order")
	}
	if j < s.ExtraFacets.Len() {
		a, b := s.ExtraFacets.At(i).Key, s.ExtraFacets.At(j).Key
		if w, ok := a.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		if w, ok := b.(string); ok {
			vc.Assume(!s.Annotations.Has(w))
		}
		if w, ok := a.(string); ok {
			vc.Assume(!s.Resources.Has(w))
		}
		if w, ok := b.(string); ok {
			vc.Assume(!s.Resources.Has(w))
		}
		vc.WBefore(n, a, b, "the entries of ExtraFacets are written in their order")
	}
}

func VcC14_APISpec_WriteRAML(t raml.APISpec, q interface{}, limit int) {
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!s.Annotations.Has("annotationTypes"))
	vc.Assume(!s.Resources.Has("annotationTypes"))
	vc.Assume(!s.ExtraFacets.Has("annotationTypes"))
	vc.Assume(!s.Annotations.Has("baseUri"))
	vc.Assume(!s.Resources.Has("baseUri"))
	vc.Assume(!s.ExtraFacets.Has("baseUri"))
	vc.Assume(!s.Annotations.Has("baseUriParameters"))
	vc.Assume(!s.Resources.Has("baseUriParameters"))
	vc.Assume(!s.ExtraFacets.Has("baseUriParameters"))
	vc.Assume(!s.Annotations.Has("description"))
	vc.Assume(!s.Resources.Has("description"))
	vc.Assume(!s.ExtraFacets.Has("description"))
	vc.Assume(!s.Annotations.Has("documentation"))
	vc.Assume(!s.Resources.Has("documentation"))
	vc.Assume(!s.ExtraFacets.Has("documentation"))
	vc.Assume(!s.Annotations.Has("mediaType"))
	vc.Assume(!s.Resources.Has("mediaType"))
	vc.Assume(!s.ExtraFacets.Has("mediaType"))
	vc.Assume(!s.Annotations.Has("protocols"))
	vc.Assume(!s.Resources.Has("protocols"))
	vc.Assume(!s.ExtraFacets.Has("protocols"))
	vc.Assume(!s.Annotations.Has("resourceTypes"))
	vc.Assume(!s.Resources.Has("resourceTypes"))
	vc.Assume(!s.ExtraFacets.Has("resourceTypes"))
	vc.Assume(!s.Annotations.Has("securedBy"))
	vc.Assume(!s.Resources.Has("securedBy"))
	vc.Assume(!s.ExtraFacets.Has("securedBy"))
	vc.Assume(!s.Annotations.Has("securitySchemes"))
	vc.Assume(!s.Resources.Has("securitySchemes"))
	vc.Assume(!s.ExtraFacets.Has("securitySchemes"))
	vc.Assume(!s.Annotations.Has("title"))
	vc.Assume(!s.Resources.Has("title"))
	vc.Assume(!s.ExtraFacets.Has("title"))
	vc.Assume(!s.Annotations.Has("traits"))
	vc.Assume(!s.Resources.Has("traits"))
	vc.Assume(!s.ExtraFacets.Has("traits"))
	vc.Assume(!s.Annotations.Has("types"))
	vc.Assume(!s.Resources.Has("types"))
	vc.Assume(!s.ExtraFacets.Has("types"))
	vc.Assume(!s.Annotations.Has("uses"))
	vc.Assume(!s.Resources.Has("uses"))
	vc.Assume(!s.ExtraFacets.Has("uses"))
	vc.Assume(!s.Annotations.Has("version"))
	vc.Assume(!s.Resources.Has("version"))
	vc.Assume(!s.ExtraFacets.Has("version"))
	w := vc.NewSink(limit)
	err := t.WriteRAML(w)
	vc.Check(vcReadAPISpec(t), s, "writing changes nothing")
	if err != nil {
		vc.Assert(w.Failed() || vc.WFailed(), "only a failing destination or a value that cannot be converted makes writing fail")
		return
	}
	vc.Assert(!w.Failed(), "a failure of the destination is returned")
	head, n := w.Document()
	vc.Assert(head == "#%RAML 1.0", "the output starts with the header line of the document kind")
	vc.Assert(vc.WMap(n), "the element is written as a mapping")
	vcEntriesAPISpec(s, n)
	vcOthersAPISpec(s, n, q)
}

// vcEntriesAPISpec: the entries of the written element.
func vcEntriesAPISpec(s vcAPISpecState, n *yaml.Node) {
	if s.AnnotationTypes.Len() > 0 {
		vc.WEntry(n, "annotationTypes", s.AnnotationTypes, "the property annotationTypes is written with its current value")
	} else {
		vc.WNone(n, "annotationTypes", "the property annotationTypes is left out when it is not set")
	}
	if s.BaseURI.IsPresent() {
		vc.WEntry(n, "baseUri", s.BaseURI.Get(), "the property baseUri is written with its current value")
	} else {
		vc.WNone(n, "baseUri", "the property baseUri is left out when it is not set")
	}
	if s.BaseURIParameters.Len() > 0 {
		vc.WEntry(n, "baseUriParameters", s.BaseURIParameters, "the property baseUriParameters is written with its current value")
	} else {
		vc.WNone(n, "baseUriParameters", "the property baseUriParameters is left out when it is not set")
	}
	if s.Description.IsPresent() {
		vc.WEntry(n, "description", s.Description.Get(), "the property description is written with its current value")
	} else {
		vc.WNone(n, "description", "the property description is left out when it is not set")
	}
	if len(s.Documentation) > 0 {
		vc.WEntry(n, "documentation", s.Documentation, "the property documentation is written with its current value")
	} else {
		vc.WNone(n, "documentation", "the property documentation is left out when it is not set")
	}
	if len(s.MediaTypes) > 0 {
		vc.WEntry(n, "mediaType", s.MediaTypes, "the property mediaType is written with its current value")
	} else {
		vc.WNone(n, "mediaType", "the property mediaType is left out when it is not set")
	}
	if len(s.Protocols) > 0 {
		vc.WEntry(n, "protocols", s.Protocols, "the property protocols is written with its current value")
	} else {
		vc.WNone(n, "protocols", "the property protocols is left out when it is not set")
	}
	if s.ResourceTypes.Len() > 0 {
		vc.WEntry(n, "resourceTypes", s.ResourceTypes, "the property resourceTypes is written with its current value")
	} else {
		vc.WNone(n, "resourceTypes", "the property resourceTypes is left out when it is not set")
	}
	if len(s.SecuredBy) > 0 {
		vc.WEntry(n, "securedBy", s.SecuredBy, "the property securedBy is written with its current value")
	} else {
		vc.WNone(n, "securedBy", "the property securedBy is left out when it is not set")
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.WEntry(n, "securitySchemes", s.SecuritySchemes, "the property securitySchemes is written with its current value")
	} else {
		vc.WNone(n, "securitySchemes", "the property securitySchemes is left out when it is not set")
	}
	if true {
		vc.WEntry(n, "title", s.Title, "the property title is written with its current value")
	} else {
		vc.WNone(n, "title", "the property title is left out when it is not set")
	}
	if s.Traits.Len() > 0 {
		vc.WEntry(n, "traits", s.Traits, "the property traits is written with its current value")
	} else {
		vc.WNone(n, "traits", "the property traits is left out when it is not set")
	}
	if s.Types.Len() > 0 {
		vc.WEntry(n, "types", s.Types, "the property types is written with its current value")
	} else {
		vc.WNone(n, "types", "the property types is left out when it is not set")
	}
	if s.Uses.Len() > 0 {
		vc.WEntry(n, "uses", s.Uses, "the property uses is written with its current value")
	} else {
		vc.WNone(n, "uses", "the property uses is left out when it is not set")
	}
	if s.Version.IsPresent() {
		vc.WEntry(n, "version", s.Version.Get(), "the property version is written with its current value")
	} else {
		vc.WNone(n, "version", "the property version is left out when it is not set")
	}
}

// vcOthersAPISpec: every other entry is an annotation or an extra entry.
func vcOthersAPISpec(s vcAPISpecState, n *yaml.Node, q interface{}) {
	switch q {
	case "annotationTypes", "baseUri", "baseUriParameters", "description", "documentation", "mediaType", "protocols", "resourceTypes", "securedBy", "securitySchemes", "title", "traits", "types", "uses", "version":
		return
	}
	if w, ok := q.(string); ok && s.Annotations.Has(w) {
		vc.Assume(!s.Resources.Has(w))
		vc.Assume(!s.ExtraFacets.Has(q))
		v, _ := s.Annotations.Get(w)
		vc.WEntry(n, q, v, "each entry of Annotations is written under its own key")
		return
	}
	if w, ok := q.(string); ok && s.Resources.Has(w) {
		vc.Assume(!s.Annotations.Has(w))
		vc.Assume(!s.ExtraFacets.Has(q))
		v, _ := s.Resources.Get(w)
		vc.WEntry(n, q, v, "each entry of Resources is written under its own key")
		return
	}
	if s.ExtraFacets.Has(q) {
		v, _ := s.ExtraFacets.Get(q)
		vc.WEntry(n, q, v, "each entry of ExtraFacets is written under its own key")
		return
	}
	vc.WNone(n, q, "nothing else is written")
}
