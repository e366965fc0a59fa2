package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
	"strings"
)

func VcC15_APISpec_common(t raml.APISpec) {
	vc.Concretely(func() {
		vcOnly(t, NewApiSpec(), "AnnotationTypes", "BaseURI", "BaseURIParameters", "Description", "ResourceTypes", "Title")
	})
	vc.Assume(vcReadAPISpec(t).Annotations.Len() == 0)
	vc.Assume(vcReadAPISpec(t).ExtraFacets.Len() == 0)
	vc.Assume(vcReadAPISpec(t).Resources.Len() == 0)
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(!(len(s.Documentation) > 0))
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(!(len(s.MediaTypes) > 0))
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(!(len(s.Protocols) > 0))
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!(len(s.SecuredBy) > 0))
	vc.Assume(!(s.SecuritySchemes.Len() > 0))
	vc.Assume(!(s.Traits.Len() > 0))
	vc.Assume(!(s.Types.Len() > 0))
	vc.Assume(!(s.Uses.Len() > 0))
	vc.Assume(!(s.Version.IsPresent()))
	vc.Split(s.AnnotationTypes.Len() > 0)
	vc.Split(s.BaseURI.IsPresent())
	vc.Split(s.BaseURIParameters.Len() > 0)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.ResourceTypes.Len() > 0)
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewApiSpec()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	want := vcReadAPISpec(NewApiSpec())
	ok := true
	if s.AnnotationTypes.Len() > 0 {
		vc.Written(vcAt(n, "annotationTypes"), s.AnnotationTypes, "annotationTypes are written as a whole")
		ok = VcFillUntypedMap(want.AnnotationTypes, vcAt(n, "annotationTypes")) == nil && ok
	}
	want.BaseURI = s.BaseURI
	if s.BaseURIParameters.Len() > 0 {
		vc.Written(vcAt(n, "baseUriParameters"), s.BaseURIParameters, "baseUriParameters are written as a whole")
		ok = VcFillUntypedMap(want.BaseURIParameters, vcAt(n, "baseUriParameters")) == nil && ok
	}
	want.Description = s.Description
	if len(s.Documentation) > 0 {
		var l []raml.Documentation
		at := vcAt(n, "documentation")
		for i := 0; i < len(at.Content); i++ {
			x := NewDocumentation()
			if x.UnmarshalRAML(at.Content[i]) != nil {
				ok = false
				break
			}
			l = append(l, x)
		}
		want.Documentation = l
	}
	if len(s.MediaTypes) > 0 {
		want.MediaTypes = s.MediaTypes
	}
	if len(s.Protocols) > 0 {
		want.Protocols = s.Protocols
	}
	if s.ResourceTypes.Len() > 0 {
		vc.Written(vcAt(n, "resourceTypes"), s.ResourceTypes, "resourceTypes are written as a whole")
		ok = VcFillUntypedMap(want.ResourceTypes, vcAt(n, "resourceTypes")) == nil && ok
	}
	if len(s.SecuredBy) > 0 {
		want.SecuredBy = s.SecuredBy
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.Written(vcAt(n, "securitySchemes"), s.SecuritySchemes, "securitySchemes are written as a whole")
		ok = VcFillUntypedMap(want.SecuritySchemes, vcAt(n, "securitySchemes")) == nil && ok
	}
	want.Title = s.Title
	if s.Traits.Len() > 0 {
		vc.Written(vcAt(n, "traits"), s.Traits, "traits are written as a whole")
		ok = VcFillUntypedMap(want.Traits, vcAt(n, "traits")) == nil && ok
	}
	if s.Types.Len() > 0 {
		vc.Written(vcAt(n, "types"), s.Types, "types are written as a whole")
		ok = VcFillDataTypeMap(want.Types, vcAt(n, "types")) == nil && ok
	}
	if s.Uses.Len() > 0 {
		vc.Written(vcAt(n, "uses"), s.Uses, "uses are written as a whole")
		ok = VcFillStringMap(want.Uses, vcAt(n, "uses")) == nil && ok
	}
	want.Version = s.Version
	want.Schemas = want.Types
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadAPISpec(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_APISpec_own(t raml.APISpec) {
	vc.Concretely(func() { vcOnly(t, NewApiSpec(), "SecuritySchemes", "Title", "Traits", "Types", "Uses", "Version") })
	vc.Assume(vcReadAPISpec(t).Annotations.Len() == 0)
	vc.Assume(vcReadAPISpec(t).ExtraFacets.Len() == 0)
	vc.Assume(vcReadAPISpec(t).Resources.Len() == 0)
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(!(s.AnnotationTypes.Len() > 0))
	vc.Assume(!(s.BaseURI.IsPresent()))
	vc.Assume(!(s.BaseURIParameters.Len() > 0))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(!(len(s.Documentation) > 0))
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(!(len(s.MediaTypes) > 0))
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(!(len(s.Protocols) > 0))
	vc.Assume(!(s.ResourceTypes.Len() > 0))
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!(len(s.SecuredBy) > 0))
	vc.Split(s.SecuritySchemes.Len() > 0)
	vc.Split(s.Traits.Len() > 0)
	vc.Split(s.Types.Len() > 0)
	vc.Split(s.Uses.Len() > 0)
	vc.Split(s.Version.IsPresent())
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewApiSpec()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	want := vcReadAPISpec(NewApiSpec())
	ok := true
	if s.AnnotationTypes.Len() > 0 {
		vc.Written(vcAt(n, "annotationTypes"), s.AnnotationTypes, "annotationTypes are written as a whole")
		ok = VcFillUntypedMap(want.AnnotationTypes, vcAt(n, "annotationTypes")) == nil && ok
	}
	want.BaseURI = s.BaseURI
	if s.BaseURIParameters.Len() > 0 {
		vc.Written(vcAt(n, "baseUriParameters"), s.BaseURIParameters, "baseUriParameters are written as a whole")
		ok = VcFillUntypedMap(want.BaseURIParameters, vcAt(n, "baseUriParameters")) == nil && ok
	}
	want.Description = s.Description
	if len(s.Documentation) > 0 {
		var l []raml.Documentation
		at := vcAt(n, "documentation")
		for i := 0; i < len(at.Content); i++ {
			x := NewDocumentation()
			if x.UnmarshalRAML(at.Content[i]) != nil {
				ok = false
				break
			}
			l = append(l, x)
		}
		want.Documentation = l
	}
	if len(s.MediaTypes) > 0 {
		want.MediaTypes = s.MediaTypes
	}
	if len(s.Protocols) > 0 {
		want.Protocols = s.Protocols
	}
	if s.ResourceTypes.Len() > 0 {
		vc.Written(vcAt(n, "resourceTypes"), s.ResourceTypes, "resourceTypes are written as a whole")
		ok = VcFillUntypedMap(want.ResourceTypes, vcAt(n, "resourceTypes")) == nil && ok
	}
	if len(s.SecuredBy) > 0 {
		want.SecuredBy = s.SecuredBy
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.Written(vcAt(n, "securitySchemes"), s.SecuritySchemes, "securitySchemes are written as a whole")
		ok = VcFillUntypedMap(want.SecuritySchemes, vcAt(n, "securitySchemes")) == nil && ok
	}
	want.Title = s.Title
	if s.Traits.Len() > 0 {
		vc.Written(vcAt(n, "traits"), s.Traits, "traits are written as a whole")
		ok = VcFillUntypedMap(want.Traits, vcAt(n, "traits")) == nil && ok
	}
	if s.Types.Len() > 0 {
		vc.Written(vcAt(n, "types"), s.Types, "types are written as a whole")
		ok = VcFillDataTypeMap(want.Types, vcAt(n, "types")) == nil && ok
	}
	if s.Uses.Len() > 0 {
		vc.Written(vcAt(n, "uses"), s.Uses, "uses are written as a whole")
		ok = VcFillStringMap(want.Uses, vcAt(n, "uses")) == nil && ok
	}
	want.Version = s.Version
	want.Schemas = want.Types
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadAPISpec(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_APISpec_deep(t raml.APISpec) {
	vc.Concretely(func() {
		vcOnly(t, NewApiSpec(), "AnnotationTypes", "BaseURI", "BaseURIParameters", "Description", "ResourceTypes", "SecuritySchemes", "Title", "Traits", "Types", "Uses", "Version")
	})
	vc.Assume(vcReadAPISpec(t).Annotations.Len() == 0)
	vc.Assume(vcReadAPISpec(t).ExtraFacets.Len() == 0)
	vc.Assume(vcReadAPISpec(t).Resources.Len() == 0)
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(!(len(s.Documentation) > 0))
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(!(len(s.MediaTypes) > 0))
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(!(len(s.Protocols) > 0))
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!(len(s.SecuredBy) > 0))
	vc.Split(s.AnnotationTypes.Len() > 0)
	vc.Split(s.BaseURI.IsPresent())
	vc.Split(s.BaseURIParameters.Len() > 0)
	vc.Split(s.Description.IsPresent())
	vc.Split(s.ResourceTypes.Len() > 0)
	vc.Split(s.SecuritySchemes.Len() > 0)
	vc.Split(s.Traits.Len() > 0)
	vc.Split(s.Types.Len() > 0)
	vc.Split(s.Uses.Len() > 0)
	vc.Split(s.Version.IsPresent())
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewApiSpec()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	want := vcReadAPISpec(NewApiSpec())
	ok := true
	if s.AnnotationTypes.Len() > 0 {
		vc.Written(vcAt(n, "annotationTypes"), s.AnnotationTypes, "annotationTypes are written as a whole")
		ok = VcFillUntypedMap(want.AnnotationTypes, vcAt(n, "annotationTypes")) == nil && ok
	}
	want.BaseURI = s.BaseURI
	if s.BaseURIParameters.Len() > 0 {
		vc.Written(vcAt(n, "baseUriParameters"), s.BaseURIParameters, "baseUriParameters are written as a whole")
		ok = VcFillUntypedMap(want.BaseURIParameters, vcAt(n, "baseUriParameters")) == nil && ok
	}
	want.Description = s.Description
	if len(s.Documentation) > 0 {
		var l []raml.Documentation
		at := vcAt(n, "documentation")
		for i := 0; i < len(at.Content); i++ {
			x := NewDocumentation()
			if x.UnmarshalRAML(at.Content[i]) != nil {
				ok = false
				break
			}
			l = append(l, x)
		}
		want.Documentation = l
	}
	if len(s.MediaTypes) > 0 {
		want.MediaTypes = s.MediaTypes
	}
	if len(s.Protocols) > 0 {
		want.Protocols = s.Protocols
	}
	if s.ResourceTypes.Len() > 0 {
		vc.Written(vcAt(n, "resourceTypes"), s.ResourceTypes, "resourceTypes are written as a whole")
		ok = VcFillUntypedMap(want.ResourceTypes, vcAt(n, "resourceTypes")) == nil && ok
	}
	if len(s.SecuredBy) > 0 {
		want.SecuredBy = s.SecuredBy
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.Written(vcAt(n, "securitySchemes"), s.SecuritySchemes, "securitySchemes are written as a whole")
		ok = VcFillUntypedMap(want.SecuritySchemes, vcAt(n, "securitySchemes")) == nil && ok
	}
	want.Title = s.Title
	if s.Traits.Len() > 0 {
		vc.Written(vcAt(n, "traits"), s.Traits, "traits are written as a whole")
		ok = VcFillUntypedMap(want.Traits, vcAt(n, "traits")) == nil && ok
	}
	if s.Types.Len() > 0 {
		vc.Written(vcAt(n, "types"), s.Types, "types are written as a whole")
		ok = VcFillDataTypeMap(want.Types, vcAt(n, "types")) == nil && ok
	}
	if s.Uses.Len() > 0 {
		vc.Written(vcAt(n, "uses"), s.Uses, "uses are written as a whole")
		ok = VcFillStringMap(want.Uses, vcAt(n, "uses")) == nil && ok
	}
	want.Version = s.Version
	want.Schemas = want.Types
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadAPISpec(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_APISpec_lists(t raml.APISpec) {
	vc.Concretely(func() { vcOnly(t, NewApiSpec(), "MediaTypes", "Protocols", "SecuredBy", "Title") })
	vc.Assume(vcReadAPISpec(t).Annotations.Len() == 0)
	vc.Assume(vcReadAPISpec(t).ExtraFacets.Len() == 0)
	vc.Assume(vcReadAPISpec(t).Resources.Len() == 0)
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(!(s.AnnotationTypes.Len() > 0))
	vc.Assume(!(s.BaseURI.IsPresent()))
	vc.Assume(!(s.BaseURIParameters.Len() > 0))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(!(len(s.Documentation) > 0))
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(!(s.ResourceTypes.Len() > 0))
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!(s.SecuritySchemes.Len() > 0))
	vc.Assume(!(s.Traits.Len() > 0))
	vc.Assume(!(s.Types.Len() > 0))
	vc.Assume(!(s.Uses.Len() > 0))
	vc.Assume(!(s.Version.IsPresent()))
	vc.Split(len(s.MediaTypes) > 0)
	vc.Split(len(s.Protocols) > 0)
	vc.Split(len(s.SecuredBy) > 0)
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewApiSpec()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	want := vcReadAPISpec(NewApiSpec())
	ok := true
	if s.AnnotationTypes.Len() > 0 {
		vc.Written(vcAt(n, "annotationTypes"), s.AnnotationTypes, "annotationTypes are written as a whole")
		ok = VcFillUntypedMap(want.AnnotationTypes, vcAt(n, "annotationTypes")) == nil && ok
	}
	want.BaseURI = s.BaseURI
	if s.BaseURIParameters.Len() > 0 {
		vc.Written(vcAt(n, "baseUriParameters"), s.BaseURIParameters, "baseUriParameters are written as a whole")
		ok = VcFillUntypedMap(want.BaseURIParameters, vcAt(n, "baseUriParameters")) == nil && ok
	}
	want.Description = s.Description
	if len(s.Documentation) > 0 {
		var l []raml.Documentation
		at := vcAt(n, "documentation")
		for i := 0; i < len(at.Content); i++ {
			x := NewDocumentation()
			if x.UnmarshalRAML(at.Content[i]) != nil {
				ok = false
				break
			}
			l = append(l, x)
		}
		want.Documentation = l
	}
	if len(s.MediaTypes) > 0 {
		want.MediaTypes = s.MediaTypes
	}
	if len(s.Protocols) > 0 {
		want.Protocols = s.Protocols
	}
	if s.ResourceTypes.Len() > 0 {
		vc.Written(vcAt(n, "resourceTypes"), s.ResourceTypes, "resourceTypes are written as a whole")
		ok = VcFillUntypedMap(want.ResourceTypes, vcAt(n, "resourceTypes")) == nil && ok
	}
	if len(s.SecuredBy) > 0 {
		want.SecuredBy = s.SecuredBy
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.Written(vcAt(n, "securitySchemes"), s.SecuritySchemes, "securitySchemes are written as a whole")
		ok = VcFillUntypedMap(want.SecuritySchemes, vcAt(n, "securitySchemes")) == nil && ok
	}
	want.Title = s.Title
	if s.Traits.Len() > 0 {
		vc.Written(vcAt(n, "traits"), s.Traits, "traits are written as a whole")
		ok = VcFillUntypedMap(want.Traits, vcAt(n, "traits")) == nil && ok
	}
	if s.Types.Len() > 0 {
		vc.Written(vcAt(n, "types"), s.Types, "types are written as a whole")
		ok = VcFillDataTypeMap(want.Types, vcAt(n, "types")) == nil && ok
	}
	if s.Uses.Len() > 0 {
		vc.Written(vcAt(n, "uses"), s.Uses, "uses are written as a whole")
		ok = VcFillStringMap(want.Uses, vcAt(n, "uses")) == nil && ok
	}
	want.Version = s.Version
	want.Schemas = want.Types
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadAPISpec(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_APISpec_documentation(t raml.APISpec) {
	vc.Concretely(func() { vcOnly(t, NewApiSpec(), "Documentation", "Title") })
	vc.Assume(vcReadAPISpec(t).Annotations.Len() == 0)
	vc.Assume(vcReadAPISpec(t).ExtraFacets.Len() == 0)
	vc.Assume(vcReadAPISpec(t).Resources.Len() == 0)
	s := vc.Freeze(vcReadAPISpec(t)).(vcAPISpecState)
	vc.Assume(!(s.AnnotationTypes.Len() > 0))
	vc.Assume(!(s.BaseURI.IsPresent()))
	vc.Assume(!(s.BaseURIParameters.Len() > 0))
	vc.Assume(!(s.Description.IsPresent()))
	vc.Assume(s.Documentation == nil || len(s.Documentation) > 0)
	vc.Assume(s.MediaTypes == nil || len(s.MediaTypes) > 0)
	vc.Assume(!(len(s.MediaTypes) > 0))
	vc.Assume(s.Protocols == nil || len(s.Protocols) > 0)
	vc.Assume(!(len(s.Protocols) > 0))
	vc.Assume(!(s.ResourceTypes.Len() > 0))
	vc.Assume(s.SecuredBy == nil || len(s.SecuredBy) > 0)
	vc.Assume(!(len(s.SecuredBy) > 0))
	vc.Assume(!(s.SecuritySchemes.Len() > 0))
	vc.Assume(!(s.Traits.Len() > 0))
	vc.Assume(!(s.Types.Len() > 0))
	vc.Assume(!(s.Uses.Len() > 0))
	vc.Assume(!(s.Version.IsPresent()))
	vc.Split(len(s.Documentation) > 0)
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	if err != nil {
		vc.Assert(vc.WFailed(), "only a value that cannot be converted makes writing fail")
		return
	}
	b := NewApiSpec()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	want := vcReadAPISpec(NewApiSpec())
	ok := true
	if s.AnnotationTypes.Len() > 0 {
		vc.Written(vcAt(n, "annotationTypes"), s.AnnotationTypes, "annotationTypes are written as a whole")
		ok = VcFillUntypedMap(want.AnnotationTypes, vcAt(n, "annotationTypes")) == nil && ok
	}
	want.BaseURI = s.BaseURI
	if s.BaseURIParameters.Len() > 0 {
		vc.Written(vcAt(n, "baseUriParameters"), s.BaseURIParameters, "baseUriParameters are written as a whole")
		ok = VcFillUntypedMap(want.BaseURIParameters, vcAt(n, "baseUriParameters")) == nil && ok
	}
	want.Description = s.Description
	if len(s.Documentation) > 0 {
		var l []raml.Documentation
		at := vcAt(n, "documentation")
		for i := 0; i < len(at.Content); i++ {
			x := NewDocumentation()
			if x.UnmarshalRAML(at.Content[i]) != nil {
				ok = false
				break
			}
			l = append(l, x)
		}
		want.Documentation = l
	}
	if len(s.MediaTypes) > 0 {
		want.MediaTypes = s.MediaTypes
	}
	if len(s.Protocols) > 0 {
		want.Protocols = s.Protocols
	}
	if s.ResourceTypes.Len() > 0 {
		vc.Written(vcAt(n, "resourceTypes"), s.ResourceTypes, "resourceTypes are written as a whole")
		ok = VcFillUntypedMap(want.ResourceTypes, vcAt(n, "resourceTypes")) == nil && ok
	}
	if len(s.SecuredBy) > 0 {
		want.SecuredBy = s.SecuredBy
	}
	if s.SecuritySchemes.Len() > 0 {
		vc.Written(vcAt(n, "securitySchemes"), s.SecuritySchemes, "securitySchemes are written as a whole")
		ok = VcFillUntypedMap(want.SecuritySchemes, vcAt(n, "securitySchemes")) == nil && ok
	}
	want.Title = s.Title
	if s.Traits.Len() > 0 {
		vc.Written(vcAt(n, "traits"), s.Traits, "traits are written as a whole")
		ok = VcFillUntypedMap(want.Traits, vcAt(n, "traits")) == nil && ok
	}
	if s.Types.Len() > 0 {
		vc.Written(vcAt(n, "types"), s.Types, "types are written as a whole")
		ok = VcFillDataTypeMap(want.Types, vcAt(n, "types")) == nil && ok
	}
	if s.Uses.Len() > 0 {
		vc.Written(vcAt(n, "uses"), s.Uses, "uses are written as a whole")
		ok = VcFillStringMap(want.Uses, vcAt(n, "uses")) == nil && ok
	}
	want.Version = s.Version
	want.Schemas = want.Types
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadAPISpec(b), want, "what is written parses back to the same properties")
	}
}

func VcC15_APISpec_extra(t raml.APISpec, ak, ik string, av *yaml.Node, annotated, filled bool, rk string, rv *yaml.Node, resource bool, ek string, ev *yaml.Node, extra bool) {
	vc.Concretely(func() { vcOnly(t, NewApiSpec(), "Type", "Title", "Content") })
	vc.Assume(!(vcReadAPISpec(t).AnnotationTypes.Len() > 0))
	vc.Assume(!(vcReadAPISpec(t).BaseURI.IsPresent()))
	vc.Assume(!(vcReadAPISpec(t).BaseURIParameters.Len() > 0))
	vc.Assume(!(vcReadAPISpec(t).Description.IsPresent()))
	vc.Assume(vcReadAPISpec(t).Documentation == nil)
	vc.Assume(vcReadAPISpec(t).MediaTypes == nil)
	vc.Assume(vcReadAPISpec(t).Protocols == nil)
	vc.Assume(!(vcReadAPISpec(t).ResourceTypes.Len() > 0))
	vc.Assume(vcReadAPISpec(t).SecuredBy == nil)
	vc.Assume(!(vcReadAPISpec(t).SecuritySchemes.Len() > 0))
	vc.Assume(!(vcReadAPISpec(t).Traits.Len() > 0))
	vc.Assume(!(vcReadAPISpec(t).Types.Len() > 0))
	vc.Assume(!(vcReadAPISpec(t).Uses.Len() > 0))
	vc.Assume(!(vcReadAPISpec(t).Version.IsPresent()))
	vc.Assume(vcReadAPISpec(t).Annotations.Len() == 0)
	vc.Assume(vcReadAPISpec(t).ExtraFacets.Len() == 0)
	vc.Split(annotated)
	vc.Split(filled)
	vc.Split(extra)
	vc.Split(resource)
	want := vcReadAPISpec(NewApiSpec())
	if annotated {
		vc.Assume(strings.HasPrefix(ak, "("))
		m := raml.NewUntypedMap(1).SerializeOrdered(false)
		if filled {
			vc.Assume(av != nil)
			m.Put(ik, av)
		}
		vcReadAPISpec(t).Annotations.Put(ak, m)
	}
	vc.Assume(t.Resources().Len() == 0)
	if resource {
		vc.Assume(rv != nil && strings.HasPrefix(rk, "/"))
		t.Resources().Put(rk, rv)
		want.Resources.Put(rk, rv)
	}
	if extra {
		vc.Assume(ev != nil && vcUnknownAPISpec(ek))
		vcReadAPISpec(t).ExtraFacets.Put(ek, ev)
		want.ExtraFacets.Put(ek, ev)
	}
	r, err := t.(yaml.Marshaler).MarshalYAML()
	if m, ok := r.(yaml.Marshaler); ok && err == nil {
		r, err = m.MarshalYAML()
	}
	n, _ := r.(*yaml.Node)
	vc.Assert(err == nil, "annotations and unknown entries can be written")
	if err != nil {
		return
	}
	b := NewApiSpec()
	vc.Real()
	perr := yaml.Unmarshaler(b).UnmarshalYAML(n)
	ok := true
	if annotated {
		w := raml.NewUntypedMap(1).SerializeOrdered(false)
		ok = VcFillUntypedMap(w, vcAt(n, ak)) == nil
		want.Annotations.Put(ak, w)
	}
	vc.Assert((perr == nil) == ok, "what is written can be parsed")
	if perr == nil {
		vc.Check(vcReadAPISpec(b).ExtraFacets, want.ExtraFacets, "unknown entries come back under their own keys")
		vc.Check(vcReadAPISpec(b).Resources, want.Resources, "resources come back under their own paths")
		vc.Check(vcReadAPISpec(b).Annotations, want.Annotations, "annotations come back under their own keys")
	}
}

// vcUnknownAPISpec: the key is the name of no property and no annotation.
func vcUnknownAPISpec(k string) bool {
	switch k {
	case "schemas", "annotationTypes", "baseUri", "baseUriParameters", "description", "documentation", "mediaType", "protocols", "resourceTypes", "securedBy", "securitySchemes", "title", "traits", "types", "uses", "version":
		return false
	}
	return !strings.HasPrefix(k, "(") && !strings.HasPrefix(k, "/")
}
