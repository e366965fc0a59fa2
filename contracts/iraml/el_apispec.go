package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcAPISpecState is what can be read from a raml.APISpec.
type vcAPISpecState struct {
	AnnotationTypes   raml.UntypedMap
	Annotations       raml.AnnotationMap
	BaseURI           option.String
	BaseURIParameters raml.UntypedMap
	Description       option.String
	Documentation     []raml.Documentation
	ExtraFacets       raml.AnyMap
	MediaTypes        []string
	Protocols         []string
	ResourceTypes     raml.UntypedMap
	Resources         raml.UntypedMap
	Schemas           raml.DataTypeMap
	SecuredBy         []string
	SecuritySchemes   raml.UntypedMap
	Title             string
	Traits            raml.UntypedMap
	Types             raml.DataTypeMap
	Uses              raml.StringMap
	Version           option.String
}

func vcReadAPISpec(t raml.APISpec) (s vcAPISpecState) {
	s.AnnotationTypes = t.AnnotationTypes()
	s.Annotations = t.Annotations()
	s.BaseURI = t.BaseURI()
	s.BaseURIParameters = t.BaseURIParameters()
	s.Description = t.Description()
	s.Documentation = t.Documentation()
	s.ExtraFacets = t.ExtraFacets()
	s.MediaTypes = t.MediaTypes()
	s.Protocols = t.Protocols()
	s.ResourceTypes = t.ResourceTypes()
	s.Resources = t.Resources()
	s.Schemas = t.Schemas()
	s.SecuredBy = t.SecuredBy()
	s.SecuritySchemes = t.SecuritySchemes()
	s.Title = t.Title()
	s.Traits = t.Traits()
	s.Types = t.Types()
	s.Uses = t.Uses()
	s.Version = t.Version()
	return
}

func VcC05_APISpec_SetAnnotations(t raml.APISpec, v raml.AnnotationMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Annotations = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetAnnotations_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetBaseURI(t raml.APISpec, v string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	given := v
	r := t.SetBaseURI(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.BaseURI = option.NewMaybeString(&given)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.BaseURI.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetDescription(t raml.APISpec, v string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetDocumentation(t raml.APISpec, v []raml.Documentation) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetDocumentation(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Documentation = v
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetDocumentation_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetDocumentation(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Documentation = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetMediaTypes(t raml.APISpec, v []string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetMediaTypes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.MediaTypes = v
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetMediaTypes_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetMediaTypes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.MediaTypes = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetProtocols(t raml.APISpec, v []string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetProtocols(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Protocols = v
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetProtocols_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetProtocols(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Protocols = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetResourceTypes(t raml.APISpec, v raml.UntypedMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.UntypedMap)
	r := t.SetResourceTypes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.ResourceTypes = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.ResourceTypes == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetResourceTypes_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetResourceTypes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.ResourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.ResourceTypes != nil, "ResourceTypes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetSchemas(t raml.APISpec, v raml.DataTypeMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.DataTypeMap)
	r := t.SetSchemas(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Types = fv
	want.Schemas = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types == v, "reads back the collection set")
	vc.Assert(got.Schemas == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetSchemas_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetSchemas(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetSecuredBy(t raml.APISpec, v []string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetSecuredBy(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.SecuredBy = v
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetSecuredBy_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetSecuredBy(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.SecuredBy = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetTitle(t raml.APISpec, v string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetTitle(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Title = v
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(vc.Is(got.Title, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetTraits(t raml.APISpec, v raml.UntypedMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.UntypedMap)
	r := t.SetTraits(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Traits = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Traits == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetTraits_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetTraits(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Traits = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Traits != nil, "Traits is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetTypes(t raml.APISpec, v raml.DataTypeMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.DataTypeMap)
	r := t.SetTypes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Types = fv
	want.Schemas = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types == v, "reads back the collection set")
	vc.Assert(got.Schemas == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetTypes_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetTypes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetUses(t raml.APISpec, v raml.StringMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.StringMap)
	r := t.SetUses(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Uses = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetUses_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.SetUses(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Uses = raml.NewStringMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses != nil, "Uses is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetVersion(t raml.APISpec, v string) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	given := v
	r := t.SetVersion(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Version = option.NewMaybeString(&given)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Version.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetAnnotations(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetBaseURI(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetBaseURI()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.BaseURI = option.NewEmptyString()
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetDescription(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetDocumentation(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetDocumentation()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Documentation = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetMediaTypes(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetMediaTypes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.MediaTypes = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetProtocols(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetProtocols()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Protocols = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetResourceTypes(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetResourceTypes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.ResourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.ResourceTypes != nil, "ResourceTypes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetSchemas(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetSchemas()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Assert(got.Types == got.Schemas, "Types and Schemas are the same")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetSecuredBy(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetSecuredBy()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.SecuredBy = nil
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetTraits(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetTraits()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Traits = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Traits != nil, "Traits is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetTypes(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetTypes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Assert(got.Types == got.Schemas, "Types and Schemas are the same")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetUses(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetUses()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Uses = raml.NewStringMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses != nil, "Uses is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetVersion(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.UnsetVersion()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.Version = option.NewEmptyString()
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewAPISpec: t is a new element, with the RAML 1.0 defaults.
func VcNewAPISpec(t raml.APISpec) {
	got := vcReadAPISpec(t)
	var want vcAPISpecState
	want.AnnotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.BaseURIParameters = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.ResourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Resources = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.SecuritySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Traits = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Uses = raml.NewStringMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes != nil, "AnnotationTypes is present")
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.BaseURIParameters != nil, "BaseURIParameters is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.ResourceTypes != nil, "ResourceTypes is present")
	vc.Assert(got.Resources != nil, "Resources is present")
	vc.Assert(got.Schemas != nil, "Schemas is present")
	vc.Assert(got.SecuritySchemes != nil, "SecuritySchemes is present")
	vc.Assert(got.Traits != nil, "Traits is present")
	vc.Assert(got.Types != nil, "Types is present")
	vc.Assert(got.Uses != nil, "Uses is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_APISpec_defaults() {
	VcNewAPISpec(NewApiSpec())
}

func VcC06_APISpec_apart(k string, q interface{}) {
	a, b := raml.APISpec(NewApiSpec()), raml.APISpec(NewApiSpec())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartAPISpec(a, b, k, q)
}

// VcApartAPISpec: no change of a shows in b.
func VcApartAPISpec(a, b raml.APISpec, k string, q interface{}) {
	was := vc.Freeze(vcReadAPISpec(b))
	a.AnnotationTypes().Put(k, nil)
	a.Annotations().Put(k, nil)
	a.BaseURIParameters().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.ResourceTypes().Put(k, nil)
	a.Resources().Put(k, nil)
	a.Schemas().Put(k, nil)
	a.SecuritySchemes().Put(k, nil)
	a.Traits().Put(k, nil)
	a.Types().Put(k, nil)
	a.Uses().Put(k, k)
	vc.Check(vcReadAPISpec(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetBaseURI(k)
	a.SetDescription(k)
	a.SetDocumentation(nil)
	a.SetMediaTypes(nil)
	a.SetProtocols(nil)
	a.SetResourceTypes(nil)
	a.SetSchemas(nil)
	a.SetSecuredBy(nil)
	a.SetTitle(k)
	a.SetTraits(nil)
	a.SetTypes(nil)
	a.SetUses(nil)
	a.SetVersion(k)
	vc.Check(vcReadAPISpec(b), was, "nothing is shared")
}
