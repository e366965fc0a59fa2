package raml

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// The setters of documents that only the concrete type has.
type vcMoreSetters interface {
	SetAnnotationTypes(raml.UntypedMap) raml.APISpec
	UnsetAnnotationTypes() raml.APISpec
	SetSecuritySchemes(raml.UntypedMap) raml.APISpec
	UnsetSecuritySchemes() raml.APISpec
}

func VcC05_APISpec_SetAnnotationTypes(t raml.APISpec, v raml.UntypedMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.UntypedMap)
	r := t.(vcMoreSetters).SetAnnotationTypes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.AnnotationTypes = fv
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.AnnotationTypes == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetAnnotationTypes_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.(vcMoreSetters).SetAnnotationTypes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.AnnotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.AnnotationTypes != nil, "AnnotationTypes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetAnnotationTypes(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.(vcMoreSetters).UnsetAnnotationTypes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.AnnotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.AnnotationTypes != nil, "AnnotationTypes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetSecuritySchemes(t raml.APISpec, v raml.UntypedMap) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	fv := vc.Freeze(v).(raml.UntypedMap)
	r := t.(vcMoreSetters).SetSecuritySchemes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.SecuritySchemes = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.SecuritySchemes == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_SetSecuritySchemes_nil(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.(vcMoreSetters).SetSecuritySchemes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.SecuritySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.SecuritySchemes != nil, "SecuritySchemes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_APISpec_UnsetSecuritySchemes(t raml.APISpec) {
	raw := vcReadAPISpec(t)
	want := vc.Freeze(raw).(vcAPISpecState)
	r := t.(vcMoreSetters).UnsetSecuritySchemes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAPISpec(t)
	want.SecuritySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.BaseURIParameters == raw.BaseURIParameters, "BaseURIParameters stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Resources == raw.Resources, "Resources stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.SecuritySchemes != nil, "SecuritySchemes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}
