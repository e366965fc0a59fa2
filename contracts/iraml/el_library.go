package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcLibraryState is what can be read from a raml.Library.
type vcLibraryState struct {
	AnnotationTypes raml.UntypedMap
	Annotations     raml.AnnotationMap
	ExtraFacets     raml.AnyMap
	ResourceTypes   raml.UntypedMap
	Schemas         raml.DataTypeMap
	SecuritySchemes raml.UntypedMap
	Traits          raml.UntypedMap
	Types           raml.DataTypeMap
	Usage           option.String
	Uses            raml.StringMap
}

func vcReadLibrary(t raml.Library) (s vcLibraryState) {
	s.AnnotationTypes = t.AnnotationTypes()
	s.Annotations = t.Annotations()
	s.ExtraFacets = t.ExtraFacets()
	s.ResourceTypes = t.ResourceTypes()
	s.Schemas = t.Schemas()
	s.SecuritySchemes = t.SecuritySchemes()
	s.Traits = t.Traits()
	s.Types = t.Types()
	s.Usage = t.Usage()
	s.Uses = t.Uses()
	return
}

func VcC05_Library_SetAnnotations(t raml.Library, v raml.AnnotationMap) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Annotations = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetAnnotations_nil(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetResourceTypes(t raml.Library, v raml.UntypedMap) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	fv := vc.Freeze(v).(raml.UntypedMap)
	r := t.SetResourceTypes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.ResourceTypes = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.ResourceTypes == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetResourceTypes_nil(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.SetResourceTypes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.ResourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.ResourceTypes != nil, "ResourceTypes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetSchemas(t raml.Library, v raml.DataTypeMap) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	fv := vc.Freeze(v).(raml.DataTypeMap)
	r := t.SetSchemas(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Types = fv
	want.Schemas = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types == v, "reads back the collection set")
	vc.Assert(got.Schemas == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetSchemas_nil(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.SetSchemas(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetTraits(t raml.Library, v raml.UntypedMap) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	fv := vc.Freeze(v).(raml.UntypedMap)
	r := t.SetTraits(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Traits = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Traits == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetTraits_nil(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.SetTraits(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Traits = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Traits != nil, "Traits is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetTypes(t raml.Library, v raml.DataTypeMap) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	fv := vc.Freeze(v).(raml.DataTypeMap)
	r := t.SetTypes(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Types = fv
	want.Schemas = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types == v, "reads back the collection set")
	vc.Assert(got.Schemas == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetTypes_nil(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.SetTypes(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetUsage(t raml.Library, v string) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	given := v
	r := t.SetUsage(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Usage = option.NewMaybeString(&given)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Usage.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetUses(t raml.Library, v raml.StringMap) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	fv := vc.Freeze(v).(raml.StringMap)
	r := t.SetUses(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Uses = fv
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_SetUses_nil(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.SetUses(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Uses = raml.NewStringMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses != nil, "Uses is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetAnnotations(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetResourceTypes(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetResourceTypes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.ResourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.ResourceTypes != nil, "ResourceTypes is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetSchemas(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetSchemas()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Assert(got.Types == got.Schemas, "Types and Schemas are the same")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetTraits(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetTraits()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Traits = raml.NewUntypedMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Traits != nil, "Traits is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetTypes(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetTypes()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Assert(got.Types != nil, "Types is an empty collection, never a missing one")
	vc.Assert(got.Schemas != nil, "Schemas is an empty collection, never a missing one")
	vc.Assert(got.Types == got.Schemas, "Types and Schemas are the same")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetUsage(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetUsage()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Usage = option.NewEmptyString()
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses == raw.Uses, "Uses stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Library_UnsetUses(t raml.Library) {
	raw := vcReadLibrary(t)
	want := vc.Freeze(raw).(vcLibraryState)
	r := t.UnsetUses()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadLibrary(t)
	want.Uses = raml.NewStringMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes == raw.AnnotationTypes, "AnnotationTypes stays the same collection")
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.ResourceTypes == raw.ResourceTypes, "ResourceTypes stays the same collection")
	vc.Assert(got.Schemas == raw.Schemas, "Schemas stays the same collection")
	vc.Assert(got.SecuritySchemes == raw.SecuritySchemes, "SecuritySchemes stays the same collection")
	vc.Assert(got.Traits == raw.Traits, "Traits stays the same collection")
	vc.Assert(got.Types == raw.Types, "Types stays the same collection")
	vc.Assert(got.Uses != nil, "Uses is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewLibrary: t is a new element, with the RAML 1.0 defaults.
func VcNewLibrary(t raml.Library) {
	got := vcReadLibrary(t)
	var want vcLibraryState
	want.AnnotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.ResourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Schemas = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.SecuritySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Traits = raml.NewUntypedMap(0).SerializeOrdered(false)
	want.Types = raml.NewDataTypeMap(0).SerializeOrdered(false)
	want.Uses = raml.NewStringMap(0).SerializeOrdered(false)
	vc.Assert(got.AnnotationTypes != nil, "AnnotationTypes is present")
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.ResourceTypes != nil, "ResourceTypes is present")
	vc.Assert(got.Schemas != nil, "Schemas is present")
	vc.Assert(got.SecuritySchemes != nil, "SecuritySchemes is present")
	vc.Assert(got.Traits != nil, "Traits is present")
	vc.Assert(got.Types != nil, "Types is present")
	vc.Assert(got.Uses != nil, "Uses is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_Library_defaults() {
	VcNewLibrary(NewLibrary())
}

func VcC06_Library_apart(k string, q interface{}) {
	a, b := raml.Library(NewLibrary()), raml.Library(NewLibrary())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartLibrary(a, b, k, q)
}

// VcApartLibrary: no change of a shows in b.
func VcApartLibrary(a, b raml.Library, k string, q interface{}) {
	was := vc.Freeze(vcReadLibrary(b))
	a.AnnotationTypes().Put(k, nil)
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.ResourceTypes().Put(k, nil)
	a.Schemas().Put(k, nil)
	a.SecuritySchemes().Put(k, nil)
	a.Traits().Put(k, nil)
	a.Types().Put(k, nil)
	a.Uses().Put(k, k)
	vc.Check(vcReadLibrary(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetResourceTypes(nil)
	a.SetSchemas(nil)
	a.SetTraits(nil)
	a.SetTypes(nil)
	a.SetUsage(k)
	a.SetUses(nil)
	vc.Check(vcReadLibrary(b), was, "nothing is shared")
}
