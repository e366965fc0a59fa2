package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcAnyTypeState is what can be read from a raml.AnyType.
type vcAnyTypeState struct {
	Annotations      raml.AnnotationMap
	Default          option.Untyped
	Description      option.String
	DisplayName      option.String
	Enum             []interface{}
	Example          raml.AnyExample
	Examples         raml.AnyExampleMap
	ExtraFacets      raml.AnyMap
	FacetDefinitions raml.FacetMap
	Kind             rmeta.DataTypeKind
	Schema           string
	Type             string
	XML              raml.XML
	Required         bool
}

func vcReadAnyType(t raml.AnyType) (s vcAnyTypeState) {
	s.Annotations = t.Annotations()
	s.Default = t.Default()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.Enum = t.Enum()
	s.Example = t.Example()
	s.Examples = t.Examples()
	s.ExtraFacets = t.ExtraFacets()
	s.FacetDefinitions = t.FacetDefinitions()
	s.Kind = t.Kind()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.XML = t.XML()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_AnyType_OverrideType(t raml.AnyType, v string) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	t.OverrideType(v)
	got := vcReadAnyType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetAnnotations(t raml.AnyType, v raml.AnnotationMap) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Annotations = fv
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetAnnotations_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetDefault(t raml.AnyType, v interface{}) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	given := v
	r := t.SetDefault(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Default = option.NewMaybeUntyped(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Default.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetDescription(t raml.AnyType, v string) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetDisplayName(t raml.AnyType, v string) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetEnum(t raml.AnyType, v []interface{}) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetEnum(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Enum = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetEnum_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetEnum(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetExample(t raml.AnyType, v raml.AnyExample) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetExample(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Example = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Example, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetExample_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetExample(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Example == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetExamples(t raml.AnyType, v raml.AnyExampleMap) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	fv := vc.Freeze(v).(raml.AnyExampleMap)
	r := t.SetExamples(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Examples = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetExamples_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetExamples(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetExtraFacets(t raml.AnyType, v raml.AnyMap) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	fv := vc.Freeze(v).(raml.AnyMap)
	r := t.SetExtraFacets(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.ExtraFacets = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetExtraFacets_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetExtraFacets(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetFacetDefinitions(t raml.AnyType, v raml.FacetMap) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	fv := vc.Freeze(v).(raml.FacetMap)
	r := t.SetFacetDefinitions(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.FacetDefinitions = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetFacetDefinitions_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetFacetDefinitions(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetRequired(t raml.AnyType, v bool) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetRequired(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Required = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Required, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetType(t raml.AnyType, v string) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetType(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetXML(t raml.AnyType, v raml.XML) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetXML(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.XML = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.XML, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_SetXML_nil(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.SetXML(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.XML == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetAnnotations(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetDefault(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetDefault()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Default = option.NewEmptyUntyped()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetDescription(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetDisplayName(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetEnum(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetEnum()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetExample(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetExample()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetExamples(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetExamples()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.Examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetExtraFacets(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetExtraFacets()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetFacetDefinitions(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetFacetDefinitions()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_AnyType_UnsetXML(t raml.AnyType) {
	raw := vcReadAnyType(t)
	want := vc.Freeze(raw).(vcAnyTypeState)
	r := t.UnsetXML()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewAnyType: t is a new element, with the RAML 1.0 defaults.
func VcNewAnyType(t raml.AnyType) {
	got := vcReadAnyType(t)
	var want vcAnyTypeState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.Examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("any")
	want.Schema = "any"
	want.Type = "any"
	want.Required = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.Examples != nil, "Examples is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_AnyType_defaults() {
	VcNewAnyType(NewAnyType())
}

func VcC06_AnyType_apart(k string, q interface{}) {
	a, b := raml.AnyType(NewAnyType()), raml.AnyType(NewAnyType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartAnyType(a, b, k, q)
}

// VcApartAnyType: no change of a shows in b.
func VcApartAnyType(a, b raml.AnyType, k string, q interface{}) {
	was := vc.Freeze(vcReadAnyType(b))
	a.Annotations().Put(k, nil)
	a.Examples().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.FacetDefinitions().Put(k, nil)
	vc.Check(vcReadAnyType(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDefault(q)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetEnum(nil)
	a.SetExample(nil)
	a.SetExamples(nil)
	a.SetExtraFacets(nil)
	a.SetFacetDefinitions(nil)
	a.SetRequired(false)
	a.SetType(k)
	a.SetXML(nil)
	vc.Check(vcReadAnyType(b), was, "nothing is shared")
}
