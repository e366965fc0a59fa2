package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcBoolTypeState is what can be read from a raml.BoolType.
type vcBoolTypeState struct {
	Annotations      raml.AnnotationMap
	Default          option.Bool
	Description      option.String
	DisplayName      option.String
	Enum             []bool
	Example          raml.BoolExample
	Examples         raml.BoolExampleMap
	ExtraFacets      raml.AnyMap
	FacetDefinitions raml.FacetMap
	Kind             rmeta.DataTypeKind
	Schema           string
	Type             string
	XML              raml.XML
	Required         bool
}

func vcReadBoolType(t raml.BoolType) (s vcBoolTypeState) {
	s.Annotations = t.Annotations()
	s.Default = t.Default()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.Enum = t.Enum()
	s.Example = t.Example()
	s.Examples = t.Examples()
	s.ExtraFacets = t.ExtraFacets()
	s.FacetDefinitions = t.FacetDefinitions()
	s.Kind = t.Kind()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.XML = t.XML()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_BoolType_OverrideType(t raml.BoolType, v string) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	t.OverrideType(v)
	got := vcReadBoolType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetAnnotations(t raml.BoolType, v raml.AnnotationMap) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Annotations = fv
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetAnnotations_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetDefault(t raml.BoolType, v bool) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	given := v
	r := t.SetDefault(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Default = option.NewMaybeBool(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Default.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetDescription(t raml.BoolType, v string) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetDisplayName(t raml.BoolType, v string) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetEnum(t raml.BoolType, v []bool) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetEnum(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Enum = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetEnum_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetEnum(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetExample(t raml.BoolType, v raml.BoolExample) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetExample(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Example = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Example, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetExample_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetExample(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Example == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetExamples(t raml.BoolType, v raml.BoolExampleMap) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	fv := vc.Freeze(v).(raml.BoolExampleMap)
	r := t.SetExamples(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Examples = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetExamples_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetExamples(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetExtraFacets(t raml.BoolType, v raml.AnyMap) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	fv := vc.Freeze(v).(raml.AnyMap)
	r := t.SetExtraFacets(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.ExtraFacets = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetExtraFacets_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetExtraFacets(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetFacetDefinitions(t raml.BoolType, v raml.FacetMap) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	fv := vc.Freeze(v).(raml.FacetMap)
	r := t.SetFacetDefinitions(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.FacetDefinitions = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetFacetDefinitions_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetFacetDefinitions(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetRequired(t raml.BoolType, v bool) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetRequired(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Required = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Required, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetType(t raml.BoolType, v string) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetType(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetXML(t raml.BoolType, v raml.XML) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetXML(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.XML = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.XML, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_SetXML_nil(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.SetXML(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.XML == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetAnnotations(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetDefault(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetDefault()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Default = option.NewEmptyBool()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetDescription(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetDisplayName(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetEnum(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetEnum()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetExample(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetExample()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetExamples(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetExamples()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.Examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetExtraFacets(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetExtraFacets()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetFacetDefinitions(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetFacetDefinitions()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_BoolType_UnsetXML(t raml.BoolType) {
	raw := vcReadBoolType(t)
	want := vc.Freeze(raw).(vcBoolTypeState)
	r := t.UnsetXML()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewBoolType: t is a new element, with the RAML 1.0 defaults.
func VcNewBoolType(t raml.BoolType) {
	got := vcReadBoolType(t)
	var want vcBoolTypeState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.Examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("boolean")
	want.Schema = "boolean"
	want.Type = "boolean"
	want.Required = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.Examples != nil, "Examples is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_BoolType_defaults() {
	VcNewBoolType(NewBoolType())
}

func VcC06_BoolType_apart(k string, q interface{}) {
	a, b := raml.BoolType(NewBoolType()), raml.BoolType(NewBoolType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartBoolType(a, b, k, q)
}

// VcApartBoolType: no change of a shows in b.
func VcApartBoolType(a, b raml.BoolType, k string, q interface{}) {
	was := vc.Freeze(vcReadBoolType(b))
	a.Annotations().Put(k, nil)
	a.Examples().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.FacetDefinitions().Put(k, nil)
	vc.Check(vcReadBoolType(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDefault(false)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetEnum(nil)
	a.SetExample(nil)
	a.SetExamples(nil)
	a.SetExtraFacets(nil)
	a.SetFacetDefinitions(nil)
	a.SetRequired(false)
	a.SetType(k)
	a.SetXML(nil)
	vc.Check(vcReadBoolType(b), was, "nothing is shared")
}
