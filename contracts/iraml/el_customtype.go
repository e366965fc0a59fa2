package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcCustomTypeState is what can be read from a raml.CustomType.
type vcCustomTypeState struct {
	Annotations      raml.AnnotationMap
	Default          option.Untyped
	Description      option.String
	DisplayName      option.String
	Enum             []interface{}
	Example          raml.CustomExample
	Examples         raml.CustomExampleMap
	ExtraFacets      raml.AnyMap
	FacetDefinitions raml.FacetMap
	Kind             rmeta.DataTypeKind
	Schema           string
	Type             string
	XML              raml.XML
	Required         bool
}

func vcReadCustomType(t raml.CustomType) (s vcCustomTypeState) {
	s.Annotations = t.Annotations()
	s.Default = t.Default()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.Enum = t.Enum()
	s.Example = t.Example()
	s.Examples = t.Examples()
	s.ExtraFacets = t.ExtraFacets()
	s.FacetDefinitions = t.FacetDefinitions()
	s.Kind = t.Kind()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.XML = t.XML()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_CustomType_OverrideType(t raml.CustomType, v string) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	t.OverrideType(v)
	got := vcReadCustomType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetAnnotations(t raml.CustomType, v raml.AnnotationMap) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Annotations = fv
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetAnnotations_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetDefault(t raml.CustomType, v interface{}) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	given := v
	r := t.SetDefault(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Default = option.NewMaybeUntyped(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Default.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetDescription(t raml.CustomType, v string) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetDisplayName(t raml.CustomType, v string) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetEnum(t raml.CustomType, v []interface{}) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetEnum(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Enum = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetEnum_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetEnum(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetExample(t raml.CustomType, v raml.CustomExample) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetExample(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Example = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Example, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetExample_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetExample(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Example == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetExamples(t raml.CustomType, v raml.CustomExampleMap) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	fv := vc.Freeze(v).(raml.CustomExampleMap)
	r := t.SetExamples(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Examples = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetExamples_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetExamples(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetExtraFacets(t raml.CustomType, v raml.AnyMap) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	fv := vc.Freeze(v).(raml.AnyMap)
	r := t.SetExtraFacets(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.ExtraFacets = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetExtraFacets_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetExtraFacets(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetFacetDefinitions(t raml.CustomType, v raml.FacetMap) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	fv := vc.Freeze(v).(raml.FacetMap)
	r := t.SetFacetDefinitions(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.FacetDefinitions = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetFacetDefinitions_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetFacetDefinitions(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetRequired(t raml.CustomType, v bool) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetRequired(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Required = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Required, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetType(t raml.CustomType, v string) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetType(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetXML(t raml.CustomType, v raml.XML) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetXML(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.XML = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.XML, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_SetXML_nil(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.SetXML(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.XML == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetAnnotations(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetDefault(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetDefault()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Default = option.NewEmptyUntyped()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetDescription(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetDisplayName(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetEnum(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetEnum()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetExample(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetExample()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetExamples(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetExamples()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.Examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetExtraFacets(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetExtraFacets()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetFacetDefinitions(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetFacetDefinitions()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_CustomType_UnsetXML(t raml.CustomType) {
	raw := vcReadCustomType(t)
	want := vc.Freeze(raw).(vcCustomTypeState)
	r := t.UnsetXML()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewCustomType: t is a new element, with the RAML 1.0 defaults.
func VcNewCustomType(t raml.CustomType) {
	got := vcReadCustomType(t)
	var want vcCustomTypeState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.Examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("custom")
	want.Schema = "custom"
	want.Type = "custom"
	want.Required = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.Examples != nil, "Examples is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_CustomType_defaults() {
	VcNewCustomType(NewCustomType())
}

func VcC06_CustomType_apart(k string, q interface{}) {
	a, b := raml.CustomType(NewCustomType()), raml.CustomType(NewCustomType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartCustomType(a, b, k, q)
}

// VcApartCustomType: no change of a shows in b.
func VcApartCustomType(a, b raml.CustomType, k string, q interface{}) {
	was := vc.Freeze(vcReadCustomType(b))
	a.Annotations().Put(k, nil)
	a.Examples().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.FacetDefinitions().Put(k, nil)
	vc.Check(vcReadCustomType(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDefault(q)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetEnum(nil)
	a.SetExample(nil)
	a.SetExamples(nil)
	a.SetExtraFacets(nil)
	a.SetFacetDefinitions(nil)
	a.SetRequired(false)
	a.SetType(k)
	a.SetXML(nil)
	vc.Check(vcReadCustomType(b), was, "nothing is shared")
}
