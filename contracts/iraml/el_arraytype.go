package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcArrayTypeState is what can be read from a raml.ArrayType.
type vcArrayTypeState struct {
	Annotations      raml.AnnotationMap
	Default          []interface{}
	Description      option.String
	DisplayName      option.String
	Enum             []interface{}
	Example          raml.ArrayExample
	Examples         raml.ArrayExampleMap
	ExtraFacets      raml.AnyMap
	FacetDefinitions raml.FacetMap
	Items            raml.DataType
	Kind             rmeta.DataTypeKind
	MaxItems         uint
	MinItems         uint
	Schema           string
	Type             string
	UniqueItems      bool
	XML              raml.XML
	Required         bool
}

func vcReadArrayType(t raml.ArrayType) (s vcArrayTypeState) {
	s.Annotations = t.Annotations()
	s.Default = t.Default()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.Enum = t.Enum()
	s.Example = t.Example()
	s.Examples = t.Examples()
	s.ExtraFacets = t.ExtraFacets()
	s.FacetDefinitions = t.FacetDefinitions()
	s.Items = t.Items()
	s.Kind = t.Kind()
	s.MaxItems = t.MaxItems()
	s.MinItems = t.MinItems()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.UniqueItems = t.UniqueItems()
	s.XML = t.XML()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_ArrayType_OverrideType(t raml.ArrayType, v string) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	t.OverrideType(v)
	got := vcReadArrayType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetAnnotations(t raml.ArrayType, v raml.AnnotationMap) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Annotations = fv
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetAnnotations_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetDefault(t raml.ArrayType, v []interface{}) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetDefault(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Default = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetDefault_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetDefault(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Default = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetDescription(t raml.ArrayType, v string) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetDisplayName(t raml.ArrayType, v string) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetEnum(t raml.ArrayType, v []interface{}) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetEnum(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Enum = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetEnum_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetEnum(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetExample(t raml.ArrayType, v raml.ArrayExample) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetExample(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Example = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Example, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetExample_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetExample(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Example == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetExamples(t raml.ArrayType, v raml.ArrayExampleMap) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	fv := vc.Freeze(v).(raml.ArrayExampleMap)
	r := t.SetExamples(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Examples = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetExamples_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetExamples(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetExtraFacets(t raml.ArrayType, v raml.AnyMap) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	fv := vc.Freeze(v).(raml.AnyMap)
	r := t.SetExtraFacets(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.ExtraFacets = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetExtraFacets_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetExtraFacets(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetFacetDefinitions(t raml.ArrayType, v raml.FacetMap) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	fv := vc.Freeze(v).(raml.FacetMap)
	r := t.SetFacetDefinitions(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.FacetDefinitions = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetFacetDefinitions_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetFacetDefinitions(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetItems(t raml.ArrayType, v raml.DataType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetItems(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Items = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Items, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetItems_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetItems(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Items = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Items == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetMaxItems(t raml.ArrayType, v uint) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetMaxItems(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.MaxItems = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.MaxItems, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetMinItems(t raml.ArrayType, v uint) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetMinItems(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.MinItems = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.MinItems, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetRequired(t raml.ArrayType, v bool) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetRequired(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Required = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Required, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetType(t raml.ArrayType, v string) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetType(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetUniqueItems(t raml.ArrayType, v bool) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetUniqueItems(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.UniqueItems = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.UniqueItems, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetXML(t raml.ArrayType, v raml.XML) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetXML(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.XML = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.XML, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_SetXML_nil(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.SetXML(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.XML == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetAnnotations(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetDefault(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetDefault()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Default = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetDescription(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetDisplayName(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetEnum(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetEnum()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetExample(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetExample()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetExamples(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetExamples()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetExtraFacets(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetExtraFacets()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetFacetDefinitions(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetFacetDefinitions()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetItems(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetItems()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.Items = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ArrayType_UnsetXML(t raml.ArrayType) {
	raw := vcReadArrayType(t)
	want := vc.Freeze(raw).(vcArrayTypeState)
	r := t.UnsetXML()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewArrayType: t is a new element, with the RAML 1.0 defaults.
func VcNewArrayType(t raml.ArrayType) {
	got := vcReadArrayType(t)
	var want vcArrayTypeState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.Examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("array")
	want.MaxItems = 2147483647
	want.Schema = "array"
	want.Type = "array"
	want.Required = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.Examples != nil, "Examples is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_ArrayType_defaults() {
	VcNewArrayType(NewArrayType())
}

func VcC06_ArrayType_apart(k string, q interface{}) {
	a, b := raml.ArrayType(NewArrayType()), raml.ArrayType(NewArrayType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartArrayType(a, b, k, q)
}

// VcApartArrayType: no change of a shows in b.
func VcApartArrayType(a, b raml.ArrayType, k string, q interface{}) {
	was := vc.Freeze(vcReadArrayType(b))
	a.Annotations().Put(k, nil)
	a.Examples().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.FacetDefinitions().Put(k, nil)
	vc.Check(vcReadArrayType(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDefault(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetEnum(nil)
	a.SetExample(nil)
	a.SetExamples(nil)
	a.SetExtraFacets(nil)
	a.SetFacetDefinitions(nil)
	a.SetItems(nil)
	a.SetMaxItems(7)
	a.SetMinItems(7)
	a.SetRequired(false)
	a.SetType(k)
	a.SetUniqueItems(false)
	a.SetXML(nil)
	vc.Check(vcReadArrayType(b), was, "nothing is shared")
}
