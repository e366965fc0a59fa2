package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcObjectTypeState is what can be read from a raml.ObjectType.
type vcObjectTypeState struct {
	AdditionalProperties bool
	Annotations          raml.AnnotationMap
	Default              option.Untyped
	Description          option.String
	Discriminator        option.String
	DiscriminatorValue   option.Untyped
	DisplayName          option.String
	Enum                 []interface{}
	Example              raml.ObjectExample
	Examples             raml.ObjectExampleMap
	ExtraFacets          raml.AnyMap
	FacetDefinitions     raml.FacetMap
	Kind                 rmeta.DataTypeKind
	MaxProperties        option.Uint
	MinProperties        option.Uint
	Properties           raml.PropertyMap
	Schema               string
	Type                 string
	XML                  raml.XML
	Required             bool
}

func vcReadObjectType(t raml.ObjectType) (s vcObjectTypeState) {
	s.AdditionalProperties = t.AdditionalProperties()
	s.Annotations = t.Annotations()
	s.Default = t.Default()
	s.Description = t.Description()
	s.Discriminator = t.Discriminator()
	s.DiscriminatorValue = t.DiscriminatorValue()
	s.DisplayName = t.DisplayName()
	s.Enum = t.Enum()
	s.Example = t.Example()
	s.Examples = t.Examples()
	s.ExtraFacets = t.ExtraFacets()
	s.FacetDefinitions = t.FacetDefinitions()
	s.Kind = t.Kind()
	s.MaxProperties = t.MaxProperties()
	s.MinProperties = t.MinProperties()
	s.Properties = t.Properties()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.XML = t.XML()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_ObjectType_OverrideType(t raml.ObjectType, v string) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	t.OverrideType(v)
	got := vcReadObjectType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetAdditionalProperties(t raml.ObjectType, v bool) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetAdditionalProperties(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.AdditionalProperties = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(vc.Is(got.AdditionalProperties, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetAnnotations(t raml.ObjectType, v raml.AnnotationMap) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Annotations = fv
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetAnnotations_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetDefault(t raml.ObjectType, v interface{}) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetDefault(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Default = option.NewMaybeUntyped(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Default.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetDescription(t raml.ObjectType, v string) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetDiscriminator(t raml.ObjectType, v string) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetDiscriminator(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Discriminator = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Discriminator.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetDiscriminatorValue(t raml.ObjectType, v interface{}) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetDiscriminatorValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.DiscriminatorValue = option.NewMaybeUntyped(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.DiscriminatorValue.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetDisplayName(t raml.ObjectType, v string) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetEnum(t raml.ObjectType, v []interface{}) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetEnum(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Enum = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetEnum_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetEnum(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetExample(t raml.ObjectType, v raml.ObjectExample) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetExample(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Example = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(vc.Is(got.Example, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetExample_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetExample(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Example == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetExamples(t raml.ObjectType, v raml.ObjectExampleMap) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	fv := vc.Freeze(v).(raml.ObjectExampleMap)
	r := t.SetExamples(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Examples = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Examples == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetExamples_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetExamples(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetExtraFacets(t raml.ObjectType, v raml.AnyMap) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	fv := vc.Freeze(v).(raml.AnyMap)
	r := t.SetExtraFacets(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.ExtraFacets = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.ExtraFacets == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetExtraFacets_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetExtraFacets(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetFacetDefinitions(t raml.ObjectType, v raml.FacetMap) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	fv := vc.Freeze(v).(raml.FacetMap)
	r := t.SetFacetDefinitions(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.FacetDefinitions = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.FacetDefinitions == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetFacetDefinitions_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetFacetDefinitions(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetMaxProperties(t raml.ObjectType, v uint) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetMaxProperties(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.MaxProperties = option.NewMaybeUint(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.MaxProperties.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetMinProperties(t raml.ObjectType, v uint) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	given := v
	r := t.SetMinProperties(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.MinProperties = option.NewMaybeUint(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.MinProperties.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetProperties(t raml.ObjectType, v raml.PropertyMap) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	fv := vc.Freeze(v).(raml.PropertyMap)
	r := t.SetProperties(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Properties = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetProperties_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetProperties(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Properties = raml.NewPropertyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties != nil, "Properties is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetRequired(t raml.ObjectType, v bool) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetRequired(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Required = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(vc.Is(got.Required, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetType(t raml.ObjectType, v string) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetType(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetXML(t raml.ObjectType, v raml.XML) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetXML(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.XML = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(vc.Is(got.XML, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_SetXML_nil(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.SetXML(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.XML == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetAnnotations(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetDefault(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetDefault()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Default = option.NewEmptyUntyped()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetDescription(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetDiscriminator(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetDiscriminator()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Discriminator = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetDiscriminatorValue(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetDiscriminatorValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.DiscriminatorValue = option.NewEmptyUntyped()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetDisplayName(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetEnum(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetEnum()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetExample(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetExample()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetExamples(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetExamples()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetExtraFacets(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetExtraFacets()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetFacetDefinitions(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetFacetDefinitions()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetMaxProperties(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetMaxProperties()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.MaxProperties = option.NewEmptyUint()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetMinProperties(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetMinProperties()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.MinProperties = option.NewEmptyUint()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetProperties(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetProperties()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.Properties = raml.NewPropertyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties != nil, "Properties is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_ObjectType_UnsetXML(t raml.ObjectType) {
	raw := vcReadObjectType(t)
	want := vc.Freeze(raw).(vcObjectTypeState)
	r := t.UnsetXML()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadObjectType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Properties == raw.Properties, "Properties stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewObjectType: t is a new element, with the RAML 1.0 defaults.
func VcNewObjectType(t raml.ObjectType) {
	got := vcReadObjectType(t)
	var want vcObjectTypeState
	want.AdditionalProperties = true
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.Examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("object")
	want.Properties = raml.NewPropertyMap(0).SerializeOrdered(false)
	want.Schema = "object"
	want.Type = "object"
	want.Required = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.Examples != nil, "Examples is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is present")
	vc.Assert(got.Properties != nil, "Properties is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_ObjectType_defaults() {
	VcNewObjectType(NewObjectType())
}

func VcC06_ObjectType_apart(k string, q interface{}) {
	a, b := raml.ObjectType(NewObjectType()), raml.ObjectType(NewObjectType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartObjectType(a, b, k, q)
}

// VcApartObjectType: no change of a shows in b.
func VcApartObjectType(a, b raml.ObjectType, k string, q interface{}) {
	was := vc.Freeze(vcReadObjectType(b))
	a.Annotations().Put(k, nil)
	a.Examples().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.FacetDefinitions().Put(k, nil)
	a.Properties().Put(k, nil)
	vc.Check(vcReadObjectType(b), was, "nothing is shared")
	a.SetAdditionalProperties(false)
	a.SetAnnotations(nil)
	a.SetDefault(q)
	a.SetDescription(k)
	a.SetDiscriminator(k)
	a.SetDiscriminatorValue(q)
	a.SetDisplayName(k)
	a.SetEnum(nil)
	a.SetExample(nil)
	a.SetExamples(nil)
	a.SetExtraFacets(nil)
	a.SetFacetDefinitions(nil)
	a.SetMaxProperties(7)
	a.SetMinProperties(7)
	a.SetProperties(nil)
	a.SetRequired(false)
	a.SetType(k)
	a.SetXML(nil)
	vc.Check(vcReadObjectType(b), was, "nothing is shared")
}
