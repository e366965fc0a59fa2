package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcDateOnlyTypeState is what can be read from a raml.DateOnlyType.
type vcDateOnlyTypeState struct {
	Annotations      raml.AnnotationMap
	Default          option.String
	Description      option.String
	DisplayName      option.String
	Enum             []string
	Example          raml.DateOnlyExample
	Examples         raml.DateOnlyExampleMap
	ExtraFacets      raml.AnyMap
	FacetDefinitions raml.FacetMap
	Kind             rmeta.DataTypeKind
	Schema           string
	Type             string
	XML              raml.XML
	Required         bool
}

func vcReadDateOnlyType(t raml.DateOnlyType) (s vcDateOnlyTypeState) {
	s.Annotations = t.Annotations()
	s.Default = t.Default()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.Enum = t.Enum()
	s.Example = t.Example()
	s.Examples = t.Examples()
	s.ExtraFacets = t.ExtraFacets()
	s.FacetDefinitions = t.FacetDefinitions()
	s.Kind = t.Kind()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.XML = t.XML()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_DateOnlyType_OverrideType(t raml.DateOnlyType, v string) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	t.OverrideType(v)
	got := vcReadDateOnlyType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetAnnotations(t raml.DateOnlyType, v raml.AnnotationMap) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Annotations = fv
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetAnnotations_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetDefault(t raml.DateOnlyType, v string) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	given := v
	r := t.SetDefault(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Default = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Default.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetDescription(t raml.DateOnlyType, v string) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetDisplayName(t raml.DateOnlyType, v string) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetEnum(t raml.DateOnlyType, v []string) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetEnum(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Enum = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetEnum_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetEnum(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetExample(t raml.DateOnlyType, v raml.DateOnlyExample) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetExample(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Example = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Example, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetExample_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetExample(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Example == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetExamples(t raml.DateOnlyType, v raml.DateOnlyExampleMap) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	fv := vc.Freeze(v).(raml.DateOnlyExampleMap)
	r := t.SetExamples(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Examples = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetExamples_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetExamples(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetExtraFacets(t raml.DateOnlyType, v raml.AnyMap) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	fv := vc.Freeze(v).(raml.AnyMap)
	r := t.SetExtraFacets(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.ExtraFacets = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetExtraFacets_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetExtraFacets(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetFacetDefinitions(t raml.DateOnlyType, v raml.FacetMap) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	fv := vc.Freeze(v).(raml.FacetMap)
	r := t.SetFacetDefinitions(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.FacetDefinitions = fv
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetFacetDefinitions_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetFacetDefinitions(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetRequired(t raml.DateOnlyType, v bool) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetRequired(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Required = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Required, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetType(t raml.DateOnlyType, v string) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetType(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetXML(t raml.DateOnlyType, v raml.XML) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetXML(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.XML = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(vc.Is(got.XML, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_SetXML_nil(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.SetXML(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.XML == nil, "reads back nothing")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetAnnotations(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetDefault(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetDefault()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Default = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetDescription(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetDisplayName(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetEnum(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetEnum()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Enum = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetExample(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetExample()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Example = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetExamples(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetExamples()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.Examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.Examples != nil, "Examples is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetExtraFacets(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetExtraFacets()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetFacetDefinitions(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetFacetDefinitions()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC04_DateOnlyType_UnsetXML(t raml.DateOnlyType) {
	raw := vcReadDateOnlyType(t)
	want := vc.Freeze(raw).(vcDateOnlyTypeState)
	r := t.UnsetXML()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyType(t)
	want.XML = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.Examples == raw.Examples, "Examples stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.FacetDefinitions == raw.FacetDefinitions, "FacetDefinitions stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewDateOnlyType: t is a new element, with the RAML 1.0 defaults.
func VcNewDateOnlyType(t raml.DateOnlyType) {
	got := vcReadDateOnlyType(t)
	var want vcDateOnlyTypeState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.Examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.FacetDefinitions = raml.NewFacetMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("date-only")
	want.Schema = "date-only"
	want.Type = "date-only"
	want.Required = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.Examples != nil, "Examples is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Assert(got.FacetDefinitions != nil, "FacetDefinitions is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_DateOnlyType_defaults() {
	VcNewDateOnlyType(NewDateOnlyType())
}

func VcC06_DateOnlyType_apart(k string, q interface{}) {
	a, b := raml.DateOnlyType(NewDateOnlyType()), raml.DateOnlyType(NewDateOnlyType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartDateOnlyType(a, b, k, q)
}

// VcApartDateOnlyType: no change of a shows in b.
func VcApartDateOnlyType(a, b raml.DateOnlyType, k string, q interface{}) {
	was := vc.Freeze(vcReadDateOnlyType(b))
	a.Annotations().Put(k, nil)
	a.Examples().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	a.FacetDefinitions().Put(k, nil)
	vc.Check(vcReadDateOnlyType(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDefault(k)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetEnum(nil)
	a.SetExample(nil)
	a.SetExamples(nil)
	a.SetExtraFacets(nil)
	a.SetFacetDefinitions(nil)
	a.SetRequired(false)
	a.SetType(k)
	a.SetXML(nil)
	vc.Check(vcReadDateOnlyType(b), was, "nothing is shared")
}
