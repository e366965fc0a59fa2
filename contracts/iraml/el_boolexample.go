package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcBoolExampleState is what can be read from a raml.BoolExample.
type vcBoolExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.Bool
}

func vcReadBoolExample(t raml.BoolExample) (s vcBoolExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_BoolExample_SetAnnotations(t raml.BoolExample, v raml.AnnotationMap) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_SetAnnotations_nil(t raml.BoolExample) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_SetDescription(t raml.BoolExample, v string) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_SetDisplayName(t raml.BoolExample, v string) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_SetStrict(t raml.BoolExample, v bool) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_SetValue(t raml.BoolExample, v bool) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Value = option.NewMaybeBool(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_UnsetAnnotations(t raml.BoolExample) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_UnsetDescription(t raml.BoolExample) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_UnsetDisplayName(t raml.BoolExample) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_BoolExample_UnsetValue(t raml.BoolExample) {
	raw := vcReadBoolExample(t)
	want := vc.Freeze(raw).(vcBoolExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadBoolExample(t)
	want.Value = option.NewEmptyBool()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewBoolExample: t is a new element, with the RAML 1.0 defaults.
func VcNewBoolExample(t raml.BoolExample) {
	got := vcReadBoolExample(t)
	var want vcBoolExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_BoolExample_defaults() {
	VcNewBoolExample(NewBoolExample())
}

func VcC06_BoolExample_apart(k string, q interface{}) {
	a, b := raml.BoolExample(NewBoolExample()), raml.BoolExample(NewBoolExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartBoolExample(a, b, k, q)
}

// VcApartBoolExample: no change of a shows in b.
func VcApartBoolExample(a, b raml.BoolExample, k string, q interface{}) {
	was := vc.Freeze(vcReadBoolExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadBoolExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(false)
	vc.Check(vcReadBoolExample(b), was, "nothing is shared")
}
