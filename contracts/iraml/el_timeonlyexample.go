package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcTimeOnlyExampleState is what can be read from a raml.TimeOnlyExample.
type vcTimeOnlyExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.String
}

func vcReadTimeOnlyExample(t raml.TimeOnlyExample) (s vcTimeOnlyExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_TimeOnlyExample_SetAnnotations(t raml.TimeOnlyExample, v raml.AnnotationMap) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_SetAnnotations_nil(t raml.TimeOnlyExample) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_SetDescription(t raml.TimeOnlyExample, v string) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_SetDisplayName(t raml.TimeOnlyExample, v string) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_SetStrict(t raml.TimeOnlyExample, v bool) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_SetValue(t raml.TimeOnlyExample, v string) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Value = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_UnsetAnnotations(t raml.TimeOnlyExample) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_UnsetDescription(t raml.TimeOnlyExample) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_UnsetDisplayName(t raml.TimeOnlyExample) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_TimeOnlyExample_UnsetValue(t raml.TimeOnlyExample) {
	raw := vcReadTimeOnlyExample(t)
	want := vc.Freeze(raw).(vcTimeOnlyExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadTimeOnlyExample(t)
	want.Value = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewTimeOnlyExample: t is a new element, with the RAML 1.0 defaults.
func VcNewTimeOnlyExample(t raml.TimeOnlyExample) {
	got := vcReadTimeOnlyExample(t)
	var want vcTimeOnlyExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_TimeOnlyExample_defaults() {
	VcNewTimeOnlyExample(NewTimeOnlyExample())
}

func VcC06_TimeOnlyExample_apart(k string, q interface{}) {
	a, b := raml.TimeOnlyExample(NewTimeOnlyExample()), raml.TimeOnlyExample(NewTimeOnlyExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartTimeOnlyExample(a, b, k, q)
}

// VcApartTimeOnlyExample: no change of a shows in b.
func VcApartTimeOnlyExample(a, b raml.TimeOnlyExample, k string, q interface{}) {
	was := vc.Freeze(vcReadTimeOnlyExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadTimeOnlyExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(k)
	vc.Check(vcReadTimeOnlyExample(b), was, "nothing is shared")
}
