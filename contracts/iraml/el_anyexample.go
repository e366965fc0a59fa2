package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcAnyExampleState is what can be read from a raml.AnyExample.
type vcAnyExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.Untyped
}

func vcReadAnyExample(t raml.AnyExample) (s vcAnyExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_AnyExample_SetAnnotations(t raml.AnyExample, v raml.AnnotationMap) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_SetAnnotations_nil(t raml.AnyExample) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_SetDescription(t raml.AnyExample, v string) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_SetDisplayName(t raml.AnyExample, v string) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_SetStrict(t raml.AnyExample, v bool) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_SetValue(t raml.AnyExample, v interface{}) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Value = option.NewMaybeUntyped(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_UnsetAnnotations(t raml.AnyExample) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_UnsetDescription(t raml.AnyExample) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_UnsetDisplayName(t raml.AnyExample) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_AnyExample_UnsetValue(t raml.AnyExample) {
	raw := vcReadAnyExample(t)
	want := vc.Freeze(raw).(vcAnyExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadAnyExample(t)
	want.Value = option.NewEmptyUntyped()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewAnyExample: t is a new element, with the RAML 1.0 defaults.
func VcNewAnyExample(t raml.AnyExample) {
	got := vcReadAnyExample(t)
	var want vcAnyExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_AnyExample_defaults() {
	VcNewAnyExample(NewAnyExample())
}

func VcC06_AnyExample_apart(k string, q interface{}) {
	a, b := raml.AnyExample(NewAnyExample()), raml.AnyExample(NewAnyExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartAnyExample(a, b, k, q)
}

// VcApartAnyExample: no change of a shows in b.
func VcApartAnyExample(a, b raml.AnyExample, k string, q interface{}) {
	was := vc.Freeze(vcReadAnyExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadAnyExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(q)
	vc.Check(vcReadAnyExample(b), was, "nothing is shared")
}
