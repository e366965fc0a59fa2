package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcCustomExampleState is what can be read from a raml.CustomExample.
type vcCustomExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.Untyped
}

func vcReadCustomExample(t raml.CustomExample) (s vcCustomExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_CustomExample_SetAnnotations(t raml.CustomExample, v raml.AnnotationMap) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_SetAnnotations_nil(t raml.CustomExample) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_SetDescription(t raml.CustomExample, v string) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_SetDisplayName(t raml.CustomExample, v string) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_SetStrict(t raml.CustomExample, v bool) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_SetValue(t raml.CustomExample, v interface{}) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Value = option.NewMaybeUntyped(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_UnsetAnnotations(t raml.CustomExample) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_UnsetDescription(t raml.CustomExample) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_UnsetDisplayName(t raml.CustomExample) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_CustomExample_UnsetValue(t raml.CustomExample) {
	raw := vcReadCustomExample(t)
	want := vc.Freeze(raw).(vcCustomExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadCustomExample(t)
	want.Value = option.NewEmptyUntyped()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewCustomExample: t is a new element, with the RAML 1.0 defaults.
func VcNewCustomExample(t raml.CustomExample) {
	got := vcReadCustomExample(t)
	var want vcCustomExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_CustomExample_defaults() {
	VcNewCustomExample(NewCustomExample())
}

func VcC06_CustomExample_apart(k string, q interface{}) {
	a, b := raml.CustomExample(NewCustomExample()), raml.CustomExample(NewCustomExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartCustomExample(a, b, k, q)
}

// VcApartCustomExample: no change of a shows in b.
func VcApartCustomExample(a, b raml.CustomExample, k string, q interface{}) {
	was := vc.Freeze(vcReadCustomExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadCustomExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(q)
	vc.Check(vcReadCustomExample(b), was, "nothing is shared")
}
