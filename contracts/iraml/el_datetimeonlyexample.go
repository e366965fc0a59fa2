package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcDatetimeOnlyExampleState is what can be read from a raml.DatetimeOnlyExample.
type vcDatetimeOnlyExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.String
}

func vcReadDatetimeOnlyExample(t raml.DatetimeOnlyExample) (s vcDatetimeOnlyExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_DatetimeOnlyExample_SetAnnotations(t raml.DatetimeOnlyExample, v raml.AnnotationMap) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_SetAnnotations_nil(t raml.DatetimeOnlyExample) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_SetDescription(t raml.DatetimeOnlyExample, v string) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_SetDisplayName(t raml.DatetimeOnlyExample, v string) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_SetStrict(t raml.DatetimeOnlyExample, v bool) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_SetValue(t raml.DatetimeOnlyExample, v string) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Value = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_UnsetAnnotations(t raml.DatetimeOnlyExample) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_UnsetDescription(t raml.DatetimeOnlyExample) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_UnsetDisplayName(t raml.DatetimeOnlyExample) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeOnlyExample_UnsetValue(t raml.DatetimeOnlyExample) {
	raw := vcReadDatetimeOnlyExample(t)
	want := vc.Freeze(raw).(vcDatetimeOnlyExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeOnlyExample(t)
	want.Value = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewDatetimeOnlyExample: t is a new element, with the RAML 1.0 defaults.
func VcNewDatetimeOnlyExample(t raml.DatetimeOnlyExample) {
	got := vcReadDatetimeOnlyExample(t)
	var want vcDatetimeOnlyExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_DatetimeOnlyExample_defaults() {
	VcNewDatetimeOnlyExample(NewDatetimeOnlyExample())
}

func VcC06_DatetimeOnlyExample_apart(k string, q interface{}) {
	a, b := raml.DatetimeOnlyExample(NewDatetimeOnlyExample()), raml.DatetimeOnlyExample(NewDatetimeOnlyExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartDatetimeOnlyExample(a, b, k, q)
}

// VcApartDatetimeOnlyExample: no change of a shows in b.
func VcApartDatetimeOnlyExample(a, b raml.DatetimeOnlyExample, k string, q interface{}) {
	was := vc.Freeze(vcReadDatetimeOnlyExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadDatetimeOnlyExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(k)
	vc.Check(vcReadDatetimeOnlyExample(b), was, "nothing is shared")
}
