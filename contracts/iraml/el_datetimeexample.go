package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcDatetimeExampleState is what can be read from a raml.DatetimeExample.
type vcDatetimeExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.String
}

func vcReadDatetimeExample(t raml.DatetimeExample) (s vcDatetimeExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_DatetimeExample_SetAnnotations(t raml.DatetimeExample, v raml.AnnotationMap) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_SetAnnotations_nil(t raml.DatetimeExample) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_SetDescription(t raml.DatetimeExample, v string) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_SetDisplayName(t raml.DatetimeExample, v string) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_SetStrict(t raml.DatetimeExample, v bool) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_SetValue(t raml.DatetimeExample, v string) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Value = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_UnsetAnnotations(t raml.DatetimeExample) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_UnsetDescription(t raml.DatetimeExample) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_UnsetDisplayName(t raml.DatetimeExample) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DatetimeExample_UnsetValue(t raml.DatetimeExample) {
	raw := vcReadDatetimeExample(t)
	want := vc.Freeze(raw).(vcDatetimeExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDatetimeExample(t)
	want.Value = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewDatetimeExample: t is a new element, with the RAML 1.0 defaults.
func VcNewDatetimeExample(t raml.DatetimeExample) {
	got := vcReadDatetimeExample(t)
	var want vcDatetimeExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_DatetimeExample_defaults() {
	VcNewDatetimeExample(NewDatetimeExample())
}

func VcC06_DatetimeExample_apart(k string, q interface{}) {
	a, b := raml.DatetimeExample(NewDatetimeExample()), raml.DatetimeExample(NewDatetimeExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartDatetimeExample(a, b, k, q)
}

// VcApartDatetimeExample: no change of a shows in b.
func VcApartDatetimeExample(a, b raml.DatetimeExample, k string, q interface{}) {
	was := vc.Freeze(vcReadDatetimeExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadDatetimeExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(k)
	vc.Check(vcReadDatetimeExample(b), was, "nothing is shared")
}
