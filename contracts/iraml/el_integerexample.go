package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcIntegerExampleState is what can be read from a raml.IntegerExample.
type vcIntegerExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.Int64
}

func vcReadIntegerExample(t raml.IntegerExample) (s vcIntegerExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_IntegerExample_SetAnnotations(t raml.IntegerExample, v raml.AnnotationMap) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_SetAnnotations_nil(t raml.IntegerExample) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_SetDescription(t raml.IntegerExample, v string) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_SetDisplayName(t raml.IntegerExample, v string) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_SetStrict(t raml.IntegerExample, v bool) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_SetValue(t raml.IntegerExample, v int64) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Value = option.NewMaybeInt64(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_UnsetAnnotations(t raml.IntegerExample) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_UnsetDescription(t raml.IntegerExample) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_UnsetDisplayName(t raml.IntegerExample) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_IntegerExample_UnsetValue(t raml.IntegerExample) {
	raw := vcReadIntegerExample(t)
	want := vc.Freeze(raw).(vcIntegerExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadIntegerExample(t)
	want.Value = option.NewEmptyInt64()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewIntegerExample: t is a new element, with the RAML 1.0 defaults.
func VcNewIntegerExample(t raml.IntegerExample) {
	got := vcReadIntegerExample(t)
	var want vcIntegerExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_IntegerExample_defaults() {
	VcNewIntegerExample(NewIntegerExample())
}

func VcC06_IntegerExample_apart(k string, q interface{}) {
	a, b := raml.IntegerExample(NewIntegerExample()), raml.IntegerExample(NewIntegerExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartIntegerExample(a, b, k, q)
}

// VcApartIntegerExample: no change of a shows in b.
func VcApartIntegerExample(a, b raml.IntegerExample, k string, q interface{}) {
	was := vc.Freeze(vcReadIntegerExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadIntegerExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(7)
	vc.Check(vcReadIntegerExample(b), was, "nothing is shared")
}
