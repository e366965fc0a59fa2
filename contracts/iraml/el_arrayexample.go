package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcArrayExampleState is what can be read from a raml.ArrayExample.
type vcArrayExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       []interface{}
}

func vcReadArrayExample(t raml.ArrayExample) (s vcArrayExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_ArrayExample_SetAnnotations(t raml.ArrayExample, v raml.AnnotationMap) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_SetAnnotations_nil(t raml.ArrayExample) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_SetDescription(t raml.ArrayExample, v string) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_SetDisplayName(t raml.ArrayExample, v string) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_SetStrict(t raml.ArrayExample, v bool) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_SetValue(t raml.ArrayExample, v []interface{}) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Value = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_SetValue_nil(t raml.ArrayExample) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.SetValue(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Value = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_UnsetAnnotations(t raml.ArrayExample) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_UnsetDescription(t raml.ArrayExample) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_UnsetDisplayName(t raml.ArrayExample) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_ArrayExample_UnsetValue(t raml.ArrayExample) {
	raw := vcReadArrayExample(t)
	want := vc.Freeze(raw).(vcArrayExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadArrayExample(t)
	want.Value = nil
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewArrayExample: t is a new element, with the RAML 1.0 defaults.
func VcNewArrayExample(t raml.ArrayExample) {
	got := vcReadArrayExample(t)
	var want vcArrayExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_ArrayExample_defaults() {
	VcNewArrayExample(NewArrayExample())
}

func VcC06_ArrayExample_apart(k string, q interface{}) {
	a, b := raml.ArrayExample(NewArrayExample()), raml.ArrayExample(NewArrayExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartArrayExample(a, b, k, q)
}

// VcApartArrayExample: no change of a shows in b.
func VcApartArrayExample(a, b raml.ArrayExample, k string, q interface{}) {
	was := vc.Freeze(vcReadArrayExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadArrayExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(nil)
	vc.Check(vcReadArrayExample(b), was, "nothing is shared")
}
