package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcDateOnlyExampleState is what can be read from a raml.DateOnlyExample.
type vcDateOnlyExampleState struct {
	Annotations raml.AnnotationMap
	Description option.String
	DisplayName option.String
	ExtraFacets raml.AnyMap
	Strict      bool
	Value       option.String
}

func vcReadDateOnlyExample(t raml.DateOnlyExample) (s vcDateOnlyExampleState) {
	s.Annotations = t.Annotations()
	s.Description = t.Description()
	s.DisplayName = t.DisplayName()
	s.ExtraFacets = t.ExtraFacets()
	s.Strict = t.Strict()
	s.Value = t.Value()
	return
}

func VcC05_DateOnlyExample_SetAnnotations(t raml.DateOnlyExample, v raml.AnnotationMap) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	fv := vc.Freeze(v).(raml.AnnotationMap)
	r := t.SetAnnotations(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Annotations = fv
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations == v, "reads back the collection set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_SetAnnotations_nil(t raml.DateOnlyExample) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	r := t.SetAnnotations(nil)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_SetDescription(t raml.DateOnlyExample, v string) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	given := v
	r := t.SetDescription(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Description = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Description.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_SetDisplayName(t raml.DateOnlyExample, v string) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	given := v
	r := t.SetDisplayName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.DisplayName = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.DisplayName.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_SetStrict(t raml.DateOnlyExample, v bool) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	r := t.SetStrict(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Strict = v
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Strict, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_SetValue(t raml.DateOnlyExample, v string) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	given := v
	r := t.SetValue(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Value = option.NewMaybeString(&given)
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Value.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_UnsetAnnotations(t raml.DateOnlyExample) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	r := t.UnsetAnnotations()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(got.Annotations != nil, "Annotations is an empty collection, never a missing one")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_UnsetDescription(t raml.DateOnlyExample) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	r := t.UnsetDescription()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Description = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_UnsetDisplayName(t raml.DateOnlyExample) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	r := t.UnsetDisplayName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.DisplayName = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_DateOnlyExample_UnsetValue(t raml.DateOnlyExample) {
	raw := vcReadDateOnlyExample(t)
	want := vc.Freeze(raw).(vcDateOnlyExampleState)
	r := t.UnsetValue()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDateOnlyExample(t)
	want.Value = option.NewEmptyString()
	vc.Assert(got.Annotations == raw.Annotations, "Annotations stays the same collection")
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewDateOnlyExample: t is a new element, with the RAML 1.0 defaults.
func VcNewDateOnlyExample(t raml.DateOnlyExample) {
	got := vcReadDateOnlyExample(t)
	var want vcDateOnlyExampleState
	want.Annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Strict = true
	vc.Assert(got.Annotations != nil, "Annotations is present")
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_DateOnlyExample_defaults() {
	VcNewDateOnlyExample(NewDateOnlyExample())
}

func VcC06_DateOnlyExample_apart(k string, q interface{}) {
	a, b := raml.DateOnlyExample(NewDateOnlyExample()), raml.DateOnlyExample(NewDateOnlyExample())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartDateOnlyExample(a, b, k, q)
}

// VcApartDateOnlyExample: no change of a shows in b.
func VcApartDateOnlyExample(a, b raml.DateOnlyExample, k string, q interface{}) {
	was := vc.Freeze(vcReadDateOnlyExample(b))
	a.Annotations().Put(k, nil)
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadDateOnlyExample(b), was, "nothing is shared")
	a.SetAnnotations(nil)
	a.SetDescription(k)
	a.SetDisplayName(k)
	a.SetStrict(false)
	a.SetValue(k)
	vc.Check(vcReadDateOnlyExample(b), was, "nothing is shared")
}
