package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcXMLState is what can be read from a raml.XML.
type vcXMLState struct {
	IsAttribute option.Bool
	IsWrapped   option.Bool
	Name        option.String
	Namespace   option.String
	Prefix      option.String
}

func vcReadXML(t raml.XML) (s vcXMLState) {
	s.IsAttribute = t.IsAttribute()
	s.IsWrapped = t.IsWrapped()
	s.Name = t.Name()
	s.Namespace = t.Namespace()
	s.Prefix = t.Prefix()
	return
}

func VcC05_XML_SetIsAttribute(t raml.XML, v bool) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	given := v
	r := t.SetIsAttribute(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.IsAttribute = option.NewMaybeBool(&given)
	vc.Assert(got.IsAttribute.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_SetIsWrapped(t raml.XML, v bool) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	given := v
	r := t.SetIsWrapped(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.IsWrapped = option.NewMaybeBool(&given)
	vc.Assert(got.IsWrapped.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_SetName(t raml.XML, v string) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	given := v
	r := t.SetName(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.Name = option.NewMaybeString(&given)
	vc.Assert(got.Name.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_SetNamespace(t raml.XML, v string) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	given := v
	r := t.SetNamespace(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.Namespace = option.NewMaybeString(&given)
	vc.Assert(got.Namespace.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_SetPrefix(t raml.XML, v string) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	given := v
	r := t.SetPrefix(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.Prefix = option.NewMaybeString(&given)
	vc.Assert(got.Prefix.IsPresent(), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_UnsetIsAttribute(t raml.XML) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	r := t.UnsetIsAttribute()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.IsAttribute = option.NewEmptyBool()
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_UnsetIsWrapped(t raml.XML) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	r := t.UnsetIsWrapped()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.IsWrapped = option.NewEmptyBool()
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_UnsetName(t raml.XML) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	r := t.UnsetName()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.Name = option.NewEmptyString()
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_UnsetNamespace(t raml.XML) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	r := t.UnsetNamespace()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.Namespace = option.NewEmptyString()
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_XML_UnsetPrefix(t raml.XML) {
	raw := vcReadXML(t)
	want := vc.Freeze(raw).(vcXMLState)
	r := t.UnsetPrefix()
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadXML(t)
	want.Prefix = option.NewEmptyString()
	vc.Check(got, want, "only the property itself changes")
}

// VcNewXML: t is a new element, with the RAML 1.0 defaults.
func VcNewXML(t raml.XML) {
	got := vcReadXML(t)
	var want vcXMLState
	vc.Check(got, want, "RAML default")
}

func VcC06_XML_defaults() {
	VcNewXML(NewXML())
}

func VcC06_XML_apart(k string, q interface{}) {
	a, b := raml.XML(NewXML()), raml.XML(NewXML())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartXML(a, b, k, q)
}

// VcApartXML: no change of a shows in b.
func VcApartXML(a, b raml.XML, k string, q interface{}) {
	was := vc.Freeze(vcReadXML(b))
	vc.Check(vcReadXML(b), was, "nothing is shared")
	a.SetIsAttribute(false)
	a.SetIsWrapped(false)
	a.SetName(k)
	a.SetNamespace(k)
	a.SetPrefix(k)
	vc.Check(vcReadXML(b), was, "nothing is shared")
}
