package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
)

// vcDocumentationState is what can be read from a raml.Documentation.
type vcDocumentationState struct {
	Content     string
	ExtraFacets raml.AnyMap
	Title       string
}

func vcReadDocumentation(t raml.Documentation) (s vcDocumentationState) {
	s.Content = t.Content()
	s.ExtraFacets = t.ExtraFacets()
	s.Title = t.Title()
	return
}

func VcC05_Documentation_SetContent(t raml.Documentation, v string) {
	raw := vcReadDocumentation(t)
	want := vc.Freeze(raw).(vcDocumentationState)
	r := t.SetContent(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDocumentation(t)
	want.Content = v
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Content, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

func VcC05_Documentation_SetTitle(t raml.Documentation, v string) {
	raw := vcReadDocumentation(t)
	want := vc.Freeze(raw).(vcDocumentationState)
	r := t.SetTitle(v)
	vc.Assert(vc.Is(r, t), "returns the element it was called on")
	got := vcReadDocumentation(t)
	want.Title = v
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Title, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewDocumentation: t is a new element, with the RAML 1.0 defaults.
func VcNewDocumentation(t raml.Documentation) {
	got := vcReadDocumentation(t)
	var want vcDocumentationState
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_Documentation_defaults() {
	VcNewDocumentation(NewDocumentation())
}

func VcC06_Documentation_apart(k string, q interface{}) {
	a, b := raml.Documentation(NewDocumentation()), raml.Documentation(NewDocumentation())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartDocumentation(a, b, k, q)
}

// VcApartDocumentation: no change of a shows in b.
func VcApartDocumentation(a, b raml.Documentation, k string, q interface{}) {
	was := vc.Freeze(vcReadDocumentation(b))
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadDocumentation(b), was, "nothing is shared")
	a.SetContent(k)
	a.SetTitle(k)
	vc.Check(vcReadDocumentation(b), was, "nothing is shared")
}
