package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcIncludeTypeState is what can be read from a raml.IncludeType.
type vcIncludeTypeState struct {
	ExtraFacets raml.AnyMap
	Kind        rmeta.DataTypeKind
	Schema      string
	Type        string
	Required    bool
}

func vcReadIncludeType(t raml.IncludeType) (s vcIncludeTypeState) {
	s.ExtraFacets = t.ExtraFacets()
	s.Kind = t.Kind()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_IncludeType_OverrideType(t raml.IncludeType, v string) {
	raw := vcReadIncludeType(t)
	want := vc.Freeze(raw).(vcIncludeTypeState)
	t.OverrideType(v)
	got := vcReadIncludeType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewIncludeType: t is a new element, with the RAML 1.0 defaults.
func VcNewIncludeType(t raml.IncludeType) {
	got := vcReadIncludeType(t)
	var want vcIncludeTypeState
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("include")
	want.Schema = "include"
	want.Type = "include"
	want.Required = true
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_IncludeType_defaults() {
	VcNewIncludeType(NewIncludeType())
}

func VcC06_IncludeType_apart(k string, q interface{}) {
	a, b := raml.IncludeType(NewIncludeType()), raml.IncludeType(NewIncludeType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartIncludeType(a, b, k, q)
}

// VcApartIncludeType: no change of a shows in b.
func VcApartIncludeType(a, b raml.IncludeType, k string, q interface{}) {
	was := vc.Freeze(vcReadIncludeType(b))
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadIncludeType(b), was, "nothing is shared")
	vc.Check(vcReadIncludeType(b), was, "nothing is shared")
}
