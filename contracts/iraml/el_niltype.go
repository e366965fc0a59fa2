package raml

// Written by tools/mkelems.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
)

// vcNilTypeState is what can be read from a raml.NilType.
type vcNilTypeState struct {
	ExtraFacets raml.AnyMap
	Kind        rmeta.DataTypeKind
	Schema      string
	Type        string
	Required    bool
}

func vcReadNilType(t raml.NilType) (s vcNilTypeState) {
	s.ExtraFacets = t.ExtraFacets()
	s.Kind = t.Kind()
	s.Schema = t.Schema()
	s.Type = t.Type()
	s.Required = t.(raml.Property).Required()
	return
}

func VcC04_NilType_OverrideType(t raml.NilType, v string) {
	raw := vcReadNilType(t)
	want := vc.Freeze(raw).(vcNilTypeState)
	t.OverrideType(v)
	got := vcReadNilType(t)
	want.Type = v
	want.Schema = v
	vc.Assert(got.ExtraFacets == raw.ExtraFacets, "ExtraFacets stays the same collection")
	vc.Assert(vc.Is(got.Type, v), "reads back the value set")
	vc.Assert(vc.Is(got.Schema, v), "reads back the value set")
	vc.Check(got, want, "only the property itself changes")
}

// VcNewNilType: t is a new element, with the RAML 1.0 defaults.
func VcNewNilType(t raml.NilType) {
	got := vcReadNilType(t)
	var want vcNilTypeState
	want.ExtraFacets = raml.NewAnyMap(0).SerializeOrdered(false)
	want.Kind = rmeta.DataTypeKind("nil")
	want.Schema = "nil"
	want.Type = "nil"
	want.Required = true
	vc.Assert(got.ExtraFacets != nil, "ExtraFacets is present")
	vc.Check(got, want, "RAML default")
}

func VcC06_NilType_defaults() {
	VcNewNilType(NewNilType())
}

func VcC06_NilType_apart(k string, q interface{}) {
	a, b := raml.NilType(NewNilType()), raml.NilType(NewNilType())
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	VcApartNilType(a, b, k, q)
}

// VcApartNilType: no change of a shows in b.
func VcApartNilType(a, b raml.NilType, k string, q interface{}) {
	was := vc.Freeze(vcReadNilType(b))
	a.ExtraFacets().Put(q, nil)
	vc.Check(vcReadNilType(b), was, "nothing is shared")
	vc.Check(vcReadNilType(b), was, "nothing is shared")
}
