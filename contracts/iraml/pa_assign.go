package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC08_assign_UntypedMap(m raml.UntypedMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.UntypedMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.UntypedMap) }, y,
		func(y *yaml.Node) error { return assign.ToUntypedMap(y, m) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.UntypedMap)
			werr := vcItemUntypedMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_assign_StringMap(m raml.StringMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.StringMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.StringMap) }, y,
		func(y *yaml.Node) error { return assign.ToStringMap(y, m) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.StringMap)
			werr := vcItemStringMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}
