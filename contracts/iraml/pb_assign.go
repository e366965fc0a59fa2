package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC11_assign_UntypedMap(m raml.UntypedMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return assign.ToUntypedMap(y, m) },
		func(k, v *yaml.Node, err error) {})
}

func VcC11_assign_StringMap(m raml.StringMap, y *yaml.Node) {
	vc.Assume(y != nil)
	vc.FoldMap(func() {}, y,
		func(y *yaml.Node) error { return assign.ToStringMap(y, m) },
		func(k, v *yaml.Node, err error) {})
}
