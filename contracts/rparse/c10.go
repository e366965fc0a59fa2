package rparse

// The parse entry points.

import (
	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"gopkg.in/yaml.v3"
)

func VcC10_parse_APISpec(y *yaml.Node, mode int) {
	vc.Assume(y != nil && y.Kind != yaml.AliasNode && y.Kind != yaml.DocumentNode && y.Kind != 0)
	src := vc.NewSource(y, mode)
	t, err := ParseApiDoc(src)
	want := impl.NewApiSpec()
	y = src.Root()
	switch {
	case mode == 1:
		if err != nil {
			return
		}
	case mode == 2 || mode == 3:
		vc.Assert(err != nil, "a document that cannot be read is an error")
		return
	case y.ShortTag() != "!!null":
		if werr := impl.VcParsedAPISpec(want, y); werr != nil {
			vc.Assert(err != nil, "a document that cannot be parsed is an error")
			return
		}
	}
	vc.Assert(err == nil && t != nil, "a document that can be parsed is parsed")
	vc.Check(impl.VcStateAPISpec(t), impl.VcStateAPISpec(want), "parsing gives exactly what the document holds")
}

func VcC10_parse_Library(y *yaml.Node, mode int) {
	vc.Assume(y != nil && y.Kind != yaml.AliasNode && y.Kind != yaml.DocumentNode && y.Kind != 0)
	src := vc.NewSource(y, mode)
	t, err := ParseLibrary(src)
	want := impl.NewLibrary()
	y = src.Root()
	switch {
	case mode == 1:
	case mode == 2 || mode == 3:
		vc.Assert(err != nil, "a document that cannot be read is an error")
		return
	case y.ShortTag() != "!!null":
		if werr := impl.VcParsedLibrary(want, y); werr != nil {
			vc.Assert(err != nil, "a document that cannot be parsed is an error")
			return
		}
	}
	vc.Assert(err == nil && t != nil, "a document that can be parsed is parsed")
	vc.Check(impl.VcStateLibrary(t), impl.VcStateLibrary(want), "parsing gives exactly what the document holds")
}
