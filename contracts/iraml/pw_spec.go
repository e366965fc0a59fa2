package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

// vcBare: a declaration with nothing but its type is text.
func vcBare(n *yaml.Node, typ string) {
	vc.Assert(n != nil && vcIsText(n) && n.Value == typ, "a declaration with nothing but its type is written as the bare type")
}

func vcBareInclude(n *yaml.Node, typ string) {
	vc.Assert(n != nil && n.Kind == yaml.ScalarNode && n.Tag == "!include" && n.Value == typ, "an include with nothing else is written as a bare include")
}

// vcNode: n is what the value converts to.
func vcNode(n *yaml.Node, v interface{}, label string) {
	want, err := xyml.ToYamlNode(v)
	vc.Assert(err == nil && n != nil, label)
	vc.Check(n, want, label)
}

func vcIncluded(path string) *yaml.Node {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!include", Value: path}
}
