package raml

// C16: a format given as text is kept with exactly that text.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

// vcIsText: the node is a YAML string.
func vcIsText(n *yaml.Node) bool {
	return n.Kind == yaml.ScalarNode && n.LongTag() == xyml.TagString
}

// vcTextNode: n is the YAML form of the text s.
func vcTextNode(n *yaml.Node, err error, s string) {
	vc.Assert(err == nil, "text always converts")
	vc.Assert(n != nil && vcIsText(n), "written as text")
	vc.Assert(n.Value == s, "written with exactly that text")
}

func VcC16_IntegerFormat_parse(n *yaml.Node) {
	vc.Assume(n != nil)
	f, err := IntegerFormatSortingHat(n)
	vc.Assert((err == nil) == vcIsText(n), "text is accepted, anything else is rejected")
	if err == nil {
		vc.Assert(f.String() == n.Value, "the format keeps its text")
	}
}

func VcC16_NumberFormat_parse(n *yaml.Node) {
	vc.Assume(n != nil)
	f, err := NumberFormatSortingHat(n)
	vc.Assert((err == nil) == vcIsText(n), "text is accepted, anything else is rejected")
	if err == nil {
		vc.Assert(f.String() == n.Value, "the format keeps its text")
	}
}

func VcC16_DateFormat_parse(n *yaml.Node) {
	vc.Assume(n != nil)
	f, err := DateFormatSortingHat(n)
	vc.Assert((err == nil) == vcIsText(n), "text is accepted, anything else is rejected")
	if err == nil {
		vc.Assert(f.String() == n.Value, "the format keeps its text")
	}
}

func VcC16_IntegerFormat_decode(n *yaml.Node, old IntegerFormat) {
	vc.Assume(n != nil)
	f := old
	err := f.UnmarshalYAML(n)
	vc.Assert((err == nil) == vcIsText(n), "text is accepted, anything else is rejected")
	if err == nil {
		vc.Assert(f.String() == n.Value, "decoding keeps the text")
	} else {
		vc.Assert(f == old, "a failed decode leaves the format in place")
	}
}

func VcC16_NumberFormat_decode(n *yaml.Node, old NumberFormat) {
	vc.Assume(n != nil)
	f := old
	err := f.UnmarshalYAML(n)
	vc.Assert((err == nil) == vcIsText(n), "text is accepted, anything else is rejected")
	if err == nil {
		vc.Assert(f.String() == n.Value, "decoding keeps the text")
	} else {
		vc.Assert(f == old, "a failed decode leaves the format in place")
	}
}

func VcC16_DateFormat_decode(n *yaml.Node, old DateFormat) {
	vc.Assume(n != nil)
	f := old
	err := f.UnmarshalYAML(n)
	vc.Assert((err == nil) == vcIsText(n), "text is accepted, anything else is rejected")
	if err == nil {
		vc.Assert(f.String() == n.Value, "decoding keeps the text")
	} else {
		vc.Assert(f == old, "a failed decode leaves the format in place")
	}
}

func VcC16_IntegerFormat_write(f IntegerFormat) {
	n, err := f.ToYAML()
	vcTextNode(n, err, f.String())
	x, err := f.MarshalYAML()
	m, ok := x.(*yaml.Node)
	vc.Assert(ok, "the YAML form is a node")
	vcTextNode(m, err, f.String())
	vc.Assert(f.String() == string(f), "the string form is the text")
	var g IntegerFormat
	vc.Assert(g.UnmarshalYAML(m) == nil && g == f, "what is written decodes to the same format")
}

func VcC16_NumberFormat_write(f NumberFormat) {
	n, err := f.ToYAML()
	vcTextNode(n, err, f.String())
	x, err := f.MarshalYAML()
	m, ok := x.(*yaml.Node)
	vc.Assert(ok, "the YAML form is a node")
	vcTextNode(m, err, f.String())
	vc.Assert(f.String() == string(f), "the string form is the text")
	var g NumberFormat
	vc.Assert(g.UnmarshalYAML(m) == nil && g == f, "what is written decodes to the same format")
}

func VcC16_DateFormat_write(f DateFormat) {
	n, err := f.ToYAML()
	vcTextNode(n, err, f.String())
	x, err := f.MarshalYAML()
	m, ok := x.(*yaml.Node)
	vc.Assert(ok, "the YAML form is a node")
	vcTextNode(m, err, f.String())
	vc.Assert(f.String() == string(f), "the string form is the text")
	var g DateFormat
	vc.Assert(g.UnmarshalYAML(m) == nil && g == f, "what is written decodes to the same format")
}
