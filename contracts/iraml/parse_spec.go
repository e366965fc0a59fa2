package raml

// What parsing means, shared by C08-C11. The conversions of single YAML nodes
// (xyml) are a dependency of the library.

import (
	"errors"

	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func vcWrongKind() error { return errors.New("value of the wrong YAML kind") }

func vcText(v *yaml.Node) (string, error) {
	if !vcIsText(v) {
		return "", vcWrongKind()
	}
	return v.Value, nil
}

func vcBool(v *yaml.Node) (bool, error) { return xyml.ToBoolean(v) }

func vcInt(v *yaml.Node) (int64, error) { return xyml.ToInt(v, 10) }

func vcUint(v *yaml.Node) (uint, error) {
	i, err := xyml.ToInt(v, 10)
	if err != nil {
		return 0, err
	}
	if i < 0 {
		return 0, vcWrongKind()
	}
	return uint(i), nil
}

func vcFloat(v *yaml.Node) (float64, error) {
	if v.Kind == yaml.ScalarNode && v.LongTag() == xyml.TagInt {
		i, err := xyml.ToInt(v, 10)
		return float64(i), err
	}
	return xyml.ToFloat(v)
}

func vcSeq(v *yaml.Node) error {
	if v.Kind != yaml.SequenceNode {
		return vcWrongKind()
	}
	return nil
}

func vcTexts(v *yaml.Node) ([]string, error) {
	out := []string{}
	if err := vcSeq(v); err != nil {
		return nil, err
	}
	for i := 0; i < len(v.Content); i++ {
		s, err := vcText(v.Content[i])
		if err != nil {
			return nil, err
		}
		out = append(out, s)
	}
	return out, nil
}

// vcPrefixed: the text of the node starts with the byte c.
func vcPrefixed(k *yaml.Node, c byte) bool {
	return len(k.Value) > 0 && k.Value[0] == c
}

// vcAnnotate stores a parenthesised key.
func vcAnnotate(m raml.AnnotationMap, k, v *yaml.Node) error {
	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
	if err := VcFillUntypedMap(tmp, v); err != nil {
		return err
	}
	m.Put(k.Value, tmp)
	return nil
}

// vcExtra keeps an entry under its own key.
func vcExtra(m raml.AnyMap, k, v *yaml.Node) error {
	key, err := xyml.ToScalarValue(k)
	if err != nil {
		return err
	}
	if _, ok := key.([]byte); ok {
		key = k.Value
	}
	m.Put(key, v)
	return nil
}

var _ = vc.Assert

// vcFolded: y is a mapping and all its entries were processed, or an error is
// reported.
func vcFolded(y *yaml.Node, err error, how int) {
	switch how {
	case 0:
		vc.Assert((err == nil) == (y.Kind == yaml.MappingNode && len(y.Content) == 0), "only a mapping is accepted")
	case 1:
		vc.Assert(err != nil, "the error is returned")
	case 2:
		vc.Assert(err == nil, "no error without a reason")
	}
}

// VcC11_ToScalarValue: what the parsing of unknown keys relies on.
func VcC11_ToScalarValue(y *yaml.Node) {
	vc.Assume(y != nil)
	vc.Real()
	v, err := xyml.ToScalarValue(y)
	special := false
	switch y.Tag {
	case xyml.TagBinary, xyml.TagBool, xyml.TagFloat, xyml.TagInt, xyml.TagTimestamp, xyml.TagNil:
		special = true
	}
	if err != nil {
		vc.Assert(y.Kind != yaml.ScalarNode || special, "only nodes of a special tag are not text")
		return
	}
	vc.Assert(y.Kind == yaml.ScalarNode, "only scalars have a value")
	if !special {
		s, ok := v.(string)
		vc.Assert(ok && s == y.Value, "the value is the text")
	}
	_, bin := v.([]byte)
	vc.Assert(bin == (y.Tag == xyml.TagBinary), "binary values are those of binary nodes")
	vc.Assert(bin || vc.Hashable(v), "all other values can be keys")
}

// vcFirstType is the position of the value of the first type or schema entry
// of a mapping, or len(y.Content).
func vcFirstType(y *yaml.Node) int {
	for i := 0; i+1 < len(y.Content); i += 2 {
		if k := y.Content[i].Value; k == "type" || k == "schema" {
			return i + 1
		}
	}
	return len(y.Content)
}

func vcHasKey(y *yaml.Node, key string) bool {
	for i := 0; i+1 < len(y.Content); i += 2 {
		if y.Content[i].Value == key {
			return true
		}
	}
	return false
}
