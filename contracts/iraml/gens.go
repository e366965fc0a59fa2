package raml

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"gopkg.in/yaml.v3"
)

// VcGens: how a replay builds arbitrary inputs.
func VcGens() map[reflect.Type]func(*vc.Rand) interface{} {
	m := map[reflect.Type]func(*vc.Rand) interface{}{
		reflect.TypeOf((*yaml.Node)(nil)): func(r *vc.Rand) interface{} { return vcDrawNode(r, 0) },
	}
	vcElemGens(m)
	return m
}

var vcWords = append([]string{"string", "number", "integer", "boolean", "object", "array", "any", "file",
	"nil", "date-only", "time-only", "datetime-only", "datetime", "union", "rfc3339", "rfc2616",
	"int8", "int64", "long", "double", "float", "json", "Cat | Dog", "Cat[]"}, vc.Words...)

func vcDrawScalar(r *vc.Rand) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Line: r.Intn(3), Column: 1}
	long := r.Intn(2) == 0
	tag := func(s string) {
		n.Tag = "!!" + s
		if long {
			n.Tag = "tag:yaml.org,2002:" + s
		}
	}
	switch r.Intn(14) {
	case 0, 1:
		tag("bool")
		n.Value = []string{"true", "false", "yes", "off"}[r.Intn(4)]
	case 2, 3:
		tag("int")
		n.Value = strconv.Itoa(r.Intn(20) - 6)
		if r.Intn(5) == 0 {
			n.Value = strconv.FormatInt(r.Value(reflect.TypeOf(int64(0))).Int(), 10)
		}
	case 4:
		tag("float")
		n.Value = []string{"1.5", "-2.25", "1e3", "0"}[r.Intn(4)]
	case 5:
		tag("null")
		n.Value = []string{"", "null", "~"}[r.Intn(3)]
	case 6:
		tag("timestamp")
		n.Value = []string{"2020-01-02", "2020-01-02T03:04:05Z", "x"}[r.Intn(3)]
	case 7:
		tag("binary")
		n.Value = []string{"aGk=", "*"}[r.Intn(2)]
	case 8:
		n.Tag = "!include"
		n.Value = "lib/x.raml"
	case 9:
		n.Value = []string{"abc", "12", "true", "1.5", ""}[r.Intn(5)]
	case 10:
		tag([]string{"int", "bool", "float"}[r.Intn(3)])
		n.Value = []string{"zz", "99999999999999999999", "1.5"}[r.Intn(3)]
	default:
		tag("str")
		n.Value = r.Word(vcWords)
	}
	if r.Intn(6) == 0 {
		n.Style = []yaml.Style{yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle, yaml.FoldedStyle, yaml.LiteralStyle, yaml.TaggedStyle}[r.Intn(5)]
		if n.Style == yaml.FoldedStyle || n.Style == yaml.LiteralStyle {
			n.Value += []string{"", "\n", "\n\n"}[r.Intn(3)]
		}
	}
	return n
}

func vcPair(k string, v *yaml.Node) *yaml.Node {
	return &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}, v}}
}

func vcDrawNode(r *vc.Rand, d int) *yaml.Node {
	if d == 0 && r.Intn(300) == 0 {
		n := vcDrawNode(r, 1)
		for i := r.Intn(50); i > 0; i-- {
			switch r.Intn(4) {
			case 0:
				n = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq", Content: []*yaml.Node{n}}
			case 1:
				n = vcPair("items", n)
			case 2:
				n = vcPair("properties", vcPair("a", n))
			default:
				n = vcPair(r.Word(vcKeys), n)
			}
		}
		return n
	}
	k := r.Intn(10)
	if d > 4 || d > 0 && k < 5 || d == 0 && k < 2 {
		return vcDrawScalar(r)
	}
	if k < 6 && (d > 0 || k < 4) {
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		for i := r.Count(4); i > 0; i-- {
			n.Content = append(n.Content, vcDrawNode(r, d+1+i/4))
		}
		return n
	}
	n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	many := r.Count(4)
	if d == 0 && r.Intn(3) == 0 {
		many += r.Intn(6)
	}
	for i := many; i > 0; i-- {
		k := vcDrawKey(r)
		if len(n.Content) > 0 && r.Intn(12) == 0 {
			// the same key again
			k = n.Content[2*r.Intn(len(n.Content)/2)]
		}
		if r.Intn(3) > 0 && d < 4 {
			if v := vcDrawFor(r, k.Value, d+1); v != nil {
				n.Content = append(n.Content, k, v)
				continue
			}
		}
		if i > 9 {
			k = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: fmt.Sprint(r.Word(vcKeys), i)}
		}
		n.Content = append(n.Content, k, vcDrawNode(r, d+1+i/4))
	}
	return n
}

// vcDrawFor draws something that may well be meant under the key.
func vcDrawFor(r *vc.Rand, key string, d int) *yaml.Node {
	scalar := func(tag, v string) *yaml.Node {
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!" + tag, Value: v}
	}
	text := func() *yaml.Node { return scalar("str", r.Word(vcWords)) }
	whole := func() *yaml.Node {
		return scalar("int", strconv.FormatInt(r.Value(reflect.TypeOf(int64(0))).Int(), 10))
	}
	truth := func() *yaml.Node { return scalar("bool", []string{"true", "false"}[r.Intn(2)]) }
	seq := func(f func() *yaml.Node) *yaml.Node {
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		for i := r.Intn(5); i > 0; i-- {
			if len(n.Content) > 0 && r.Intn(3) == 0 {
				n.Content = append(n.Content, n.Content[len(n.Content)-1])
				continue
			}
			n.Content = append(n.Content, f())
		}
		return n
	}
	fields := func(keys ...string) *yaml.Node {
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		for i := r.Intn(4); i > 0; i-- {
			k := keys[r.Intn(len(keys))]
			v := vcDrawFor(r, k, d+1)
			if v == nil || r.Intn(4) == 0 {
				v = vcDrawNode(r, d+1)
			}
			n.Content = append(n.Content, scalar("str", k), v)
		}
		return n
	}
	entries := func(f func() *yaml.Node) *yaml.Node {
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		for i := r.Intn(4); i > 0; i-- {
			n.Content = append(n.Content, text(), f())
		}
		return n
	}
	any := func() *yaml.Node { return vcDrawNode(r, d+1) }
	switch key {
	case "type", "schema", "description", "displayName", "title", "content", "version", "baseUri", "usage", "pattern",
		"discriminator", "discriminatorValue", "name", "namespace", "prefix", "format":
		return text()
	case "required", "strict", "attribute", "wrapped", "uniqueItems", "additionalProperties":
		return truth()
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "minimum", "maximum", "multipleOf":
		return whole()
	case "enum", "protocols", "securedBy", "mediaType", "fileTypes":
		f := []func() *yaml.Node{text, text, whole, truth, func() *yaml.Node { return vcDrawScalar(r) }}[r.Intn(5)]
		return seq(f)
	case "documentation":
		return seq(func() *yaml.Node { return fields("title", "content", "other") })
	case "xml":
		return fields("name", "namespace", "prefix", "attribute", "wrapped")
	case "properties", "types", "schemas", "facets", "examples", "traits", "resourceTypes", "annotationTypes", "securitySchemes":
		return entries(any)
	case "uses":
		return entries(text)
	case "example", "default", "value":
		return []func() *yaml.Node{text, whole, truth, func() *yaml.Node { return fields("value", "strict", "displayName", "(note)") }}[r.Intn(4)]()
	case "items":
		return any()
	}
	if strings.HasPrefix(key, "(") {
		return entries(any)
	}
	return nil
}

var vcKeys = []string{"", "type", "schema", "example", "examples", "default", "enum", "(note)", "(", "displayName",
	"description", "facets", "xml", "properties", "items", "required", "pattern", "minLength", "maxLength", "minimum", "maximum",
	"format", "multipleOf", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "discriminator",
	"discriminatorValue", "additionalProperties", "fileTypes", "value", "strict", "attribute", "wrapped", "name",
	"namespace", "prefix", "title", "content", "version", "baseUri", "protocols", "mediaType", "documentation", "schemas",
	"types", "traits", "resourceTypes", "annotationTypes", "securitySchemes", "securedBy", "uses", "usage", "/pets", "other"}

func vcDrawKey(r *vc.Rand) *yaml.Node {
	if r.Intn(12) == 0 {
		return vcDrawScalar(r)
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: r.Word(vcKeys)}
}

// vcShowNode writes a node out.
func vcShowNode(n *yaml.Node) string {
	if n == nil {
		return "nil"
	}
	switch n.Kind {
	case yaml.ScalarNode:
		return fmt.Sprintf("%s %q", n.Tag, n.Value)
	case yaml.MappingNode, yaml.SequenceNode:
		var b []string
		for i := range n.Content {
			b = append(b, vcShowNode(n.Content[i]))
		}
		return fmt.Sprintf("%s{%s}", n.Tag, strings.Join(b, ", "))
	}
	return fmt.Sprintf("kind %d", n.Kind)
}

func init() {
	vc.Showers[reflect.TypeOf((*yaml.Node)(nil))] = func(x interface{}) string { return vcShowNode(x.(*yaml.Node)) }
}
