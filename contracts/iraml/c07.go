package raml

// C07: which kind of declaration a YAML node is.

import (
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

// vcNamed: the new declaration a text stands for, and whether it carries the
// text.
func vcNamed(s string) concreteType {
	switch s {
	case "any":
		return NewAnyType()
	case "array":
		return NewArrayType()
	case "boolean":
		return NewBoolType()
	case "date-only":
		return NewDateOnlyType()
	case "datetime":
		return NewDatetimeType()
	case "datetime-only":
		return NewDatetimeOnlyType()
	case "file":
		return NewFileType()
	case "integer":
		return NewIntegerType()
	case "nil":
		return NewNilType()
	case "number":
		return NewNumberType()
	case "object":
		return NewObjectType()
	case "string":
		return NewStringType()
	case "time-only":
		return NewTimeOnlyType()
	}
	if strings.IndexByte(s, '|') > -1 {
		t := NewUnionType()
		t.SetType(s)
		return t
	}
	t := NewCustomType()
	t.SetType(s)
	return t
}

// vcMapped: the kind of a declaration given as a mapping.
func vcMapped(y *yaml.Node) (concreteType, bool) {
	first := vcFirstType(y)
	if first < len(y.Content) {
		v := y.Content[first]
		// anything else with these tags is not a type at all: see C08
		vc.Assume(v.Kind == yaml.ScalarNode || v.Tag != "!include" && v.LongTag() != "tag:yaml.org,2002:str")
		if vcIsText(v) {
			vc.Assume(!strings.HasPrefix(v.Value, "!include "))
			return vcNamed(v.Value), true
		}
		if v.Tag == "!include" {
			return NewIncludeType(), true
		}
		return nil, false
	}
	if vcHasKey(y, "properties") {
		return NewObjectType(), true
	}
	if vcHasKey(y, "items") {
		return NewArrayType(), true
	}
	return NewStringType(), true
}

// vcSorted: the declaration a node stands for.
func vcSorted(y *yaml.Node) (concreteType, bool) {
	if vcIsText(y) {
		vc.Assume(!strings.HasPrefix(y.Value, "!include "))
		return vcNamed(y.Value), true
	}
	if y.Kind == yaml.MappingNode {
		t, ok := vcMapped(y)
		if !ok || t.UnmarshalRAML(y) != nil {
			return nil, false
		}
		return t, true
	}
	if y.Tag == "!include" && y.Kind != yaml.SequenceNode {
		t := NewIncludeType()
		t.schema = y.Value
		return t, true
	}
	if y.Kind == yaml.ScalarNode && y.LongTag() == "tag:yaml.org,2002:null" {
		return NewStringType(), true
	}
	return nil, false
}

func VcC07_TypeSortingHat(y *yaml.Node) {
	vc.Assume(y != nil)
	vc.Real()
	d, err := TypeSortingHat(y)
	want, ok := vcSorted(y)
	vc.Assert((err == nil) == ok, "exactly the forms of a declaration are accepted")
	if err != nil {
		return
	}
	_, isProp := d.(raml.Property)
	vc.Assert(isProp, "a declaration is usable as a property")
	vc.Assert(d.Kind() == want.Kind(), "the declaration is of the right kind")
	vc.Assert(d.Type() == want.Type(), "the declaration keeps its text as its type")
	vcSameDecl(d, want)
}

func VcC07_PropertySortingHat(y *yaml.Node) {
	vc.Assume(y != nil)
	d, err := TypeSortingHat(y)
	p, perr := PropertySortingHat(y)
	vc.Assert((err == nil) == (perr == nil), "properties are declarations")
	if err == nil {
		vc.Check(p.(raml.DataType), d, "a property is its declaration")
	}
}
