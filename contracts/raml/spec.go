package raml

// Contracts of the ordered collections, shared by all collection types: the
// specification of each operation over the abstract content (a sequence of
// entries with distinct keys). `old` is the content before the call; j and q
// are arbitrary, so what is asserted about them holds for every position and
// every key.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func vcEntry(m interface{}, j int, old interface{}, i int) {
	vc.Assert(vc.Same(vc.MKey(m, j), vc.MKey(old, i)), "other entries keep key and order")
	vc.Assert(vc.Same(vc.MVal(m, j), vc.MVal(old, i)), "other entries keep their value")
}

func vcIs(m interface{}, j int, k, v interface{}) {
	vc.Assert(vc.Same(vc.MKey(m, j), k), "the entry has the given key")
	vc.Assert(vc.Same(vc.MVal(m, j), v), "the entry has the given value")
}

func vcUnchanged(old, m interface{}, j int) {
	vc.Assert(vc.MLen(m) == vc.MLen(old), "the length is unchanged")
	vc.Assert(vc.MOrdered(m) == vc.MOrdered(old), "the output form is unchanged")
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
}

// vcPut: the entry of k, if any, is removed and (k, v) appended.
func vcPut(old, m, ret, k, v interface{}, j int, q interface{}) {
	vc.Assert(ret == m, "returns the collection it was called on")
	n := vc.MLen(old)
	p := vc.MPos(old, k)
	has := vc.MHas(old, k)
	want := n + 1
	if has {
		want = n
	}
	vc.Assert(vc.MLen(m) == want, "the length changes by the entries added and removed")
	vc.Assert(vc.MOrdered(m) == vc.MOrdered(old), "the output form is unchanged")
	if 0 <= j && j < want {
		if j == want-1 {
			vcIs(m, j, k, v)
		} else if has && j >= p {
			vcEntry(m, j, old, j+1)
		} else {
			vcEntry(m, j, old, j)
		}
	}
	vc.MValid(m, j, q)
}

func vcReplace(old, m, ret, k, v interface{}, j int, q interface{}) {
	vc.Assert(ret == m, "returns the collection it was called on")
	if !vc.MHas(old, k) {
		vcUnchanged(old, m, j)
		vc.MValid(m, j, q)
		return
	}
	vc.Assert(vc.MLen(m) == vc.MLen(old), "the length is unchanged")
	vc.Assert(vc.MOrdered(m) == vc.MOrdered(old), "the output form is unchanged")
	if 0 <= j && j < vc.MLen(old) {
		if j == vc.MPos(old, k) {
			vcIs(m, j, k, v)
		} else {
			vcEntry(m, j, old, j)
		}
	}
	vc.MValid(m, j, q)
}

func vcReplaceOrPut(old, m, ret, k, v interface{}, j int, q interface{}) {
	if vc.MHas(old, k) {
		vcReplace(old, m, ret, k, v, j, q)
	} else {
		vcPut(old, m, ret, k, v, j, q)
	}
}

func vcDelete(old, m, ret, k interface{}, j int, q interface{}) {
	vc.Assert(ret == m, "returns the collection it was called on")
	if !vc.MHas(old, k) {
		vcUnchanged(old, m, j)
		vc.MValid(m, j, q)
		return
	}
	p := vc.MPos(old, k)
	vc.Assert(vc.MLen(m) == vc.MLen(old)-1, "exactly one entry is removed")
	vc.Assert(vc.MOrdered(m) == vc.MOrdered(old), "the output form is unchanged")
	if 0 <= j && j < vc.MLen(old)-1 {
		if j >= p {
			vcEntry(m, j, old, j+1)
		} else {
			vcEntry(m, j, old, j)
		}
	}
	vc.MValid(m, j, q)
}

// vcNode: got is the YAML form of the value v.
func vcNode(got *yaml.Node, v interface{}) {
	want, err := xyml.ToYamlNode(v)
	vc.Assert(err == nil, "an entry that cannot be converted is an error")
	vc.Assert(vc.Same(got, want), "the node is the YAML form of the entry")
}

func vcToYAML(old, m interface{}, n *yaml.Node, err error, ordered bool, j int) {
	vcUnchanged(old, m, j)
	if err != nil {
		vc.Assert(n == nil, "no partial output with an error")
		return
	}
	vc.Assert(n != nil, "a node or an error")
	l := vc.MLen(old)
	if ordered {
		vc.Assert(n.Kind == yaml.SequenceNode, "ordered output is a sequence")
		vc.Assert(n.Tag == "!!omap" || n.Tag == "tag:yaml.org,2002:omap", "ordered output is marked as an ordered map")
		vc.Assert(len(n.Content) == l, "one item per entry")
		if 0 <= j && j < l {
			i := n.Content[j]
			vc.Assert(i.Kind == yaml.MappingNode, "an item is a mapping")
			vc.Assert(i.ShortTag() == "!!map", "an item is a plain mapping")
			vc.Assert(len(i.Content) == 2, "an item has one entry")
			vcNode(i.Content[0], vc.MKey(old, j))
			vcNode(i.Content[1], vc.MVal(old, j))
		}
		return
	}
	vc.Assert(n.Kind == yaml.MappingNode, "unordered output is a mapping")
	vc.Assert(n.ShortTag() == "!!map", "unordered output is a plain mapping")
	vc.Assert(len(n.Content) == 2*l, "one pair per entry")
	if 0 <= j && j < l {
		vcNode(n.Content[2*j], vc.MKey(old, j))
		vcNode(n.Content[2*j+1], vc.MVal(old, j))
	}
}
