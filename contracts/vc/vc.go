// Package vc is the vocabulary of the contracts.
//
// gover (the deductive verifier) interprets every function of this file
// symbolically; the bodies below are the concrete meaning used when a contract
// is replayed against the compiled code with actual inputs.
package vc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

// Failure is a violated obligation of a concrete run, Skip an input outside of
// the precondition.
type Failure struct{ Label, Detail string }
type Skip struct{}

var Covered = map[string]bool{}

// Assume restricts the inputs of a contract (a precondition).
func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Concretely runs f in concrete runs only: it steers drawn inputs into the
// precondition that follows.
func Concretely(f func()) { f() }

// Assert is an obligation.
func Assert(c bool, label string) {
	if !c {
		panic(Failure{Label: label})
	}
}

// Cover marks a point of a contract that some input must reach.
func Cover(label string) { Covered[label] = true }

// Unreachable is an obligation that no input gets here.
func Unreachable(label string) { panic(Failure{Label: label}) }

// Convertible is the precondition that every value converts to YAML.
func Convertible(m interface{}) {
	s := read(m)
	for i := range s.keys {
		if _, err := xyml.ToYamlNode(s.keys[i]); err != nil {
			panic(Skip{})
		}
		if _, err := xyml.ToYamlNode(s.vals[i]); err != nil {
			panic(Skip{})
		}
	}
}

// Same: same value, looking through pointers.
func Same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Comparable() {
		if same, ok := eq(a, b); ok && same {
			return true
		}
	}
	if f, ok := a.(float64); ok {
		g := b.(float64)
		return f == g || f != f && g != g
	}
	return reflect.DeepEqual(a, b)
}

func eq(a, b interface{}) (r, ok bool) {
	defer func() {
		if recover() != nil {
			r, ok = false, false
		}
	}()
	return a == b, true
}

// Try reports whether f panics.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, Skip:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return
}

// --- representation of the ordered collections ---------------------------------

type rep struct {
	entries reflect.Value
	index   reflect.Value
	flag    bool
}

type snap struct {
	keys, vals []interface{}
	index      map[interface{}]interface{}
	flag       bool
}

func fieldOf(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func read(m interface{}) *snap {
	if s, ok := m.(*snap); ok {
		return s
	}
	v := reflect.ValueOf(m).Elem()
	s := &snap{index: map[interface{}]interface{}{}}
	for i := 0; i < v.NumField(); i++ {
		f := fieldOf(v, i)
		switch f.Kind() {
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				s.keys = append(s.keys, f.Index(j).FieldByName("Key").Interface())
				s.vals = append(s.vals, f.Index(j).FieldByName("Val").Interface())
			}
		case reflect.Map:
			for _, k := range f.MapKeys() {
				s.index[k.Interface()] = f.MapIndex(k).Interface()
			}
		case reflect.Bool:
			s.flag = f.Bool()
		}
	}
	return s
}

// MSnap freezes the content of a collection.
func MSnap(m interface{}) interface{} { return read(m) }

func MLen(m interface{}) int { return len(read(m).keys) }

func MKey(m interface{}, j int) interface{} { return read(m).keys[j] }
func MVal(m interface{}, j int) interface{} { return read(m).vals[j] }
func MOrdered(m interface{}) bool           { return read(m).flag }
func MHas(m interface{}, k interface{}) bool {
	_, ok := read(m).index[k]
	return ok
}

// MPos is the position of a key in the initial state, meaningful for keys that
// are there.
func MPos(m interface{}, k interface{}) int {
	for j, q := range read(m).keys {
		if q == k {
			return j
		}
	}
	return -1
}

// MValid is the representation invariant: entries have distinct keys and agree
// with the index.
func MValid(m interface{}, j int, k interface{}) {
	s := read(m)
	seen := map[interface{}]bool{}
	for i, q := range s.keys {
		v, ok := s.index[q]
		Assert(ok, "every entry is indexed")
		Assert(Same(v, s.vals[i]), "the index holds the value of the entry")
		Assert(!seen[q], "keys are distinct")
		seen[q] = true
	}
	Assert(len(s.index) == len(s.keys), "every indexed key has an entry")
}

// JSONIs: b, err is the JSON encoding of the collection content old (entries j
// and keys k are arbitrary).
func JSONIs(old interface{}, b []byte, err error, ordered bool, j int, k interface{}) {
	s := read(old)
	var want []byte
	var werr error
	if ordered {
		type entry struct {
			Key interface{} `json:"key"`
			Val interface{} `json:"value"`
		}
		l := make([]entry, 0)
		for i := range s.keys {
			l = append(l, entry{s.keys[i], s.vals[i]})
		}
		want, werr = json.Marshal(l)
	} else {
		o := map[string]interface{}{}
		for i := range s.keys {
			t := fmt.Sprint(s.keys[i])
			if _, dup := o[t]; dup {
				panic(Skip{})
			}
			o[t] = s.vals[i]
		}
		want, werr = json.Marshal(o)
	}
	Assert((err == nil) == (werr == nil), "a conversion error is returned")
	if err == nil {
		Assert(bytes.Equal(want, b), "the JSON text holds exactly the entries")
	}
}

// FoldMap runs f, which works through the entries of the mapping y one after
// another. snap is called before, step after each entry (with the error f
// stopped with, if any). The second result tells how f ended: 0 without
// looking at the entries, 1 with an error at an entry, 2 after all entries.
func FoldMap(snap func(), y *yaml.Node, f func(*yaml.Node) error, step func(k, v *yaml.Node, err error)) (error, int) {
	snap()
	if y == nil || y.Kind != yaml.MappingNode || len(y.Content) == 0 {
		return f(y), 0
	}
	for i := 0; i+1 < len(y.Content); i += 2 {
		one := *y
		one.Content = y.Content[i : i+2]
		snap()
		err := f(&one)
		step(one.Content[0], one.Content[1], err)
		if err != nil {
			return err, 1
		}
	}
	snap()
	return nil, 2
}

// Real makes the verifier execute the body of the next function it has a
// contract for.
func Real() {}

// Hashable: v can be a key of a map.
func Hashable(v interface{}) (ok bool) {
	defer func() { ok = recover() == nil }()
	_ = map[interface{}]bool{v: true}
	return
}

// --- what is written -------------------------------------------------------------

func isMapTag(t string) bool { return t == "" || t == "!!map" || t == "tag:yaml.org,2002:map" }

// WMap: n is a plain mapping.
func WMap(n *yaml.Node) bool {
	return n != nil && n.Kind == yaml.MappingNode && isMapTag(n.Tag)
}

// sameNode: the same YAML value.
func sameNode(a, b *yaml.Node) bool {
	if likeNode(a, b) {
		return true
	}
	var x, y yaml.Node
	for n, m := range map[*yaml.Node]*yaml.Node{a: &x, b: &y} {
		t, err := yaml.Marshal(n)
		if err != nil || yaml.Unmarshal(t, m) != nil {
			return false
		}
	}
	return likeNode(&x, &y)
}

func likeNode(a, b *yaml.Node) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Kind != b.Kind || a.Kind == yaml.AliasNode || a.ShortTag() != b.ShortTag() || len(a.Content) != len(b.Content) {
		return reflect.DeepEqual(a, b)
	}
	if a.Value != b.Value && !(a.Kind == yaml.ScalarNode && a.ShortTag() == "!!null") {
		return false
	}
	for i := range a.Content {
		if !likeNode(a.Content[i], b.Content[i]) {
			return false
		}
	}
	return true
}

func entry(n *yaml.Node, k interface{}) (v *yaml.Node, count int) {
	if !WMap(n) {
		panic(Failure{Label: "the element is written as a mapping"})
	}
	kn, err := xyml.ToYamlNode(k)
	if err != nil || n.Line > 0 && (k == nil || k == "") { // the YAML library writes a null key as empty text
		panic(Skip{})
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		if sameNode(n.Content[i], kn) {
			count++
			v = n.Content[i+1]
		}
	}
	return
}

// WEntry: the mapping n has one entry with key k and it is v.
func WEntry(n *yaml.Node, k, v interface{}, label string) {
	got, c := entry(n, k)
	if _, text := k.(string); !text && c > 1 {
		panic(Skip{}) // keys of different Go types with the same YAML form
	}
	if c != 1 {
		panic(Failure{Label: label, Detail: fmt.Sprintf("%v entries with the key %v", c, k)})
	}
	want, err := xyml.ToYamlNode(v)
	if err != nil {
		panic(Skip{})
	}
	if !sameNode(got, want) {
		panic(Failure{Label: label, Detail: fmt.Sprintf("the entry %v is %s, want %s", k, nodeText(got), nodeText(want))})
	}
}

// Split asks for the two cases of c to be followed separately.
func Split(c bool) {}

// Written: n is what v is written as.
func Written(n *yaml.Node, v interface{}, label string) {
	want, err := xyml.ToYamlNode(v)
	if err != nil {
		panic(Skip{})
	}
	if n == nil || !sameNode(n, want) {
		panic(Failure{Label: label})
	}
}

// WNone: the mapping n has no entry with key k.
func WNone(n *yaml.Node, k interface{}, label string) {
	if _, text := k.(string); !text {
		return // another key may have the same YAML form
	}
	if _, c := entry(n, k); c != 0 {
		panic(Failure{Label: label, Detail: fmt.Sprintf("there is an entry with the key %v", k)})
	}
}

// WBefore: the entry a of the mapping n comes before the entry b.
func WBefore(n *yaml.Node, a, b interface{}, label string) {
	va, ca := entry(n, a)
	vb, cb := entry(n, b)
	_, ta := a.(string)
	_, tb := b.(string)
	if ca > 1 && !ta || cb > 1 && !tb || !ta && nodeText(va) == nodeText(vb) {
		panic(Skip{}) // keys of different Go types with the same YAML form
	}
	if ca != 1 || cb != 1 {
		panic(Failure{Label: label, Detail: fmt.Sprintf("%v and %v entries with the keys %v and %v", ca, cb, a, b)})
	}
	for i := 1; i < len(n.Content); i += 2 {
		if n.Content[i] == va {
			return
		}
		if n.Content[i] == vb {
			panic(Failure{Label: label, Detail: fmt.Sprintf("%v is written before %v", b, a)})
		}
	}
}

// Sink is an arbitrary destination of output.
type Sink struct {
	room   int
	once   int // the write that fails, the others succeed
	writes int
	buf    bytes.Buffer
	failed bool
}

// NewSink makes a destination that fails at some point, or never.
func NewSink(limit int) *Sink {
	switch limit {
	case 0, 1:
		return &Sink{room: 1 << 30, once: limit + 1}
	case 2, 3:
		return &Sink{room: (limit - 2) * 17}
	}
	return &Sink{room: 1 << 30}
}

func (s *Sink) Write(b []byte) (int, error) {
	s.writes++
	if s.writes == s.once || s.buf.Len()+len(b) > s.room {
		s.failed = true
		return 0, fmt.Errorf("the destination fails")
	}
	return s.buf.Write(b)
}

// Failed: the destination has failed.
func (s *Sink) Failed() bool { return s.failed }

// Document gives the first line and the root node of the output.
func (s *Sink) Document() (string, *yaml.Node) {
	var doc yaml.Node
	if err := yaml.Unmarshal(s.buf.Bytes(), &doc); err != nil {
		panic(Failure{Label: "the output is a YAML document", Detail: err.Error()})
	}
	line := string(bytes.SplitN(s.buf.Bytes(), []byte("\n"), 2)[0])
	if len(doc.Content) != 1 {
		return line, nil
	}
	return line, doc.Content[0]
}

// Source is an arbitrary source of input.
type Source struct {
	text []byte
	root *yaml.Node
	fail bool
}

// NewSource: the text of a document with the root y; mode 1: nothing at all,
// 2: reading fails, 3: text that is not YAML.
func NewSource(y *yaml.Node, mode int) *Source {
	switch mode {
	case 1:
		return &Source{root: y}
	case 2:
		return &Source{root: y, fail: true, text: []byte("title: a\n")}
	case 3:
		return &Source{root: y, text: []byte("title: [a\n")}
	}
	t, err := yaml.Marshal(y)
	if err != nil {
		panic(Skip{})
	}
	var doc yaml.Node
	if yaml.Unmarshal(t, &doc) != nil || len(doc.Content) != 1 {
		panic(Skip{})
	}
	return &Source{text: t, root: doc.Content[0]}
}

func (s *Source) Read(b []byte) (int, error) {
	if len(s.text) == 0 {
		if s.fail {
			return 0, fmt.Errorf("the source fails")
		}
		return 0, io.EOF
	}
	n := copy(b, s.text)
	s.text = s.text[n:]
	return n, nil
}

// Root is the root node of the document.
func (s *Source) Root() *yaml.Node { return s.root }

// WFailed: a conversion to YAML failed (any error may be one).
func WFailed() bool { return true }

func nodeText(n *yaml.Node) string {
	b, err := yaml.Marshal(n)
	if err != nil {
		return fmt.Sprint(n)
	}
	return string(bytes.TrimSpace(b))
}
