package raml

// Code written by tools/mkmaps.py: one contract per operation of each collection type.

import (
	"errors"
	"reflect"
	"strconv"

	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
	"gopkg.in/yaml.v3"
)

func VcC01_AnnotationMap_Put(m AnnotationMap, k string, v Annotation, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_AnnotationMap_PutIfNotNil(m AnnotationMap, k string, v Annotation, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_AnnotationMap_PutIfNotNil_nil(m AnnotationMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_AnnotationMap_ReplaceOrPut(m AnnotationMap, k string, v Annotation, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_AnnotationMap_ReplaceIfExists(m AnnotationMap, k string, v Annotation, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_AnnotationMap_Delete(m AnnotationMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_AnnotationMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewAnnotationMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_AnnotationMap_New_apart(size, size2 int, k string, v Annotation) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewAnnotationMap(size)
	other := NewAnnotationMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewAnnotationMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_AnnotationMap_lookup(m AnnotationMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero Annotation
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_AnnotationMap_At(m AnnotationMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_AnnotationMap_ForEach(m AnnotationMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v Annotation) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_AnnotationMap_ToYAML(m AnnotationMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_AnnotationMap_MarshalYAML(m AnnotationMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_AnnotationMap_convertible(m AnnotationMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_AnnotationMap_MarshalJSON(m AnnotationMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_AnyExampleMap_Put(m AnyExampleMap, k string, v interface{}, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_AnyExampleMap_PutIfNotNil(m AnyExampleMap, k string, v string, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, v), k, v, j, q)
}

func VcC01_AnyExampleMap_PutIfNotNil_pointer(m AnyExampleMap, k string, v int64, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_AnyExampleMap_PutIfNotNil_nilPointer(m AnyExampleMap, k string, v *string, j int) {
	vc.Assume(v == nil)
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, v) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_AnyExampleMap_PutIfNotNil_nil(m AnyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_AnyExampleMap_ReplaceOrPut(m AnyExampleMap, k string, v interface{}, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_AnyExampleMap_ReplaceIfExists(m AnyExampleMap, k string, v interface{}, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_AnyExampleMap_Delete(m AnyExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_AnyExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewAnyExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_AnyExampleMap_New_apart(size, size2 int, k string, v interface{}) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewAnyExampleMap(size)
	other := NewAnyExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewAnyExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_AnyExampleMap_lookup(m AnyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero interface{}
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_AnyExampleMap_At(m AnyExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_AnyExampleMap_GetOpt(m AnyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	o := m.GetOpt(k)
	v, ok := m.Get(k)
	vc.Assert(o.IsPresent() == ok, "the optional lookup agrees with Get on presence")
	if ok {
		vc.Assert(vc.Same(o.Get(), v), "the optional lookup agrees with Get on the value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_AnyExampleMap_ForEach(m AnyExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v interface{}) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_AnyExampleMap_ToYAML(m AnyExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_AnyExampleMap_MarshalYAML(m AnyExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_AnyExampleMap_convertible(m AnyExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_AnyExampleMap_MarshalJSON(m AnyExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_AnyMap_Put(m AnyMap, k interface{}, v interface{}, j int, q interface{}) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_AnyMap_PutIfNotNil(m AnyMap, k interface{}, v string, j int, q interface{}) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, v), k, v, j, q)
}

func VcC01_AnyMap_PutIfNotNil_pointer(m AnyMap, k interface{}, v int64, j int, q interface{}) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_AnyMap_PutIfNotNil_nilPointer(m AnyMap, k interface{}, v *string, j int) {
	vc.Assume(v == nil)
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, v) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_AnyMap_PutIfNotNil_nil(m AnyMap, k interface{}, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_AnyMap_ReplaceOrPut(m AnyMap, k interface{}, v interface{}, j int, q interface{}) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_AnyMap_ReplaceIfExists(m AnyMap, k interface{}, v interface{}, j int, q interface{}) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_AnyMap_Delete(m AnyMap, k interface{}, j int, q interface{}) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_AnyMap_New(size int, k interface{}) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewAnyMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_AnyMap_New_apart(size, size2 int, k interface{}, v interface{}) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewAnyMap(size)
	other := NewAnyMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewAnyMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_AnyMap_lookup(m AnyMap, k interface{}, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero interface{}
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_AnyMap_At(m AnyMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_AnyMap_GetOpt(m AnyMap, k interface{}, j int) {
	old := vc.MSnap(m)
	o := m.GetOpt(k)
	v, ok := m.Get(k)
	vc.Assert(o.IsPresent() == ok, "the optional lookup agrees with Get on presence")
	if ok {
		vc.Assert(vc.Same(o.Get(), v), "the optional lookup agrees with Get on the value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_AnyMap_ForEach(m AnyMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k interface{}, v interface{}) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_AnyMap_ToYAML(m AnyMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_AnyMap_MarshalYAML(m AnyMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_AnyMap_convertible(m AnyMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_AnyMap_MarshalJSON(m AnyMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_ArrayExampleMap_Put(m ArrayExampleMap, k string, v ArrayExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_ArrayExampleMap_PutIfNotNil(m ArrayExampleMap, k string, v ArrayExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_ArrayExampleMap_PutIfNotNil_nil(m ArrayExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_ArrayExampleMap_ReplaceOrPut(m ArrayExampleMap, k string, v ArrayExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_ArrayExampleMap_ReplaceIfExists(m ArrayExampleMap, k string, v ArrayExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_ArrayExampleMap_Delete(m ArrayExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_ArrayExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewArrayExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_ArrayExampleMap_New_apart(size, size2 int, k string, v ArrayExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewArrayExampleMap(size)
	other := NewArrayExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewArrayExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_ArrayExampleMap_lookup(m ArrayExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero ArrayExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_ArrayExampleMap_At(m ArrayExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_ArrayExampleMap_ForEach(m ArrayExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v ArrayExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_ArrayExampleMap_ToYAML(m ArrayExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_ArrayExampleMap_MarshalYAML(m ArrayExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_ArrayExampleMap_convertible(m ArrayExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_ArrayExampleMap_MarshalJSON(m ArrayExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_BoolExampleMap_Put(m BoolExampleMap, k string, v BoolExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_BoolExampleMap_PutIfNotNil(m BoolExampleMap, k string, v BoolExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_BoolExampleMap_PutIfNotNil_nil(m BoolExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_BoolExampleMap_ReplaceOrPut(m BoolExampleMap, k string, v BoolExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_BoolExampleMap_ReplaceIfExists(m BoolExampleMap, k string, v BoolExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_BoolExampleMap_Delete(m BoolExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_BoolExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewBoolExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_BoolExampleMap_New_apart(size, size2 int, k string, v BoolExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewBoolExampleMap(size)
	other := NewBoolExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewBoolExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_BoolExampleMap_lookup(m BoolExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero BoolExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_BoolExampleMap_At(m BoolExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_BoolExampleMap_ForEach(m BoolExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v BoolExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_BoolExampleMap_ToYAML(m BoolExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_BoolExampleMap_MarshalYAML(m BoolExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_BoolExampleMap_convertible(m BoolExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_BoolExampleMap_MarshalJSON(m BoolExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_CustomExampleMap_Put(m CustomExampleMap, k string, v CustomExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_CustomExampleMap_PutIfNotNil(m CustomExampleMap, k string, v CustomExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_CustomExampleMap_PutIfNotNil_nil(m CustomExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_CustomExampleMap_ReplaceOrPut(m CustomExampleMap, k string, v CustomExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_CustomExampleMap_ReplaceIfExists(m CustomExampleMap, k string, v CustomExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_CustomExampleMap_Delete(m CustomExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_CustomExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewCustomExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_CustomExampleMap_New_apart(size, size2 int, k string, v CustomExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewCustomExampleMap(size)
	other := NewCustomExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewCustomExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_CustomExampleMap_lookup(m CustomExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero CustomExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_CustomExampleMap_At(m CustomExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_CustomExampleMap_ForEach(m CustomExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v CustomExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_CustomExampleMap_ToYAML(m CustomExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_CustomExampleMap_MarshalYAML(m CustomExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_CustomExampleMap_convertible(m CustomExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_CustomExampleMap_MarshalJSON(m CustomExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_DataTypeMap_Put(m DataTypeMap, k string, v DataType, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_DataTypeMap_PutIfNotNil(m DataTypeMap, k string, v DataType, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_DataTypeMap_PutIfNotNil_nil(m DataTypeMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_DataTypeMap_ReplaceOrPut(m DataTypeMap, k string, v DataType, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_DataTypeMap_ReplaceIfExists(m DataTypeMap, k string, v DataType, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_DataTypeMap_Delete(m DataTypeMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_DataTypeMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewDataTypeMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_DataTypeMap_New_apart(size, size2 int, k string, v DataType) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewDataTypeMap(size)
	other := NewDataTypeMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewDataTypeMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_DataTypeMap_lookup(m DataTypeMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero DataType
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_DataTypeMap_At(m DataTypeMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_DataTypeMap_ForEach(m DataTypeMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v DataType) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_DataTypeMap_ToYAML(m DataTypeMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_DataTypeMap_MarshalYAML(m DataTypeMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_DataTypeMap_convertible(m DataTypeMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_DataTypeMap_MarshalJSON(m DataTypeMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_DateOnlyExampleMap_Put(m DateOnlyExampleMap, k string, v DateOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_DateOnlyExampleMap_PutIfNotNil(m DateOnlyExampleMap, k string, v DateOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_DateOnlyExampleMap_PutIfNotNil_nil(m DateOnlyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_DateOnlyExampleMap_ReplaceOrPut(m DateOnlyExampleMap, k string, v DateOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_DateOnlyExampleMap_ReplaceIfExists(m DateOnlyExampleMap, k string, v DateOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_DateOnlyExampleMap_Delete(m DateOnlyExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_DateOnlyExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewDateOnlyExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_DateOnlyExampleMap_New_apart(size, size2 int, k string, v DateOnlyExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewDateOnlyExampleMap(size)
	other := NewDateOnlyExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewDateOnlyExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_DateOnlyExampleMap_lookup(m DateOnlyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero DateOnlyExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_DateOnlyExampleMap_At(m DateOnlyExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_DateOnlyExampleMap_ForEach(m DateOnlyExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v DateOnlyExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_DateOnlyExampleMap_ToYAML(m DateOnlyExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_DateOnlyExampleMap_MarshalYAML(m DateOnlyExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_DateOnlyExampleMap_convertible(m DateOnlyExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_DateOnlyExampleMap_MarshalJSON(m DateOnlyExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_DatetimeExampleMap_Put(m DatetimeExampleMap, k string, v DatetimeExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_DatetimeExampleMap_PutIfNotNil(m DatetimeExampleMap, k string, v DatetimeExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_DatetimeExampleMap_PutIfNotNil_nil(m DatetimeExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_DatetimeExampleMap_ReplaceOrPut(m DatetimeExampleMap, k string, v DatetimeExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_DatetimeExampleMap_ReplaceIfExists(m DatetimeExampleMap, k string, v DatetimeExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_DatetimeExampleMap_Delete(m DatetimeExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_DatetimeExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewDatetimeExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_DatetimeExampleMap_New_apart(size, size2 int, k string, v DatetimeExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewDatetimeExampleMap(size)
	other := NewDatetimeExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewDatetimeExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_DatetimeExampleMap_lookup(m DatetimeExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero DatetimeExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_DatetimeExampleMap_At(m DatetimeExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_DatetimeExampleMap_ForEach(m DatetimeExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v DatetimeExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_DatetimeExampleMap_ToYAML(m DatetimeExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_DatetimeExampleMap_MarshalYAML(m DatetimeExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_DatetimeExampleMap_convertible(m DatetimeExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_DatetimeExampleMap_MarshalJSON(m DatetimeExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_DatetimeOnlyExampleMap_Put(m DatetimeOnlyExampleMap, k string, v DatetimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_DatetimeOnlyExampleMap_PutIfNotNil(m DatetimeOnlyExampleMap, k string, v DatetimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_DatetimeOnlyExampleMap_PutIfNotNil_nil(m DatetimeOnlyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_DatetimeOnlyExampleMap_ReplaceOrPut(m DatetimeOnlyExampleMap, k string, v DatetimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_DatetimeOnlyExampleMap_ReplaceIfExists(m DatetimeOnlyExampleMap, k string, v DatetimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_DatetimeOnlyExampleMap_Delete(m DatetimeOnlyExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_DatetimeOnlyExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewDatetimeOnlyExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_DatetimeOnlyExampleMap_New_apart(size, size2 int, k string, v DatetimeOnlyExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewDatetimeOnlyExampleMap(size)
	other := NewDatetimeOnlyExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewDatetimeOnlyExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_DatetimeOnlyExampleMap_lookup(m DatetimeOnlyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero DatetimeOnlyExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_DatetimeOnlyExampleMap_At(m DatetimeOnlyExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_DatetimeOnlyExampleMap_ForEach(m DatetimeOnlyExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v DatetimeOnlyExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_DatetimeOnlyExampleMap_ToYAML(m DatetimeOnlyExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_DatetimeOnlyExampleMap_MarshalYAML(m DatetimeOnlyExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_DatetimeOnlyExampleMap_convertible(m DatetimeOnlyExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_DatetimeOnlyExampleMap_MarshalJSON(m DatetimeOnlyExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_FacetMap_Put(m FacetMap, k string, v Facet, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_FacetMap_PutIfNotNil(m FacetMap, k string, v Facet, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_FacetMap_PutIfNotNil_nil(m FacetMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_FacetMap_ReplaceOrPut(m FacetMap, k string, v Facet, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_FacetMap_ReplaceIfExists(m FacetMap, k string, v Facet, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_FacetMap_Delete(m FacetMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_FacetMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewFacetMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_FacetMap_New_apart(size, size2 int, k string, v Facet) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewFacetMap(size)
	other := NewFacetMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewFacetMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_FacetMap_lookup(m FacetMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero Facet
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_FacetMap_At(m FacetMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_FacetMap_ForEach(m FacetMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v Facet) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_FacetMap_ToYAML(m FacetMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_FacetMap_MarshalYAML(m FacetMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_FacetMap_convertible(m FacetMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_FacetMap_MarshalJSON(m FacetMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_FileExampleMap_Put(m FileExampleMap, k string, v FileExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_FileExampleMap_PutIfNotNil(m FileExampleMap, k string, v FileExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_FileExampleMap_PutIfNotNil_nil(m FileExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_FileExampleMap_ReplaceOrPut(m FileExampleMap, k string, v FileExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_FileExampleMap_ReplaceIfExists(m FileExampleMap, k string, v FileExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_FileExampleMap_Delete(m FileExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_FileExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewFileExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_FileExampleMap_New_apart(size, size2 int, k string, v FileExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewFileExampleMap(size)
	other := NewFileExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewFileExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_FileExampleMap_lookup(m FileExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero FileExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_FileExampleMap_At(m FileExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_FileExampleMap_ForEach(m FileExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v FileExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_FileExampleMap_ToYAML(m FileExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_FileExampleMap_MarshalYAML(m FileExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_FileExampleMap_convertible(m FileExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_FileExampleMap_MarshalJSON(m FileExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_IntegerExampleMap_Put(m IntegerExampleMap, k string, v IntegerExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_IntegerExampleMap_PutIfNotNil(m IntegerExampleMap, k string, v IntegerExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_IntegerExampleMap_PutIfNotNil_nil(m IntegerExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_IntegerExampleMap_ReplaceOrPut(m IntegerExampleMap, k string, v IntegerExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_IntegerExampleMap_ReplaceIfExists(m IntegerExampleMap, k string, v IntegerExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_IntegerExampleMap_Delete(m IntegerExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_IntegerExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewIntegerExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_IntegerExampleMap_New_apart(size, size2 int, k string, v IntegerExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewIntegerExampleMap(size)
	other := NewIntegerExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewIntegerExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_IntegerExampleMap_lookup(m IntegerExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero IntegerExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_IntegerExampleMap_At(m IntegerExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_IntegerExampleMap_ForEach(m IntegerExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v IntegerExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_IntegerExampleMap_ToYAML(m IntegerExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_IntegerExampleMap_MarshalYAML(m IntegerExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_IntegerExampleMap_convertible(m IntegerExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_IntegerExampleMap_MarshalJSON(m IntegerExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_NumberExampleMap_Put(m NumberExampleMap, k string, v NumberExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_NumberExampleMap_PutIfNotNil(m NumberExampleMap, k string, v NumberExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_NumberExampleMap_PutIfNotNil_nil(m NumberExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_NumberExampleMap_ReplaceOrPut(m NumberExampleMap, k string, v NumberExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_NumberExampleMap_ReplaceIfExists(m NumberExampleMap, k string, v NumberExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_NumberExampleMap_Delete(m NumberExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_NumberExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewNumberExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_NumberExampleMap_New_apart(size, size2 int, k string, v NumberExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewNumberExampleMap(size)
	other := NewNumberExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewNumberExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_NumberExampleMap_lookup(m NumberExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero NumberExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_NumberExampleMap_At(m NumberExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_NumberExampleMap_ForEach(m NumberExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v NumberExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_NumberExampleMap_ToYAML(m NumberExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_NumberExampleMap_MarshalYAML(m NumberExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_NumberExampleMap_convertible(m NumberExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_NumberExampleMap_MarshalJSON(m NumberExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_ObjectExampleMap_Put(m ObjectExampleMap, k string, v ObjectExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_ObjectExampleMap_PutIfNotNil(m ObjectExampleMap, k string, v ObjectExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_ObjectExampleMap_PutIfNotNil_nil(m ObjectExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_ObjectExampleMap_ReplaceOrPut(m ObjectExampleMap, k string, v ObjectExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_ObjectExampleMap_ReplaceIfExists(m ObjectExampleMap, k string, v ObjectExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_ObjectExampleMap_Delete(m ObjectExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_ObjectExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewObjectExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_ObjectExampleMap_New_apart(size, size2 int, k string, v ObjectExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewObjectExampleMap(size)
	other := NewObjectExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewObjectExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_ObjectExampleMap_lookup(m ObjectExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero ObjectExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_ObjectExampleMap_At(m ObjectExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_ObjectExampleMap_ForEach(m ObjectExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v ObjectExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_ObjectExampleMap_ToYAML(m ObjectExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_ObjectExampleMap_MarshalYAML(m ObjectExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_ObjectExampleMap_convertible(m ObjectExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_ObjectExampleMap_MarshalJSON(m ObjectExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_PropertyMap_Put(m PropertyMap, k string, v Property, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_PropertyMap_PutIfNotNil(m PropertyMap, k string, v Property, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_PropertyMap_PutIfNotNil_nil(m PropertyMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_PropertyMap_ReplaceOrPut(m PropertyMap, k string, v Property, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_PropertyMap_ReplaceIfExists(m PropertyMap, k string, v Property, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_PropertyMap_Delete(m PropertyMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_PropertyMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewPropertyMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_PropertyMap_New_apart(size, size2 int, k string, v Property) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewPropertyMap(size)
	other := NewPropertyMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewPropertyMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_PropertyMap_lookup(m PropertyMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero Property
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_PropertyMap_At(m PropertyMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_PropertyMap_ForEach(m PropertyMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v Property) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_PropertyMap_ToYAML(m PropertyMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_PropertyMap_MarshalYAML(m PropertyMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_PropertyMap_convertible(m PropertyMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_PropertyMap_MarshalJSON(m PropertyMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_StringExampleMap_Put(m StringExampleMap, k string, v StringExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_StringExampleMap_PutIfNotNil(m StringExampleMap, k string, v StringExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_StringExampleMap_PutIfNotNil_nil(m StringExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_StringExampleMap_ReplaceOrPut(m StringExampleMap, k string, v StringExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_StringExampleMap_ReplaceIfExists(m StringExampleMap, k string, v StringExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_StringExampleMap_Delete(m StringExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_StringExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewStringExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_StringExampleMap_New_apart(size, size2 int, k string, v StringExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewStringExampleMap(size)
	other := NewStringExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewStringExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_StringExampleMap_lookup(m StringExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero StringExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_StringExampleMap_At(m StringExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_StringExampleMap_ForEach(m StringExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v StringExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_StringExampleMap_ToYAML(m StringExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_StringExampleMap_MarshalYAML(m StringExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_StringExampleMap_convertible(m StringExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_StringExampleMap_MarshalJSON(m StringExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_StringMap_Put(m StringMap, k string, v string, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_StringMap_PutIfNotNil(m StringMap, k string, v string, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_StringMap_PutIfNotNil_nil(m StringMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_StringMap_ReplaceOrPut(m StringMap, k string, v string, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_StringMap_ReplaceIfExists(m StringMap, k string, v string, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_StringMap_Delete(m StringMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_StringMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewStringMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_StringMap_New_apart(size, size2 int, k string, v string) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewStringMap(size)
	other := NewStringMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewStringMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_StringMap_lookup(m StringMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero string
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_StringMap_At(m StringMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_StringMap_GetOpt(m StringMap, k string, j int) {
	old := vc.MSnap(m)
	o := m.GetOpt(k)
	v, ok := m.Get(k)
	vc.Assert(o.IsPresent() == ok, "the optional lookup agrees with Get on presence")
	if ok {
		vc.Assert(vc.Same(o.Get(), v), "the optional lookup agrees with Get on the value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_StringMap_ForEach(m StringMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v string) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_StringMap_ToYAML(m StringMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_StringMap_MarshalYAML(m StringMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_StringMap_convertible(m StringMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_StringMap_MarshalJSON(m StringMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_TimeOnlyExampleMap_Put(m TimeOnlyExampleMap, k string, v TimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_TimeOnlyExampleMap_PutIfNotNil(m TimeOnlyExampleMap, k string, v TimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_TimeOnlyExampleMap_PutIfNotNil_nil(m TimeOnlyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_TimeOnlyExampleMap_ReplaceOrPut(m TimeOnlyExampleMap, k string, v TimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_TimeOnlyExampleMap_ReplaceIfExists(m TimeOnlyExampleMap, k string, v TimeOnlyExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_TimeOnlyExampleMap_Delete(m TimeOnlyExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_TimeOnlyExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewTimeOnlyExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_TimeOnlyExampleMap_New_apart(size, size2 int, k string, v TimeOnlyExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewTimeOnlyExampleMap(size)
	other := NewTimeOnlyExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewTimeOnlyExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_TimeOnlyExampleMap_lookup(m TimeOnlyExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero TimeOnlyExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_TimeOnlyExampleMap_At(m TimeOnlyExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_TimeOnlyExampleMap_ForEach(m TimeOnlyExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v TimeOnlyExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_TimeOnlyExampleMap_ToYAML(m TimeOnlyExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_TimeOnlyExampleMap_MarshalYAML(m TimeOnlyExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_TimeOnlyExampleMap_convertible(m TimeOnlyExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_TimeOnlyExampleMap_MarshalJSON(m TimeOnlyExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_UnionExampleMap_Put(m UnionExampleMap, k string, v UnionExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_UnionExampleMap_PutIfNotNil(m UnionExampleMap, k string, v UnionExample, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_UnionExampleMap_PutIfNotNil_nil(m UnionExampleMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_UnionExampleMap_ReplaceOrPut(m UnionExampleMap, k string, v UnionExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_UnionExampleMap_ReplaceIfExists(m UnionExampleMap, k string, v UnionExample, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_UnionExampleMap_Delete(m UnionExampleMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_UnionExampleMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewUnionExampleMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_UnionExampleMap_New_apart(size, size2 int, k string, v UnionExample) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewUnionExampleMap(size)
	other := NewUnionExampleMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewUnionExampleMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_UnionExampleMap_lookup(m UnionExampleMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero UnionExample
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_UnionExampleMap_At(m UnionExampleMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_UnionExampleMap_ForEach(m UnionExampleMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v UnionExample) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_UnionExampleMap_ToYAML(m UnionExampleMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_UnionExampleMap_MarshalYAML(m UnionExampleMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_UnionExampleMap_convertible(m UnionExampleMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_UnionExampleMap_MarshalJSON(m UnionExampleMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

func VcC01_UntypedMap_Put(m UntypedMap, k string, v interface{}, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.Put(k, v), k, v, j, q)
}

func VcC01_UntypedMap_PutIfNotNil(m UntypedMap, k string, v string, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, v), k, v, j, q)
}

func VcC01_UntypedMap_PutIfNotNil_pointer(m UntypedMap, k string, v int64, j int, q string) {
	old := vc.MSnap(m)
	vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)
}

func VcC01_UntypedMap_PutIfNotNil_nilPointer(m UntypedMap, k string, v *string, j int) {
	vc.Assume(v == nil)
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, v) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_UntypedMap_PutIfNotNil_nil(m UntypedMap, k string, j int) {
	old := vc.MSnap(m)
	vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
	vcUnchanged(old, m, j)
}

func VcC01_UntypedMap_ReplaceOrPut(m UntypedMap, k string, v interface{}, j int, q string) {
	old := vc.MSnap(m)
	vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)
}

func VcC01_UntypedMap_ReplaceIfExists(m UntypedMap, k string, v interface{}, j int, q string) {
	old := vc.MSnap(m)
	vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)
}

func VcC01_UntypedMap_Delete(m UntypedMap, k string, j int, q string) {
	old := vc.MSnap(m)
	vcDelete(old, m, m.Delete(k), k, j, q)
}

func VcC02_UntypedMap_New(size int, k string) {
	vc.Assume(0 <= size && size <= 1<<16)
	m := NewUntypedMap(size)
	vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
	vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
	vc.Assert(vc.MOrdered(m), "ordered output is the default")
	vc.MValid(m, 0, k)
}

func VcC02_UntypedMap_New_apart(size, size2 int, k string, v interface{}) {
	vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
	m := NewUntypedMap(size)
	other := NewUntypedMap(size2)
	m.Put(k, v)
	vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
	later := NewUntypedMap(size2)
	vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
	other.SerializeOrdered(false)
	vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")
}

func VcC02_UntypedMap_lookup(m UntypedMap, k string, j int) {
	old := vc.MSnap(m)
	v, ok := m.Get(k)
	i := m.IndexOf(k)
	vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
	vc.Assert(m.Has(k) == ok, "Has agrees with Get")
	vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
	if ok {
		vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
		vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
		vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
	} else {
		vc.Assert(i == -1, "the position of an absent key is -1")
		var zero interface{}
		vc.Assert(v == zero, "the value of an absent key is the zero value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_UntypedMap_At(m UntypedMap, j int) {
	vc.Assume(0 <= j && j < vc.MLen(m))
	old := vc.MSnap(m)
	e := m.At(j)
	vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
	vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
	v, ok := m.Get(e.Key)
	vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
	vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
	vcUnchanged(old, m, j)
}

func VcC02_UntypedMap_GetOpt(m UntypedMap, k string, j int) {
	old := vc.MSnap(m)
	o := m.GetOpt(k)
	v, ok := m.Get(k)
	vc.Assert(o.IsPresent() == ok, "the optional lookup agrees with Get on presence")
	if ok {
		vc.Assert(vc.Same(o.Get(), v), "the optional lookup agrees with Get on the value")
	}
	vcUnchanged(old, m, j)
}

func VcC02_UntypedMap_ForEach(m UntypedMap, j int) {
	old := vc.MSnap(m)
	n := 0
	vc.Assert(m.ForEach(func(k string, v interface{}) {
		vc.Assert(n < vc.MLen(old), "one call per entry")
		vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
		vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
		n++
	}) == m, "returns the collection it was called on")
	vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
	vcUnchanged(old, m, j)
}

func VcC03_UntypedMap_ToYAML(m UntypedMap, j int, b bool) {
	old := vc.MSnap(m)
	vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
	vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
	now := vc.MSnap(m)
	if 0 <= j && j < vc.MLen(old) {
		vcEntry(m, j, old, j)
	}
	n, err := m.ToYAML()
	vcToYAML(now, m, n, err, b, j)
}

func VcC03_UntypedMap_MarshalYAML(m UntypedMap, j int) {
	old := vc.MSnap(m)
	x, err := m.MarshalYAML()
	n, ok := x.(*yaml.Node)
	vc.Assert(ok || err != nil, "the YAML form is a node")
	vcToYAML(old, m, n, err, vc.MOrdered(old), j)
}

func VcC03_UntypedMap_convertible(m UntypedMap, b bool) {
	vc.Convertible(m)
	_, err := m.ToYAML()
	vc.Assert(err == nil, "no error when every entry can be converted")
}

func VcC03_UntypedMap_MarshalJSON(m UntypedMap, j int, q string) {
	old := vc.MSnap(m)
	b, err := m.MarshalJSON()
	vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
	vcUnchanged(old, m, j)
}

type vcFakeAnnotation struct {
	Annotation
	id int
}

func (f *vcFakeAnnotation) ToYAML() (*yaml.Node, error)       { return vcFakeNode("Annotation", f.id) }
func (f *vcFakeAnnotation) MarshalYAML() (interface{}, error) { return vcFakeNode("Annotation", f.id) }
func (f *vcFakeAnnotation) MarshalJSON() ([]byte, error)       { return vcFakeJSON("Annotation", f.id) }

type vcFakeArrayExample struct {
	ArrayExample
	id int
}

func (f *vcFakeArrayExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("ArrayExample", f.id) }
func (f *vcFakeArrayExample) MarshalYAML() (interface{}, error) { return vcFakeNode("ArrayExample", f.id) }
func (f *vcFakeArrayExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("ArrayExample", f.id) }

type vcFakeBoolExample struct {
	BoolExample
	id int
}

func (f *vcFakeBoolExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("BoolExample", f.id) }
func (f *vcFakeBoolExample) MarshalYAML() (interface{}, error) { return vcFakeNode("BoolExample", f.id) }
func (f *vcFakeBoolExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("BoolExample", f.id) }

type vcFakeCustomExample struct {
	CustomExample
	id int
}

func (f *vcFakeCustomExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("CustomExample", f.id) }
func (f *vcFakeCustomExample) MarshalYAML() (interface{}, error) { return vcFakeNode("CustomExample", f.id) }
func (f *vcFakeCustomExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("CustomExample", f.id) }

type vcFakeDataType struct {
	DataType
	id int
}

func (f *vcFakeDataType) ToYAML() (*yaml.Node, error)       { return vcFakeNode("DataType", f.id) }
func (f *vcFakeDataType) MarshalYAML() (interface{}, error) { return vcFakeNode("DataType", f.id) }
func (f *vcFakeDataType) MarshalJSON() ([]byte, error)       { return vcFakeJSON("DataType", f.id) }

type vcFakeDateOnlyExample struct {
	DateOnlyExample
	id int
}

func (f *vcFakeDateOnlyExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("DateOnlyExample", f.id) }
func (f *vcFakeDateOnlyExample) MarshalYAML() (interface{}, error) { return vcFakeNode("DateOnlyExample", f.id) }
func (f *vcFakeDateOnlyExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("DateOnlyExample", f.id) }

type vcFakeDatetimeExample struct {
	DatetimeExample
	id int
}

func (f *vcFakeDatetimeExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("DatetimeExample", f.id) }
func (f *vcFakeDatetimeExample) MarshalYAML() (interface{}, error) { return vcFakeNode("DatetimeExample", f.id) }
func (f *vcFakeDatetimeExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("DatetimeExample", f.id) }

type vcFakeDatetimeOnlyExample struct {
	DatetimeOnlyExample
	id int
}

func (f *vcFakeDatetimeOnlyExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("DatetimeOnlyExample", f.id) }
func (f *vcFakeDatetimeOnlyExample) MarshalYAML() (interface{}, error) { return vcFakeNode("DatetimeOnlyExample", f.id) }
func (f *vcFakeDatetimeOnlyExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("DatetimeOnlyExample", f.id) }

type vcFakeFacet struct {
	Facet
	id int
}

func (f *vcFakeFacet) ToYAML() (*yaml.Node, error)       { return vcFakeNode("Facet", f.id) }
func (f *vcFakeFacet) MarshalYAML() (interface{}, error) { return vcFakeNode("Facet", f.id) }
func (f *vcFakeFacet) MarshalJSON() ([]byte, error)       { return vcFakeJSON("Facet", f.id) }

type vcFakeFileExample struct {
	FileExample
	id int
}

func (f *vcFakeFileExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("FileExample", f.id) }
func (f *vcFakeFileExample) MarshalYAML() (interface{}, error) { return vcFakeNode("FileExample", f.id) }
func (f *vcFakeFileExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("FileExample", f.id) }

type vcFakeIntegerExample struct {
	IntegerExample
	id int
}

func (f *vcFakeIntegerExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("IntegerExample", f.id) }
func (f *vcFakeIntegerExample) MarshalYAML() (interface{}, error) { return vcFakeNode("IntegerExample", f.id) }
func (f *vcFakeIntegerExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("IntegerExample", f.id) }

type vcFakeNumberExample struct {
	NumberExample
	id int
}

func (f *vcFakeNumberExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("NumberExample", f.id) }
func (f *vcFakeNumberExample) MarshalYAML() (interface{}, error) { return vcFakeNode("NumberExample", f.id) }
func (f *vcFakeNumberExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("NumberExample", f.id) }

type vcFakeObjectExample struct {
	ObjectExample
	id int
}

func (f *vcFakeObjectExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("ObjectExample", f.id) }
func (f *vcFakeObjectExample) MarshalYAML() (interface{}, error) { return vcFakeNode("ObjectExample", f.id) }
func (f *vcFakeObjectExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("ObjectExample", f.id) }

type vcFakeProperty struct {
	Property
	id int
}

func (f *vcFakeProperty) ToYAML() (*yaml.Node, error)       { return vcFakeNode("Property", f.id) }
func (f *vcFakeProperty) MarshalYAML() (interface{}, error) { return vcFakeNode("Property", f.id) }
func (f *vcFakeProperty) MarshalJSON() ([]byte, error)       { return vcFakeJSON("Property", f.id) }

type vcFakeStringExample struct {
	StringExample
	id int
}

func (f *vcFakeStringExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("StringExample", f.id) }
func (f *vcFakeStringExample) MarshalYAML() (interface{}, error) { return vcFakeNode("StringExample", f.id) }
func (f *vcFakeStringExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("StringExample", f.id) }

type vcFakeTimeOnlyExample struct {
	TimeOnlyExample
	id int
}

func (f *vcFakeTimeOnlyExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("TimeOnlyExample", f.id) }
func (f *vcFakeTimeOnlyExample) MarshalYAML() (interface{}, error) { return vcFakeNode("TimeOnlyExample", f.id) }
func (f *vcFakeTimeOnlyExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("TimeOnlyExample", f.id) }

type vcFakeUnionExample struct {
	UnionExample
	id int
}

func (f *vcFakeUnionExample) ToYAML() (*yaml.Node, error)       { return vcFakeNode("UnionExample", f.id) }
func (f *vcFakeUnionExample) MarshalYAML() (interface{}, error) { return vcFakeNode("UnionExample", f.id) }
func (f *vcFakeUnionExample) MarshalJSON() ([]byte, error)       { return vcFakeJSON("UnionExample", f.id) }

func vcFakeNode(s string, id int) (*yaml.Node, error) {
	if id%11 == 10 {
		return nil, errors.New("cannot convert")
	}
	return xyml.NewStringNode(s + strconv.Itoa(id)), nil
}

func vcFakeJSON(s string, id int) ([]byte, error) {
	if id%11 == 9 {
		return nil, errors.New("cannot convert")
	}
	return []byte(strconv.Quote(s + strconv.Itoa(id))), nil
}

// VcGens: how a replay builds arbitrary inputs of the interface types.
func VcGens() map[reflect.Type]func(*vc.Rand) interface{} {
	return map[reflect.Type]func(*vc.Rand) interface{}{
		reflect.TypeOf((*Annotation)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeAnnotation{id: r.Intn(60)}
		},
		reflect.TypeOf((*ArrayExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeArrayExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*BoolExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeBoolExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*CustomExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeCustomExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*DataType)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeDataType{id: r.Intn(60)}
		},
		reflect.TypeOf((*DateOnlyExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeDateOnlyExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*DatetimeExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeDatetimeExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*DatetimeOnlyExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeDatetimeOnlyExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*Facet)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeFacet{id: r.Intn(60)}
		},
		reflect.TypeOf((*FileExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeFileExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*IntegerExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeIntegerExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*NumberExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeNumberExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*ObjectExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeObjectExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*Property)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeProperty{id: r.Intn(60)}
		},
		reflect.TypeOf((*StringExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeStringExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*TimeOnlyExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeTimeOnlyExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*UnionExample)(nil)).Elem(): func(r *vc.Rand) interface{} {
			if r.Intn(12) == 0 {
				return nil
			}
			return &vcFakeUnionExample{id: r.Intn(60)}
		},
		reflect.TypeOf((*AnnotationMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewAnnotationMap(r.Intn(3)))
		},
		reflect.TypeOf((*AnyExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewAnyExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*AnyMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewAnyMap(r.Intn(3)))
		},
		reflect.TypeOf((*ArrayExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewArrayExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*BoolExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewBoolExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*CustomExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewCustomExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*DataTypeMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewDataTypeMap(r.Intn(3)))
		},
		reflect.TypeOf((*DateOnlyExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewDateOnlyExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*DatetimeExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewDatetimeExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*DatetimeOnlyExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewDatetimeOnlyExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*FacetMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewFacetMap(r.Intn(3)))
		},
		reflect.TypeOf((*FileExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewFileExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*IntegerExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewIntegerExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*NumberExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewNumberExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*ObjectExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewObjectExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*PropertyMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewPropertyMap(r.Intn(3)))
		},
		reflect.TypeOf((*StringExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewStringExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*StringMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewStringMap(r.Intn(3)))
		},
		reflect.TypeOf((*TimeOnlyExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewTimeOnlyExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*UnionExampleMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewUnionExampleMap(r.Intn(3)))
		},
		reflect.TypeOf((*UntypedMap)(nil)).Elem(): func(r *vc.Rand) interface{} {
			return r.Fill(NewUntypedMap(r.Intn(3)))
		},
	}
}
