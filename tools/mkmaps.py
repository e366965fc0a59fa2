#!/usr/bin/env python3
"""Writes /verif/contracts/raml/maps.go: the contracts of every collection type,
one per operation, from the public interfaces of package raml (run by hand when
the API changes; the result is committed)."""
import re, os, glob
out = ['package raml', '', '// Code written by tools/mkmaps.py: one contract per operation of each collection type.', '',
 'import (', '\t"errors"', '\t"reflect"', '\t"strconv"', '', '\t"github.com/Foxcapades/lib-go-raml/v0/internal/vc"', '\t"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"', '\t"gopkg.in/yaml.v3"', ')', '']
gens, fakes = [], {}
names = []
for f in sorted(glob.glob('/repo/v0/pkg/raml/*Map.go')):
    src = open(f).read()
    m = re.search(r'type (\w+Map) interface \{(.*?)\n\}', src, re.S)
    T, body = m.group(1), m.group(2)
    K, V = re.search(r'\tPut\(k ([\w{}]+), v ([\w{}.]+)\)', body).groups()
    P = re.search(r'\tPutIfNotNil\(k [\w{}]+, v ([*\w{}.]+)\)', body).group(1)
    opt = re.search(r'\tGetOpt\(k [\w{}]+\) option\.(\w+)', body)
    names.append(T)
    w = out.append
    def c(prop, op, params, bodytxt):
        w(f'func Vc{prop}_{T}_{op}({params}) {{')
        for l in bodytxt.strip('\n').split('\n'): w('\t' + l)
        w('}'); w('')
    base = f'm {T}, k {K}'
    c('C01', 'Put', base + f', v {V}, j int, q {K}', '''old := vc.MSnap(m)
vcPut(old, m, m.Put(k, v), k, v, j, q)''')
    if P.startswith('*'):
        c('C01', 'PutIfNotNil', base + f', v {V}, j int, q {K}', '''old := vc.MSnap(m)
vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)''')
        c('C01', 'PutIfNotNil_nil', base + ', j int', '''old := vc.MSnap(m)
vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
vcUnchanged(old, m, j)''')
    else:
        c('C01', 'PutIfNotNil', base + f', v string, j int, q {K}', '''old := vc.MSnap(m)
vcPut(old, m, m.PutIfNotNil(k, v), k, v, j, q)''')
        c('C01', 'PutIfNotNil_pointer', base + f', v int64, j int, q {K}', '''old := vc.MSnap(m)
vcPut(old, m, m.PutIfNotNil(k, &v), k, v, j, q)''')
        c('C01', 'PutIfNotNil_nilPointer', base + ', v *string, j int', '''vc.Assume(v == nil)
old := vc.MSnap(m)
vc.Assert(m.PutIfNotNil(k, v) == m, "returns the collection it was called on")
vcUnchanged(old, m, j)''')
        c('C01', 'PutIfNotNil_nil', base + ', j int', '''old := vc.MSnap(m)
vc.Assert(m.PutIfNotNil(k, nil) == m, "returns the collection it was called on")
vcUnchanged(old, m, j)''')
    c('C01', 'ReplaceOrPut', base + f', v {V}, j int, q {K}', '''old := vc.MSnap(m)
vcReplaceOrPut(old, m, m.ReplaceOrPut(k, v), k, v, j, q)''')
    c('C01', 'ReplaceIfExists', base + f', v {V}, j int, q {K}', '''old := vc.MSnap(m)
vcReplace(old, m, m.ReplaceIfExists(k, v), k, v, j, q)''')
    c('C01', 'Delete', base + f', j int, q {K}', '''old := vc.MSnap(m)
vcDelete(old, m, m.Delete(k), k, j, q)''')
    c('C02', 'New', f'size int, k {K}', f'''vc.Assume(0 <= size && size <= 1<<16)
m := New{T}(size)
vc.Assert(vc.MLen(m) == 0 && m.Len() == 0, "a new collection is empty")
vc.Assert(!m.Has(k) && m.IndexOf(k) == -1, "a new collection has no key")
vc.Assert(vc.MOrdered(m), "ordered output is the default")
vc.MValid(m, 0, k)''')
    c('C02', 'New_apart', f'size, size2 int, k {K}, v {V}', f'''vc.Assume(0 <= size && size <= 1<<16 && 0 <= size2 && size2 <= 1<<16)
m := New{T}(size)
other := New{T}(size2)
m.Put(k, v)
vc.Assert(vc.MLen(other) == 0 && other.Len() == 0 && !other.Has(k) && other.IndexOf(k) == -1, "a new collection shares nothing with another")
later := New{T}(size2)
vc.Assert(vc.MLen(later) == 0 && later.Len() == 0 && !later.Has(k), "a new collection is empty whatever is in the others")
other.SerializeOrdered(false)
vc.Assert(vc.MOrdered(m) && m.Len() == 1 && m.Has(k), "changing a collection leaves the others alone")''')
    c('C02', 'lookup', base + ', j int', f'''old := vc.MSnap(m)
v, ok := m.Get(k)
i := m.IndexOf(k)
vc.Assert(ok == vc.MHas(old, k), "presence is reported exactly when there is an entry")
vc.Assert(m.Has(k) == ok, "Has agrees with Get")
vc.Assert(m.Len() == vc.MLen(old), "Len is the number of entries")
if ok {{
	vc.Assert(0 <= i && i < vc.MLen(old), "the position is one of the entries")
	vc.Assert(vc.Same(vc.MKey(old, i), k), "the position of a key is the position of its entry")
	vc.Assert(vc.Same(vc.MVal(old, i), v), "the value is the one stored with the key")
}} else {{
	vc.Assert(i == -1, "the position of an absent key is -1")
	var zero {V}
	vc.Assert(v == zero, "the value of an absent key is the zero value")
}}
vcUnchanged(old, m, j)''')
    c('C02', 'At', f'm {T}, j int', '''vc.Assume(0 <= j && j < vc.MLen(m))
old := vc.MSnap(m)
e := m.At(j)
vc.Assert(vc.Same(e.Key, vc.MKey(old, j)), "At returns the key of the entry at that position")
vc.Assert(vc.Same(e.Val, vc.MVal(old, j)), "At returns the value of the entry at that position")
v, ok := m.Get(e.Key)
vc.Assert(ok && vc.Same(v, e.Val), "Get finds the entry at every position")
vc.Assert(m.IndexOf(e.Key) == j, "IndexOf finds the entry at every position")
vcUnchanged(old, m, j)''')
    if opt:
        c('C02', 'GetOpt', base + ', j int', '''old := vc.MSnap(m)
o := m.GetOpt(k)
v, ok := m.Get(k)
vc.Assert(o.IsPresent() == ok, "the optional lookup agrees with Get on presence")
if ok {
	vc.Assert(vc.Same(o.Get(), v), "the optional lookup agrees with Get on the value")
}
vcUnchanged(old, m, j)''')
    c('C02', 'ForEach', f'm {T}, j int', f'''old := vc.MSnap(m)
n := 0
vc.Assert(m.ForEach(func(k {K}, v {V}) {{
	vc.Assert(n < vc.MLen(old), "one call per entry")
	vc.Assert(vc.Same(k, vc.MKey(old, n)), "the callback gets the keys in order")
	vc.Assert(vc.Same(v, vc.MVal(old, n)), "the callback gets the value of the key")
	n++
}}) == m, "returns the collection it was called on")
vc.Assert(n == vc.MLen(old), "the callback is called for every entry")
vcUnchanged(old, m, j)''')
    c('C03', 'ToYAML', f'm {T}, j int, b bool', '''old := vc.MSnap(m)
vc.Assert(m.SerializeOrdered(b) == m, "returns the collection it was called on")
vc.Assert(vc.MOrdered(m) == b, "the output form is the one chosen")
now := vc.MSnap(m)
if 0 <= j && j < vc.MLen(old) {
	vcEntry(m, j, old, j)
}
n, err := m.ToYAML()
vcToYAML(now, m, n, err, b, j)''')
    c('C03', 'MarshalYAML', f'm {T}, j int', '''old := vc.MSnap(m)
x, err := m.MarshalYAML()
n, ok := x.(*yaml.Node)
vc.Assert(ok || err != nil, "the YAML form is a node")
vcToYAML(old, m, n, err, vc.MOrdered(old), j)''')
    c('C03', 'convertible', f'm {T}, b bool', '''vc.Convertible(m)
_, err := m.ToYAML()
vc.Assert(err == nil, "no error when every entry can be converted")''')
    c('C03', 'MarshalJSON', f'm {T}, j int, q string', '''old := vc.MSnap(m)
b, err := m.MarshalJSON()
vc.JSONIs(old, b, err, vc.MOrdered(old), j, q)
vcUnchanged(old, m, j)''')
    gens.append((T, K, V))
    if V not in ('string', 'interface{}'):
        fakes[V] = True
def isMap(V): return V in ('Annotation', 'Facet')
for V in sorted(fakes):
    out.append(f'''type vcFake{V} struct {{
	{V}
	id int
}}

func (f *vcFake{V}) ToYAML() (*yaml.Node, error)       {{ return vcFakeNode("{V}", f.id) }}
func (f *vcFake{V}) MarshalYAML() (interface{{}}, error) {{ return vcFakeNode("{V}", f.id) }}
func (f *vcFake{V}) MarshalJSON() ([]byte, error)       {{ return vcFakeJSON("{V}", f.id) }}
''')
out.append('''func vcFakeNode(s string, id int) (*yaml.Node, error) {
	if id%11 == 10 {
		return nil, errors.New("cannot convert")
	}
	return xyml.NewStringNode(s + strconv.Itoa(id)), nil
}

func vcFakeJSON(s string, id int) ([]byte, error) {
	if id%11 == 9 {
		return nil, errors.New("cannot convert")
	}
	return []byte(strconv.Quote(s + strconv.Itoa(id))), nil
}

// VcGens: how a replay builds arbitrary inputs of the interface types.
func VcGens() map[reflect.Type]func(*vc.Rand) interface{} {
	return map[reflect.Type]func(*vc.Rand) interface{}{''')
for V in sorted(fakes):
    out.append(f'''		reflect.TypeOf((*{V})(nil)).Elem(): func(r *vc.Rand) interface{{}} {{
			if r.Intn(12) == 0 {{
				return nil
			}}
			return &vcFake{V}{{id: r.Intn(60)}}
		}},''')
for T, K, V in gens:
    out.append(f'''		reflect.TypeOf((*{T})(nil)).Elem(): func(r *vc.Rand) interface{{}} {{
			return r.Fill(New{T}(r.Intn(3)))
		}},''')
out.append('''	}
}''')
open('/verif/contracts/raml/maps.go', 'w').write('\n'.join(out) + '\n')
print(names)
