package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"gopkg.in/yaml.v3"
)

func VcC08_fill_AnyExampleMap(m raml.AnyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.AnyExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.AnyExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalAnyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.AnyExampleMap)
			werr := vcItemAnyExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_ArrayExampleMap(m raml.ArrayExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.ArrayExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.ArrayExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalArrayExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.ArrayExampleMap)
			werr := vcItemArrayExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_BoolExampleMap(m raml.BoolExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.BoolExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.BoolExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalBoolExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.BoolExampleMap)
			werr := vcItemBoolExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_CustomExampleMap(m raml.CustomExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.CustomExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.CustomExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalCustomExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.CustomExampleMap)
			werr := vcItemCustomExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_DateOnlyExampleMap(m raml.DateOnlyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.DateOnlyExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.DateOnlyExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalDateOnlyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.DateOnlyExampleMap)
			werr := vcItemDateOnlyExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_DatetimeOnlyExampleMap(m raml.DatetimeOnlyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.DatetimeOnlyExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.DatetimeOnlyExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalDatetimeOnlyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.DatetimeOnlyExampleMap)
			werr := vcItemDatetimeOnlyExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_DatetimeExampleMap(m raml.DatetimeExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.DatetimeExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.DatetimeExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalDatetimeExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.DatetimeExampleMap)
			werr := vcItemDatetimeExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_FileExampleMap(m raml.FileExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.FileExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.FileExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalFileExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.FileExampleMap)
			werr := vcItemFileExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_IntegerExampleMap(m raml.IntegerExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.IntegerExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.IntegerExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalIntegerExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.IntegerExampleMap)
			werr := vcItemIntegerExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_NumberExampleMap(m raml.NumberExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.NumberExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.NumberExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalNumberExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.NumberExampleMap)
			werr := vcItemNumberExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_ObjectExampleMap(m raml.ObjectExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.ObjectExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.ObjectExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalObjectExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.ObjectExampleMap)
			werr := vcItemObjectExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_StringExampleMap(m raml.StringExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.StringExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.StringExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalStringExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.StringExampleMap)
			werr := vcItemStringExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_TimeOnlyExampleMap(m raml.TimeOnlyExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.TimeOnlyExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.TimeOnlyExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalTimeOnlyExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.TimeOnlyExampleMap)
			werr := vcItemTimeOnlyExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_UnionExampleMap(m raml.UnionExampleMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.UnionExampleMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.UnionExampleMap) }, y,
		func(y *yaml.Node) error { return UnmarshalUnionExampleMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.UnionExampleMap)
			werr := vcItemUnionExampleMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_UntypedMap(m raml.UntypedMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.UntypedMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.UntypedMap) }, y,
		func(y *yaml.Node) error { return UnmarshalUntypedMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.UntypedMap)
			werr := vcItemUntypedMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_StringMap(m raml.StringMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.StringMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.StringMap) }, y,
		func(y *yaml.Node) error { return UnmarshalStringMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.StringMap)
			werr := vcItemStringMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_DataTypeMap(m raml.DataTypeMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.DataTypeMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.DataTypeMap) }, y,
		func(y *yaml.Node) error { return UnmarshalDataTypeMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.DataTypeMap)
			werr := vcItemDataTypeMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_PropertyMap(m raml.PropertyMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.PropertyMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.PropertyMap) }, y,
		func(y *yaml.Node) error { return UnmarshalPropertyMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.PropertyMap)
			werr := vcItemPropertyMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_FacetMap(m raml.FacetMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.FacetMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.FacetMap) }, y,
		func(y *yaml.Node) error { return UnmarshalFacetMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.FacetMap)
			werr := vcItemFacetMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}

func VcC08_fill_AnnotationMap(m raml.AnnotationMap, y *yaml.Node) {
	vc.Assume(y != nil)
	var old raml.AnnotationMap
	err, how := vc.FoldMap(func() { old = vc.Freeze(m).(raml.AnnotationMap) }, y,
		func(y *yaml.Node) error { return UnmarshalAnnotationMapRAML(m, y) },
		func(k, v *yaml.Node, err error) {
			want := vc.Freeze(old).(raml.AnnotationMap)
			werr := vcItemAnnotationMap(want, k, v)
			vc.Assert((err == nil) == (werr == nil), "an item of the wrong kind, and nothing else, is an error")
			if err == nil {
				vc.Check(m, want, "the entry is added under its own key, in document order")
			}
		})
	vcFolded(y, err, how)
	if how != 1 {
		vc.Check(m, old, "nothing but the entries is added")
	}
}
