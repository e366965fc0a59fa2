package raml

// Written by tools/mkparse.py.

import (
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
)

// vcSameDecl: two declarations are of the same kind and have the same
// properties.
func vcSameDecl(a, b interface{}) {
	switch x := a.(type) {
	case *AnyType:
		y, ok := b.(*AnyType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadAnyType(x), vcReadAnyType(y), "the declaration has the properties that are given")
	case *ArrayType:
		y, ok := b.(*ArrayType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadArrayType(x), vcReadArrayType(y), "the declaration has the properties that are given")
	case *BoolType:
		y, ok := b.(*BoolType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadBoolType(x), vcReadBoolType(y), "the declaration has the properties that are given")
	case *CustomType:
		y, ok := b.(*CustomType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadCustomType(x), vcReadCustomType(y), "the declaration has the properties that are given")
	case *DateOnlyType:
		y, ok := b.(*DateOnlyType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadDateOnlyType(x), vcReadDateOnlyType(y), "the declaration has the properties that are given")
	case *DatetimeOnlyType:
		y, ok := b.(*DatetimeOnlyType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadDatetimeOnlyType(x), vcReadDatetimeOnlyType(y), "the declaration has the properties that are given")
	case *DatetimeType:
		y, ok := b.(*DatetimeType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadDatetimeType(x), vcReadDatetimeType(y), "the declaration has the properties that are given")
	case *FileType:
		y, ok := b.(*FileType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadFileType(x), vcReadFileType(y), "the declaration has the properties that are given")
	case *IntegerType:
		y, ok := b.(*IntegerType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadIntegerType(x), vcReadIntegerType(y), "the declaration has the properties that are given")
	case *NumberType:
		y, ok := b.(*NumberType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadNumberType(x), vcReadNumberType(y), "the declaration has the properties that are given")
	case *ObjectType:
		y, ok := b.(*ObjectType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadObjectType(x), vcReadObjectType(y), "the declaration has the properties that are given")
	case *StringType:
		y, ok := b.(*StringType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadStringType(x), vcReadStringType(y), "the declaration has the properties that are given")
	case *TimeOnlyType:
		y, ok := b.(*TimeOnlyType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadTimeOnlyType(x), vcReadTimeOnlyType(y), "the declaration has the properties that are given")
	case *UnionType:
		y, ok := b.(*UnionType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadUnionType(x), vcReadUnionType(y), "the declaration has the properties that are given")
	case *IncludeType:
		y, ok := b.(*IncludeType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadIncludeType(x), vcReadIncludeType(y), "the declaration has the properties that are given")
	case *NilType:
		y, ok := b.(*NilType)
		vc.Assert(ok, "the declaration is of the right kind")
		vc.Check(vcReadNilType(x), vcReadNilType(y), "the declaration has the properties that are given")
	default:
		vc.Assert(false, "the declaration is of a known kind")
	}
}
