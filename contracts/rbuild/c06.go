package rbuild

// The public builders return new elements of the kind their name says.

import (
	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
)

func VcC06_build_NewLibrary(k string, q interface{}) {
	a, b := NewLibrary(), NewLibrary()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewLibrary(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartLibrary(a, b, k, q)
}

func VcC06_build_NewAPISpec(k string, q interface{}) {
	a, b := NewAPISpec(), NewAPISpec()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewAPISpec(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartAPISpec(a, b, k, q)
}

func VcC06_build_NewAnyDataType(k string, q interface{}) {
	a, b := NewAnyDataType(), NewAnyDataType()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewAnyType(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartAnyType(a, b, k, q)
}

func VcC06_build_NewArrayDataType(k string, q interface{}) {
	a, b := NewArrayDataType(), NewArrayDataType()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewArrayType(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartArrayType(a, b, k, q)
}

func VcC06_build_NewBoolDataType(k string, q interface{}) {
	a, b := NewBoolDataType(), NewBoolDataType()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewBoolType(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartBoolType(a, b, k, q)
}

func VcC06_build_NewIntegerDataType(k string, q interface{}) {
	a, b := NewIntegerDataType(), NewIntegerDataType()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewIntegerType(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartIntegerType(a, b, k, q)
}

func VcC06_build_NewNumberDataType(k string, q interface{}) {
	a, b := NewNumberDataType(), NewNumberDataType()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewNumberType(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartNumberType(a, b, k, q)
}

func VcC06_build_NewStringDataType(k string, q interface{}) {
	a, b := NewStringDataType(), NewStringDataType()
	vc.Assert(a != nil && b != nil, "an element is built")
	impl.VcNewStringType(a)
	vc.Assert(!vc.Is(a, b), "two elements are two objects")
	impl.VcApartStringType(a, b, k, q)
}
