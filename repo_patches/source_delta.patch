From f144dceb2fa8252554564dc982b8550293aea6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 01/16] fix: do not panic on empty mapping keys

---
 v0/gen/example-m.tpl                      | 3 ++-
 v0/internal/raml/APISpec.go               | 5 +++--
 v0/internal/raml/Library.go               | 3 ++-
 v0/internal/raml/in-components.go         | 3 ++-
 v0/internal/raml/x-gen-ex-any.go          | 3 ++-
 v0/internal/raml/x-gen-ex-array.go        | 3 ++-
 v0/internal/raml/x-gen-ex-bool.go         | 3 ++-
 v0/internal/raml/x-gen-ex-custom.go       | 3 ++-
 v0/internal/raml/x-gen-ex-dateonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetime.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 3 ++-
 v0/internal/raml/x-gen-ex-file.go         | 3 ++-
 v0/internal/raml/x-gen-ex-integer.go      | 3 ++-
 v0/internal/raml/x-gen-ex-number.go       | 3 ++-
 v0/internal/raml/x-gen-ex-object.go       | 3 ++-
 v0/internal/raml/x-gen-ex-string.go       | 3 ++-
 v0/internal/raml/x-gen-ex-timeonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-union.go        | 3 ++-
 18 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..70bbe6d 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -3,6 +3,7 @@
 package raml
 
 import (
+	"strings"
 	"github.com/Foxcapades/goop/v1/pkg/option"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
@@ -157,7 +158,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..ffdd42c 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewApiSpec() *APISpec {
@@ -379,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +389,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if strings.HasPrefix(k.Value, "/") {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..c4cfe3a 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewLibrary() *Library {
@@ -227,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..3972c4e 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 /******************************************************************************/
@@ -24,7 +25,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if !strings.HasPrefix(k, "(") {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..734dad3 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewAnyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..1509c83 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewArrayExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..42ba79c 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewBoolExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..1bcb539 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewCustomExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..98abc6d 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDateOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..83b513e 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..c5069b1 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..f3c2ad8 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewFileExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..6ee6339 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewIntegerExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..c8e7552 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewNumberExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..5aea9b9 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewObjectExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..3d5046c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewStringExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..50d76d0 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewTimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..337b802 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewUnionExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From dbcce18cfeb7c252f26b647a1b1b06e9a81ad165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 02/16] fix: support the example facet on the any type

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From 7bb9ecd137152b0950c30a32ea1b691ec8dadf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 03/16] fix: keep library annotation types apart from applied
 annotations

---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index c4cfe3a..0e973f5 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -213,7 +213,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From 88de4a501b06f9783029ca93c0f222132f1d6e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 04/16] fix: default empty type declarations to string

---
 v0/internal/raml/fn-sorting-hat-type.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..8700d11 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -2,7 +2,6 @@ package raml
 
 import (
 	"fmt"
-	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -50,7 +49,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From c37109324ca7d54ab2a8798214dde8774e13e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 05/16] fix: accept an include as the type of an expanded type
 declaration

---
 v0/internal/raml/DataType.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..a834af4 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -100,6 +100,11 @@ func (d *DataType) marshal(out raml.AnyMap) error {
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
+		if val.Tag == "!include" {
+			d.schema = val.Value
+			return nil
+		}
+
 		if err := xyml.RequireString(val); err != nil {
 			return err
 		} else {
-- 
2.43.0


From fbbf3dfe95852dbefa0b193eb17af6eded6100a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 06/16] fix: reject negative values for unsigned facets

---
 v0/internal/util/assign/uint.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..3c513ae 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,29 +1,45 @@
 package assign
 
 import (
+	"fmt"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	val, err := asUint(v)
+	if err != nil {
 		return err
-	} else {
-		*ptr = uint(val)
 	}
 
+	*ptr = val
+
 	return nil
 }
 
 // Helper function for uint values in assign functions
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	val, err := asUint(v)
+	if err != nil {
 		return err
-	} else {
-		tmp := uint(val)
-		*ptr = &tmp
 	}
 
+	*ptr = &val
+
 	return nil
 }
+
+func asUint(v *yaml.Node) (uint, error) {
+	val, err := xyml.ToInt(v, 10)
+	if err != nil {
+		return 0, err
+	}
+
+	if val < 0 {
+		return 0, fmt.Errorf("expected a non-negative integer, instead got %d at "+
+			"%d:%d", val, v.Line, v.Column)
+	}
+
+	return uint(val), nil
+}
-- 
2.43.0


From 586d1a1947a390c9201c71743269f8e97648ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 07/16] fix: accept integer literals for number facets and
 examples

---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 13 ++++++++++++-
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 70bbe6d..d732f6a 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -214,7 +214,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..74aa070 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,7 +287,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index c8e7552..61911d6 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -190,7 +190,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..fcc1a38 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..eac118b 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -6,7 +6,7 @@ import (
 )
 
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
@@ -14,3 +14,14 @@ func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
 
 	return nil
 }
+
+// ToFloat64 parses the given YAML node as a number, accepting both integer and
+// floating point values.
+func ToFloat64(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		val, err := xyml.ToInt(v, 10)
+		return float64(val), err
+	}
+
+	return xyml.ToFloat(v)
+}
-- 
2.43.0


From ba99b36669cb388db89efe2d9588bb1f28e8581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 08/16] fix: parse the default facet of type declarations

---
 v0/gen/type-m/extended.tpl                   | 20 ++++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  4 ++++
 v0/internal/raml/x-gen-type-array.go         |  6 ++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  2 ++
 v0/internal/raml/x-gen-type-datetime-only.go |  2 ++
 v0/internal/raml/x-gen-type-datetime.go      |  2 ++
 v0/internal/raml/x-gen-type-file.go          |  4 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  4 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  2 ++
 v0/internal/raml/x-gen-type-union.go         |  4 ++++
 15 files changed, 62 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 74aa070..c3dcdb6 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -267,6 +267,26 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		{{if eq .DefTypeName "Bool" -}}
+		return assign.AsBoolPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Int64" -}}
+		return assign.AsInt64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "Float64" -}}
+		return assign.AsFloat64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "String" -}}
+		return assign.AsStringPtr(val, &o.def)
+		{{- else if eq .Name "Array" -}}
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+
+			return nil
+		})
+		{{- else -}}
+		var def interface{} = val
+		o.def = &def
+		return nil
+		{{- end}}
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..9c4f0e0 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -201,6 +201,10 @@ func (o *AnyType) marshal(out raml.AnyMap) error {
 
 func (o *AnyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..dce43af 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -263,6 +263,12 @@ func (o *ArrayType) marshal(out raml.AnyMap) error {
 
 func (o *ArrayType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+
+			return nil
+		})
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..f8ba31d 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -201,6 +201,8 @@ func (o *BoolType) marshal(out raml.AnyMap) error {
 
 func (o *BoolType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..0bdabad 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -201,6 +201,10 @@ func (o *CustomType) marshal(out raml.AnyMap) error {
 
 func (o *CustomType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..4ee8858 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -201,6 +201,8 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..b7bc4fe 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -201,6 +201,8 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..d24169a 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -216,6 +216,8 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..11e1c4a 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -247,6 +247,10 @@ func (o *FileType) marshal(out raml.AnyMap) error {
 
 func (o *FileType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..f638eab 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -264,6 +264,8 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 
 func (o *IntegerType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index fcc1a38..404392c 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -264,6 +264,8 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 
 func (o *NumberType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..24be6d6 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -304,6 +304,10 @@ func (o *ObjectType) marshal(out raml.AnyMap) error {
 
 func (o *ObjectType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..9b0aa44 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -247,6 +247,8 @@ func (o *StringType) marshal(out raml.AnyMap) error {
 
 func (o *StringType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..74207d4 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -201,6 +201,8 @@ func (o *TimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..25e5be9 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -201,6 +201,10 @@ func (o *UnionType) marshal(out raml.AnyMap) error {
 
 func (o *UnionType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
-- 
2.43.0


From a1ba1c264eb9e9c21307434308b6207a24c0628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 09/16] fix: allow nil and included types to be used as
 properties

---
 v0/gen/type-m/base.tpl                 |  2 +-
 v0/internal/raml/DataType.go           | 20 +++++++++++++++++++-
 v0/internal/raml/type-datatype-ext.go  | 10 ----------
 v0/internal/raml/x-gen-type-include.go |  2 +-
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index b8f4413..894d3b2 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -37,7 +37,7 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 		Tag: "!include",
 		Value: a.DataType.schema,
 	})
-	a.DataType.hasExtra.out(out)
+	a.DataType.marshalCommon(out)
 
 	return nil
 }
diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index a834af4..718af71 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"errors"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -14,6 +15,7 @@ func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
 		self:     self,
 		schema:   string(kind),
 		kind:     kind,
+		required: true,
 		hasExtra: makeExtra(),
 	}
 }
@@ -25,6 +27,8 @@ type DataType struct {
 
 	schema string
 	kind   rmeta.DataTypeKind
+
+	required bool
 }
 
 func (d *DataType) Schema() string {
@@ -43,6 +47,10 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 	return d.kind
 }
 
+func (d *DataType) Required() bool {
+	return d.required
+}
+
 func (d *DataType) ToRAML() (string, error) {
 	panic("implement me")
 }
@@ -93,10 +101,18 @@ func (d *DataType) UnmarshalRAML(val *yaml.Node) error {
 
 func (d *DataType) marshal(out raml.AnyMap) error {
 	out.Put(rmeta.KeyType, d.schema)
-	d.hasExtra.out(out)
+	d.marshalCommon(out)
 	return nil
 }
 
+func (d *DataType) marshalCommon(out raml.AnyMap) {
+	d.hasExtra.out(out)
+
+	if !d.required {
+		out.Put(rmeta.KeyRequired, d.required)
+	}
+}
+
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
@@ -111,6 +127,8 @@ func (d *DataType) assign(key, val *yaml.Node) error {
 			d.schema = val.Value
 		}
 		return nil
+	case rmeta.KeyRequired:
+		return assign.AsBool(val, &d.required)
 	}
 
 	d.hasExtra.in(key, val)
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..928617e 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -14,7 +14,6 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
 		facets:         raml.NewFacetMap(0),
-		required:       true,
 	}
 }
 
@@ -26,7 +25,6 @@ type ExtendedDataType struct {
 	description *string
 	facets      raml.FacetMap
 	xml         raml.XML
-	required    bool
 }
 
 func (e *ExtendedDataType) DisplayName() option.String {
@@ -45,10 +43,6 @@ func (e *ExtendedDataType) XML() raml.XML {
 	return e.xml
 }
 
-func (e *ExtendedDataType) Required() bool {
-	return e.required
-}
-
 func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 		PutIfNotNil(rmeta.KeyDescription, e.description)
@@ -57,10 +51,6 @@ func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 		return err
 	}
 
-	if !e.required {
-		out.Put(rmeta.KeyRequired, e.required)
-	}
-
 	e.hasAnnotations.out(out)
 
 	if e.facets.Len() > 0 {
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index f559966..f11adc2 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -32,7 +32,7 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 		Tag:   "!include",
 		Value: a.DataType.schema,
 	})
-	a.DataType.hasExtra.out(out)
+	a.DataType.marshalCommon(out)
 
 	return nil
 }
-- 
2.43.0


From f807272bc5a9891e499a6f9c5ea06193c24d60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 10/16] fix: write the xml facet of type declarations

---
 v0/internal/raml/type-xml.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..8c91366 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -104,10 +104,19 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyName, x.name).
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5 + x.extra.Len()).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
@@ -124,7 +133,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 2b8901fa85c4124dca365df10f23239a98d4fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 11/16] fix: write user documentation entries

---
 v0/internal/raml/Documentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..795eda8 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,14 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d *Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From 802359077ddcf64298631cadef973c47b8531cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 12/16] fix: write examples without metadata as their plain
 value

---
 v0/gen/example-m.tpl                      | 7 +++++--
 v0/internal/raml/x-gen-ex-any.go          | 7 +++++--
 v0/internal/raml/x-gen-ex-array.go        | 5 ++++-
 v0/internal/raml/x-gen-ex-bool.go         | 5 ++++-
 v0/internal/raml/x-gen-ex-custom.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 5 ++++-
 v0/internal/raml/x-gen-ex-datetime.go     | 5 ++++-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 5 ++++-
 v0/internal/raml/x-gen-ex-file.go         | 7 +++++--
 v0/internal/raml/x-gen-ex-integer.go      | 5 ++++-
 v0/internal/raml/x-gen-ex-number.go       | 5 ++++-
 v0/internal/raml/x-gen-ex-object.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-string.go       | 5 ++++-
 v0/internal/raml/x-gen-ex-timeonly.go     | 5 ++++-
 v0/internal/raml/x-gen-ex-union.go        | 7 +++++--
 15 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index d732f6a..0504984 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -113,8 +113,11 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -226,7 +229,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 734dad3..485f197 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -107,8 +107,11 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -190,7 +193,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 1509c83..9e8f2a8 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -107,8 +107,11 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 42ba79c..2c4b3f4 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -107,8 +107,11 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1bcb539..9ee70d4 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -107,8 +107,11 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -190,7 +193,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 98abc6d..6a034c3 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -107,8 +107,11 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 83b513e..9723c0c 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -107,8 +107,11 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index c5069b1..aff4acf 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -107,8 +107,11 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index f3c2ad8..6e5d3f7 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -107,8 +107,11 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -190,7 +193,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 6ee6339..96c5817 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -107,8 +107,11 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 61911d6..ae762de 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -107,8 +107,11 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 5aea9b9..c788f62 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -107,8 +107,11 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -190,7 +193,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 3d5046c..1896a7c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -107,8 +107,11 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 50d76d0..5f8ba8a 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -107,8 +107,11 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 337b802..5947bc7 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -107,8 +107,11 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		val, _ := out.Get("")
+		return xyml.ToYamlNode(val)
 	}
 	return out.ToYAML()
 }
@@ -190,7 +193,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From d5b3f92e087bfbdd806307cf66ef311ed31d5ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 13/16] fix: write replaced and nested collections as plain
 mappings

---
 v0/gen/example-m.tpl                         |  2 +-
 v0/gen/type-m/extended.tpl                   |  8 ++++----
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 18 +++++++++---------
 v0/internal/raml/Library.go                  | 12 ++++++------
 v0/internal/raml/annotation.go               |  2 +-
 v0/internal/raml/in-components.go            |  6 +++---
 v0/internal/raml/type-datatype-ext.go        |  2 +-
 v0/internal/raml/type-facet.go               |  2 +-
 v0/internal/raml/x-gen-ex-any.go             |  2 +-
 v0/internal/raml/x-gen-ex-array.go           |  2 +-
 v0/internal/raml/x-gen-ex-bool.go            |  2 +-
 v0/internal/raml/x-gen-ex-custom.go          |  2 +-
 v0/internal/raml/x-gen-ex-dateonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetime.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  2 +-
 v0/internal/raml/x-gen-ex-file.go            |  2 +-
 v0/internal/raml/x-gen-ex-integer.go         |  2 +-
 v0/internal/raml/x-gen-ex-number.go          |  2 +-
 v0/internal/raml/x-gen-ex-object.go          |  2 +-
 v0/internal/raml/x-gen-ex-string.go          |  2 +-
 v0/internal/raml/x-gen-ex-timeonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-union.go           |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  8 ++++----
 v0/internal/raml/x-gen-type-array.go         |  8 ++++----
 v0/internal/raml/x-gen-type-bool.go          |  8 ++++----
 v0/internal/raml/x-gen-type-custom.go        |  8 ++++----
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++----
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++----
 v0/internal/raml/x-gen-type-file.go          |  8 ++++----
 v0/internal/raml/x-gen-type-integer.go       |  8 ++++----
 v0/internal/raml/x-gen-type-number.go        |  8 ++++----
 v0/internal/raml/x-gen-type-object.go        | 10 +++++-----
 v0/internal/raml/x-gen-type-string.go        |  8 ++++----
 v0/internal/raml/x-gen-type-time-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-union.go         |  8 ++++----
 37 files changed, 98 insertions(+), 98 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 0504984..9964971 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -76,7 +76,7 @@ func (e *{{.Name}}Example) SetAnnotations(ann raml.AnnotationMap) raml.{{.Name}}
 }
 
 func (e *{{.Name}}Example) UnsetAnnotations() raml.{{.Name}}Example {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index c3dcdb6..b486568 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -156,7 +156,7 @@ func (o *{{.Name}}Type) SetAnnotations(annotations raml.AnnotationMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetAnnotations() raml.{{.Name}}Type {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -208,7 +208,7 @@ func (o *{{.Name}}Type) SetExtraFacets(facets raml.AnyMap) raml.{{.Name}}Type {
 }
 
 func (o *{{.Name}}Type) UnsetExtraFacets() raml.{{.Name}}Type {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index ffdd42c..6644d4f 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -158,7 +158,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -175,7 +175,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -192,7 +192,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -209,7 +209,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -226,7 +226,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -243,7 +243,7 @@ func (a *APISpec) SetAnnotations(t raml.AnnotationMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotations() raml.APISpec {
-	a.annotations = raml.NewAnnotationMap(0)
+	a.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -260,7 +260,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -291,7 +291,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -381,7 +381,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if strings.HasPrefix(k.Value, "(") {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 0e973f5..544974d 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -49,7 +49,7 @@ func (l *Library) SetAnnotations(a raml.AnnotationMap) raml.Library {
 }
 
 func (l *Library) UnsetAnnotations() raml.Library {
-	l.annotations = raml.NewAnnotationMap(0)
+	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -74,7 +74,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -91,7 +91,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -112,7 +112,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -129,7 +129,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -229,7 +229,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 3972c4e..7f04232 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -9,7 +9,7 @@ import (
 /******************************************************************************/
 
 func makeAnnotations() hasAnnotations {
-	return hasAnnotations{raml.NewAnnotationMap(0)}
+	return hasAnnotations{raml.NewAnnotationMap(0).SerializeOrdered(false)}
 }
 
 type hasAnnotations struct {
@@ -29,7 +29,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
@@ -44,7 +44,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 
 // Deprecated: don't use this
 func makeExtra() hasExtra {
-	return hasExtra{raml.NewAnyMap(0)}
+	return hasExtra{raml.NewAnyMap(0).SerializeOrdered(false)}
 }
 
 // Deprecated: don't use this
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 928617e..020337c 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 	}
 }
 
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 485f197..1d803e2 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -74,7 +74,7 @@ func (e *AnyExample) SetAnnotations(ann raml.AnnotationMap) raml.AnyExample {
 }
 
 func (e *AnyExample) UnsetAnnotations() raml.AnyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 9e8f2a8..b1056c3 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -74,7 +74,7 @@ func (e *ArrayExample) SetAnnotations(ann raml.AnnotationMap) raml.ArrayExample
 }
 
 func (e *ArrayExample) UnsetAnnotations() raml.ArrayExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 2c4b3f4..28f4979 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -74,7 +74,7 @@ func (e *BoolExample) SetAnnotations(ann raml.AnnotationMap) raml.BoolExample {
 }
 
 func (e *BoolExample) UnsetAnnotations() raml.BoolExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 9ee70d4..f3f991a 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -74,7 +74,7 @@ func (e *CustomExample) SetAnnotations(ann raml.AnnotationMap) raml.CustomExampl
 }
 
 func (e *CustomExample) UnsetAnnotations() raml.CustomExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 6a034c3..ef8c502 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -74,7 +74,7 @@ func (e *DateOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.DateOnlyEx
 }
 
 func (e *DateOnlyExample) UnsetAnnotations() raml.DateOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 9723c0c..252987b 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -74,7 +74,7 @@ func (e *DatetimeExample) SetAnnotations(ann raml.AnnotationMap) raml.DatetimeEx
 }
 
 func (e *DatetimeExample) UnsetAnnotations() raml.DatetimeExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index aff4acf..0de87fa 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -74,7 +74,7 @@ func (e *DatetimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.Dateti
 }
 
 func (e *DatetimeOnlyExample) UnsetAnnotations() raml.DatetimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 6e5d3f7..be0618d 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -74,7 +74,7 @@ func (e *FileExample) SetAnnotations(ann raml.AnnotationMap) raml.FileExample {
 }
 
 func (e *FileExample) UnsetAnnotations() raml.FileExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 96c5817..630ca6a 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -74,7 +74,7 @@ func (e *IntegerExample) SetAnnotations(ann raml.AnnotationMap) raml.IntegerExam
 }
 
 func (e *IntegerExample) UnsetAnnotations() raml.IntegerExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index ae762de..24629a4 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -74,7 +74,7 @@ func (e *NumberExample) SetAnnotations(ann raml.AnnotationMap) raml.NumberExampl
 }
 
 func (e *NumberExample) UnsetAnnotations() raml.NumberExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index c788f62..1e0f62c 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -74,7 +74,7 @@ func (e *ObjectExample) SetAnnotations(ann raml.AnnotationMap) raml.ObjectExampl
 }
 
 func (e *ObjectExample) UnsetAnnotations() raml.ObjectExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 1896a7c..c7375c1 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -74,7 +74,7 @@ func (e *StringExample) SetAnnotations(ann raml.AnnotationMap) raml.StringExampl
 }
 
 func (e *StringExample) UnsetAnnotations() raml.StringExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 5f8ba8a..fa156d7 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -74,7 +74,7 @@ func (e *TimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.TimeOnlyEx
 }
 
 func (e *TimeOnlyExample) UnsetAnnotations() raml.TimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 5947bc7..d33d384 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -74,7 +74,7 @@ func (e *UnionExample) SetAnnotations(ann raml.AnnotationMap) raml.UnionExample
 }
 
 func (e *UnionExample) UnsetAnnotations() raml.UnionExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 9c4f0e0..8d33f8d 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *AnyType) SetAnnotations(annotations raml.AnnotationMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetAnnotations() raml.AnyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *AnyType) SetExtraFacets(facets raml.AnyMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExtraFacets() raml.AnyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index dce43af..aa06505 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -127,7 +127,7 @@ func (o *ArrayType) SetAnnotations(annotations raml.AnnotationMap) raml.ArrayTyp
 }
 
 func (o *ArrayType) UnsetAnnotations() raml.ArrayType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -179,7 +179,7 @@ func (o *ArrayType) SetExtraFacets(facets raml.AnyMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExtraFacets() raml.ArrayType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index f8ba31d..d0bd813 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *BoolType) SetAnnotations(annotations raml.AnnotationMap) raml.BoolType
 }
 
 func (o *BoolType) UnsetAnnotations() raml.BoolType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *BoolType) SetExtraFacets(facets raml.AnyMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExtraFacets() raml.BoolType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 0bdabad..fe1510a 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *CustomType) SetAnnotations(annotations raml.AnnotationMap) raml.CustomT
 }
 
 func (o *CustomType) UnsetAnnotations() raml.CustomType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *CustomType) SetExtraFacets(facets raml.AnyMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetExtraFacets() raml.CustomType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4ee8858..7447535 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DateOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.DateO
 }
 
 func (o *DateOnlyType) UnsetAnnotations() raml.DateOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DateOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DateOnlyType {
 }
 
 func (o *DateOnlyType) UnsetExtraFacets() raml.DateOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index b7bc4fe..8dbb993 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DatetimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.D
 }
 
 func (o *DatetimeOnlyType) UnsetAnnotations() raml.DatetimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DatetimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeOnlyT
 }
 
 func (o *DatetimeOnlyType) UnsetExtraFacets() raml.DatetimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index d24169a..e39031f 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -121,7 +121,7 @@ func (o *DatetimeType) SetAnnotations(annotations raml.AnnotationMap) raml.Datet
 }
 
 func (o *DatetimeType) UnsetAnnotations() raml.DatetimeType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -173,7 +173,7 @@ func (o *DatetimeType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeType {
 }
 
 func (o *DatetimeType) UnsetExtraFacets() raml.DatetimeType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index 11e1c4a..79a3bea 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -126,7 +126,7 @@ func (o *FileType) SetAnnotations(annotations raml.AnnotationMap) raml.FileType
 }
 
 func (o *FileType) UnsetAnnotations() raml.FileType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -178,7 +178,7 @@ func (o *FileType) SetExtraFacets(facets raml.AnyMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExtraFacets() raml.FileType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index f638eab..067a548 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *IntegerType) SetAnnotations(annotations raml.AnnotationMap) raml.Intege
 }
 
 func (o *IntegerType) UnsetAnnotations() raml.IntegerType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *IntegerType) SetExtraFacets(facets raml.AnyMap) raml.IntegerType {
 }
 
 func (o *IntegerType) UnsetExtraFacets() raml.IntegerType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 404392c..79bc389 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *NumberType) SetAnnotations(annotations raml.AnnotationMap) raml.NumberT
 }
 
 func (o *NumberType) UnsetAnnotations() raml.NumberType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *NumberType) SetExtraFacets(facets raml.AnyMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetExtraFacets() raml.NumberType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 24be6d6..09277db 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -129,7 +129,7 @@ func (o *ObjectType) SetAnnotations(annotations raml.AnnotationMap) raml.ObjectT
 }
 
 func (o *ObjectType) UnsetAnnotations() raml.ObjectType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -181,7 +181,7 @@ func (o *ObjectType) SetExtraFacets(facets raml.AnyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetExtraFacets() raml.ObjectType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 9b0aa44..c0c0866 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -125,7 +125,7 @@ func (o *StringType) SetAnnotations(annotations raml.AnnotationMap) raml.StringT
 }
 
 func (o *StringType) UnsetAnnotations() raml.StringType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -177,7 +177,7 @@ func (o *StringType) SetExtraFacets(facets raml.AnyMap) raml.StringType {
 }
 
 func (o *StringType) UnsetExtraFacets() raml.StringType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 74207d4..188c978 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *TimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.TimeO
 }
 
 func (o *TimeOnlyType) UnsetAnnotations() raml.TimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *TimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.TimeOnlyType {
 }
 
 func (o *TimeOnlyType) UnsetExtraFacets() raml.TimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 25e5be9..bfd4195 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *UnionType) SetAnnotations(annotations raml.AnnotationMap) raml.UnionTyp
 }
 
 func (o *UnionType) UnsetAnnotations() raml.UnionType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *UnionType) SetExtraFacets(facets raml.AnyMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExtraFacets() raml.UnionType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From 1a69ee4ce345b2831e28bf58edfe05a0fd334bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 14/16] fix: reject non-string documentation titles and
 contents

---
 v0/internal/raml/Documentation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 795eda8..4e21f03 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -58,9 +59,9 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
-			d.title = v.Value
+			return assign.AsString(v, &d.title)
 		case rmeta.KeyContent:
-			d.content = v.Value
+			return assign.AsString(v, &d.content)
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
-- 
2.43.0


From b0c3f5e10e956f0e399a6b5c00a4d5f108157b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 15/16] fix: GetOpt of an entry that holds nil returns it
 instead of panicking

---
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 9fcc3c4..d2252e6 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -197,7 +197,7 @@ func (i *implAnyExampleMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implAnyExampleMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..e31a51a 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -197,7 +197,7 @@ func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {
 
 func (i *implAnyMap) GetOpt(k interface{}) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index ca9844f..654b327 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -197,7 +197,7 @@ func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implUntypedMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
-- 
2.43.0


From b76ff89bccf2b062ec5737fe0686ccf5049ee3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:27 +0000
Subject: [PATCH 16/16] fix: keep binary keys of unrecognized entries as text
 instead of panicking

---
 v0/gen/example-m.tpl                      |  4 ++--
 v0/internal/raml/APISpec.go               |  4 ++--
 v0/internal/raml/Documentation.go         |  2 +-
 v0/internal/raml/Library.go               |  2 +-
 v0/internal/raml/in-components.go         | 17 +++++++++++++++++
 v0/internal/raml/type-xml.go              |  2 +-
 v0/internal/raml/x-gen-ex-any.go          |  4 ++--
 v0/internal/raml/x-gen-ex-array.go        |  4 ++--
 v0/internal/raml/x-gen-ex-bool.go         |  4 ++--
 v0/internal/raml/x-gen-ex-custom.go       |  4 ++--
 v0/internal/raml/x-gen-ex-dateonly.go     |  4 ++--
 v0/internal/raml/x-gen-ex-datetime.go     |  4 ++--
 v0/internal/raml/x-gen-ex-datetimeonly.go |  4 ++--
 v0/internal/raml/x-gen-ex-file.go         |  4 ++--
 v0/internal/raml/x-gen-ex-integer.go      |  4 ++--
 v0/internal/raml/x-gen-ex-number.go       |  4 ++--
 v0/internal/raml/x-gen-ex-object.go       |  4 ++--
 v0/internal/raml/x-gen-ex-string.go       |  4 ++--
 v0/internal/raml/x-gen-ex-timeonly.go     |  4 ++--
 v0/internal/raml/x-gen-ex-union.go        |  4 ++--
 20 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 9964971..e5dd56a 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -153,7 +153,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -181,7 +181,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 6644d4f..b683c9d 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -372,7 +372,7 @@ func (a *APISpec) WriteRAML(w io.Writer) error {
 
 func (a *APISpec) assign(k, v *yaml.Node) error {
 	if !xyml.IsString(k) {
-		if val, err := xyml.ToScalarValue(k); err != nil {
+		if val, err := extraKey(k); err != nil {
 			return err
 		} else {
 			a.extra.Put(val, v)
@@ -437,7 +437,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	case rmeta.KeyTypes, rmeta.KeySchemas:
 		return UnmarshalDataTypeMapRAML(a.types, v)
 	default:
-		if key, err := xyml.ToScalarValue(k); err != nil {
+		if key, err := extraKey(k); err != nil {
 			return err
 		} else {
 			a.extra.Put(key, v)
diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 4e21f03..4862ff7 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -63,7 +63,7 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 		case rmeta.KeyContent:
 			return assign.AsString(v, &d.content)
 		default:
-			if key, err := xyml.ToScalarValue(k); err != nil {
+			if key, err := extraKey(k); err != nil {
 				return err
 			} else {
 				d.extra.Put(key, v)
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 544974d..e1f6f11 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -237,7 +237,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if val, err := xyml.ToScalarValue(k); err != nil {
+	if val, err := extraKey(k); err != nil {
 		return err
 	} else {
 		l.extra.Put(val, v)
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 7f04232..94b5a89 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"strings"
 )
@@ -63,3 +64,19 @@ func (h *hasExtra) out(out raml.AnyMap) {
 func (h *hasExtra) in(k, v *yaml.Node) {
 	h.mp.Put(k.Value, v)
 }
+
+// extraKey returns the key under which an unrecognized map entry is kept.
+//
+// Binary values are not usable as map keys, such keys are kept as their text.
+func extraKey(k *yaml.Node) (interface{}, error) {
+	key, err := xyml.ToScalarValue(k)
+	if err != nil {
+		return nil, err
+	}
+
+	if _, ok := key.([]byte); ok {
+		return k.Value, nil
+	}
+
+	return key, nil
+}
diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 8c91366..c357d95 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -130,7 +130,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 	case rmeta.KeyPrefix:
 		return assign.AsStringPtr(val, &x.pref)
 	default:
-		if k, err := xyml.ToScalarValue(key); err != nil {
+		if k, err := extraKey(key); err != nil {
 			return err
 		} else {
 			x.extra.Put(k, val)
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 1d803e2..7f4756a 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -147,7 +147,7 @@ func (e *AnyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *AnyExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b1056c3..278170d 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -147,7 +147,7 @@ func (e *ArrayExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *ArrayExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 28f4979..80a835b 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -147,7 +147,7 @@ func (e *BoolExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *BoolExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index f3f991a..e736f37 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -147,7 +147,7 @@ func (e *CustomExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *CustomExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index ef8c502..4eee4ed 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -147,7 +147,7 @@ func (e *DateOnlyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 252987b..61c358d 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -147,7 +147,7 @@ func (e *DatetimeExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 0de87fa..3dc5a0d 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -147,7 +147,7 @@ func (e *DatetimeOnlyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index be0618d..6a15925 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -147,7 +147,7 @@ func (e *FileExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *FileExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 630ca6a..1eb455d 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -147,7 +147,7 @@ func (e *IntegerExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *IntegerExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 24629a4..a7bab81 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -147,7 +147,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *NumberExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 1e0f62c..0f198a8 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -147,7 +147,7 @@ func (e *ObjectExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *ObjectExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index c7375c1..6be0d4f 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -147,7 +147,7 @@ func (e *StringExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *StringExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index fa156d7..1eba0b4 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -147,7 +147,7 @@ func (e *TimeOnlyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index d33d384..1e4e6ea 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -147,7 +147,7 @@ func (e *UnionExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 
 func (e *UnionExample) assign(key, val *yaml.Node) error {
 	if !xyml.IsString(key) {
-		if ver, err := xyml.ToScalarValue(key); err != nil {
+		if ver, err := extraKey(key); err != nil {
 			return err
 		} else {
 			e.extra.Put(ver, val)
@@ -175,7 +175,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return e.assignVal(val)
 	}
 
-	if ver, err := xyml.ToScalarValue(key); err != nil {
+	if ver, err := extraKey(key); err != nil {
 		return err
 	} else {
 		e.extra.Put(ver, val)
-- 
2.43.0

