From d28b0d15e690dd174bcecd11bcd138c7d684cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:10 +0000
Subject: [PATCH 01/54] fix: do not validate the last positional item against
 additionalItems

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index d77e593..42475c9 100644
--- a/array.go
+++ b/array.go
@@ -103,7 +103,7 @@ pdebug.Printf("unique? -> %s", kv)
 			if cadd == nil { // you can't have additionalItems!
 				return errors.New("additional elements found in array")
 			}
-			for i := lp - 1; i < l; i++ {
+			for i := lp; i < l; i++ {
 				iv := rv.Index(i).Interface()
 				if err := cadd.Validate(iv); err != nil {
 					return err
-- 
2.43.0


From 0003aab4666d341222cf73d228a1a6df79920828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:11 +0000
Subject: [PATCH 02/54] fix: pass the enum members, not the list, to number
 constraints

---
 builder/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/number.go b/builder/number.go
index 6dedb57..cb455ac 100644
--- a/builder/number.go
+++ b/builder/number.go
@@ -69,7 +69,7 @@ func buildNumberConstraint(ctx *buildctx, nc *jsval.NumberConstraint, s *schema.
 	}
 
 	if lst := s.Enum; len(lst) > 0 {
-		nc.Enum(lst)
+		nc.Enum(lst...)
 	}
 
 	if v := s.Default; v != nil {
-- 
2.43.0


From b3a4e55d9359faa3a2cfc43b6d724bb82b8cbf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:50 +0000
Subject: [PATCH 03/54] fix: enforce required for properties without a declared
 constraint

---
 object.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/object.go b/object.go
index 478ffb8..913e049 100644
--- a/object.go
+++ b/object.go
@@ -370,6 +370,20 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 	o.proplock.Unlock()
 
+	// Properties that are required must be present even if no constraint
+	// has been declared for them. (Declared ones are checked below)
+	o.reqlock.Lock()
+	for pname := range o.required {
+		if _, ok := propdefs[pname]; ok {
+			continue
+		}
+		if _, ok := premain[pname]; !ok {
+			o.reqlock.Unlock()
+			return errors.New("object property '" + pname + "' is required")
+		}
+	}
+	o.reqlock.Unlock()
+
 	for pname, c := range propdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
-- 
2.43.0


From 031a8f2d6d758b5c535250454e34f829737f6248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:52 +0000
Subject: [PATCH 04/54] fix: apply every matching pattern property, not just
 the first one iterated

---
 object.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index 913e049..d1ab2b4 100644
--- a/object.go
+++ b/object.go
@@ -448,6 +448,9 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	// A property must fulfill all of the patterns that it matches, so
+	// only remove it from "premain" when all the patterns have been checked
+	pmatched := map[string]struct{}{}
 	for pat, c := range o.patternProperties {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
@@ -466,13 +469,16 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			// this from "premain"
 			pval := o.getProp(rv, pname)
 
-			delete(premain, pname)
+			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
 	}
+	for pname := range pmatched {
+		delete(premain, pname)
+	}
 
 	if len(premain) > 0 {
 		c := o.additionalProperties
-- 
2.43.0


From 105169fa0368a1b847ec8a5f3faaee9d9188ec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:53 +0000
Subject: [PATCH 05/54] fix: read pattern properties under the lock that guards
 them

---
 object.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index d1ab2b4..9cbf06f 100644
--- a/object.go
+++ b/object.go
@@ -368,6 +368,10 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	for pname, c := range o.properties {
 		propdefs[pname] = c
 	}
+	patdefs := make(map[*regexp.Regexp]Constraint)
+	for pat, c := range o.patternProperties {
+		patdefs[pat] = c
+	}
 	o.proplock.Unlock()
 
 	// Properties that are required must be present even if no constraint
@@ -451,7 +455,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	// A property must fulfill all of the patterns that it matches, so
 	// only remove it from "premain" when all the patterns have been checked
 	pmatched := map[string]struct{}{}
-	for pat, c := range o.patternProperties {
+	for pat, c := range patdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking patternProperty '%s'", pat.String())
 		}
-- 
2.43.0


From e185cc06b03481608bb9e9d7dd42d5409b490ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:55 +0000
Subject: [PATCH 06/54] fix: dependencies also apply to and count additional
 properties

---
 object.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/object.go b/object.go
index 9cbf06f..d3d0ec1 100644
--- a/object.go
+++ b/object.go
@@ -492,6 +492,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 		for pname := range premain {
 			pval := o.getProp(rv, pname)
+			pseen[pname] = struct{}{}
 			if err := c.Validate(pval.Interface()); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
-- 
2.43.0


From 02e10c8423faf54175e753b1efcd1cf567821e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:56 +0000
Subject: [PATCH 07/54] fix: check the date-time format under the name JSON
 schema uses

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 9ef1d78..e4e5803 100644
--- a/string.go
+++ b/string.go
@@ -71,7 +71,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	switch sc.format {
-	case "datetime":
+	case "datetime", "date-time":
 		if _, err = time.Parse(time.RFC3339, str); err != nil {
 			return errors.New("invalid datetime")
 		}
-- 
2.43.0


From 947e296bc02fe713d5090eef482fe237071942cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:58 +0000
Subject: [PATCH 08/54] fix: accept hexadecimal digits and embedded IPv4 in the
 ipv6 format

---
 string.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index e4e5803..5d6916e 100644
--- a/string.go
+++ b/string.go
@@ -8,6 +8,7 @@ import (
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/lestrrat-go/pdebug"
@@ -96,15 +97,17 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 			return errors.New("invalid IPv4 address")
 		}
 	case "ipv6":
-		// Should only contain numbers and ":"
+		// Should only contain hexadecimal digits, ":", and (for addresses
+		// that embed an IPv4 address) "."
 		for _, r := range str {
 			switch {
-			case r == 0x3A || 0x30 <= r && r <= 0x39:
+			case r == 0x3A || r == 0x2E || 0x30 <= r && r <= 0x39:
+			case 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F':
 			default:
 				return errors.New("invalid IPv6 address")
 			}
 		}
-		if addr := net.ParseIP(str); addr == nil {
+		if addr := net.ParseIP(str); addr == nil || !strings.Contains(str, ":") {
 			return errors.New("invalid IPv6 address")
 		}
 	case "uri":
-- 
2.43.0


From 1be667d0250c9668c735b31edeb0e8e87aa050b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:00 +0000
Subject: [PATCH 09/54] fix: measure string length in characters, not bytes

---
 string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 5d6916e..19e8f75 100644
--- a/string.go
+++ b/string.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -52,7 +53,7 @@ func (sc *StringConstraint) Validate(v interface{}) (err error) {
 	}
 
 	str := rv.String()
-	ls := len(str)
+	ls := utf8.RuneCountInString(str)
 	if sc.maxLength > -1 {
 		if pdebug.Enabled {
 			pdebug.Printf("Checking MaxLength (%d)", sc.maxLength)
-- 
2.43.0


From 66c52b53c985174c80cac8025e554c5ae15d8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:01 +0000
Subject: [PATCH 10/54] fix: a MaybeTime decoded from JSON is valid

---
 internal/cmd/genmaybe/genmaybe.go | 1 +
 maybe.go                          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 679237b..799039b 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -226,6 +226,7 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\n	return err")
 			buf.WriteString("\n}")
 			buf.WriteString("\nv.Time = t")
+			buf.WriteString("\nv.ValidFlag = true")
 			buf.WriteString("\nreturn nil")
 			buf.WriteString("\n}")
 		} else {
diff --git a/maybe.go b/maybe.go
index 6006278..dba6f43 100644
--- a/maybe.go
+++ b/maybe.go
@@ -243,6 +243,7 @@ func (v *MaybeTime) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	v.Time = t
+	v.ValidFlag = true
 	return nil
 }
 
-- 
2.43.0


From 61a0b444fae0b5ea61531aa6a80207e64da98c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:41 +0000
Subject: [PATCH 11/54] fix: honour not, allOf, anyOf and oneOf when they
 appear side by side

---
 builder/builder.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 2172597..885565b 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -165,8 +165,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 
 	ct := jsval.All()
 
-	switch {
-	case s.Not != nil:
+	// These are not mutually exclusive
+	if s.Not != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Not constraint")
 		}
@@ -175,7 +175,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			return nil, err
 		}
 		ct.Add(jsval.Not(c1))
-	case len(s.AllOf) > 0:
+	}
+	if len(s.AllOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AllOf constraint")
 		}
@@ -188,7 +189,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.AnyOf) > 0:
+	}
+	if len(s.AnyOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("AnyOf constraint")
 		}
@@ -201,7 +203,8 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			ac.Add(c1)
 		}
 		ct.Add(ac.Reduce())
-	case len(s.OneOf) > 0:
+	}
+	if len(s.OneOf) > 0 {
 		if pdebug.Enabled {
 			pdebug.Printf("OneOf constraint")
 		}
-- 
2.43.0


From d8f96663b7e0302a4ddb18eb5f9bdd4c912c6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:43 +0000
Subject: [PATCH 12/54] fix: report references that do not lead to a schema
 instead of panicking

---
 builder/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 885565b..0cb9feb 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -138,6 +138,9 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 			return err
 		}
 	}
+	if s1 == nil {
+		return errors.New("reference '" + ref + "' does not point to a schema")
+	}
 
 	c1, err := buildFromSchema(ctx, s1)
 	if err != nil {
-- 
2.43.0


From 06a5f98ec88de4e042b27bd17c0fdecfed8b0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:44 +0000
Subject: [PATCH 13/54] fix: resolve the reference # against the context
 document when one is given

---
 builder/builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/builder.go b/builder/builder.go
index 0cb9feb..6b9510a 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -82,7 +82,9 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 		return nil, err
 	}
 
-	if _, ok := ctx.R["#"]; ok {
+	// "#" is the schema itself, unless it is only a part of the document
+	// that has been given as the context
+	if _, ok := ctx.R["#"]; ok && jsctx == nil {
 		v.SetReference("#", c)
 		delete(ctx.R, "#")
 	}
-- 
2.43.0


From d47295ad4fa6a5303798de202fcc8e072133b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:46 +0000
Subject: [PATCH 14/54] fix: compare enum members without panicking on lists
 and maps

---
 enum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum.go b/enum.go
index 097fefd..7ea2065 100644
--- a/enum.go
+++ b/enum.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"errors"
+	"reflect"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -24,7 +25,7 @@ func (c *EnumConstraint) Validate(v interface{}) (err error) {
 		defer g.End()
 	}
 	for _, e := range c.enums {
-		if e == v {
+		if reflect.DeepEqual(e, v) {
 			return nil
 		}
 	}
-- 
2.43.0


From 531baa380c515e68318c76977bcfdca448b7e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:47 +0000
Subject: [PATCH 15/54] fix: enforce enum for boolean, null, array and object
 schemas

---
 bool.go            | 14 ++++++++++++++
 builder/bool.go    |  3 +++
 builder/builder.go | 14 ++++++++++++++
 interface.go       |  1 +
 4 files changed, 32 insertions(+)

diff --git a/bool.go b/bool.go
index 91ec129..8119e38 100644
--- a/bool.go
+++ b/bool.go
@@ -17,6 +17,15 @@ func (bc *BooleanConstraint) Default(v interface{}) *BooleanConstraint {
 	return bc
 }
 
+// Enum specifies the values that this constraint can have
+func (bc *BooleanConstraint) Enum(l ...interface{}) *BooleanConstraint {
+	if bc.enums == nil {
+		bc.enums = Enum()
+	}
+	bc.enums.Enum(l...)
+	return bc
+}
+
 // Validate vaidates the value against the given value
 func (bc *BooleanConstraint) Validate(v interface{}) error {
 	rv := reflect.ValueOf(v)
@@ -25,5 +34,10 @@ func (bc *BooleanConstraint) Validate(v interface{}) error {
 	default:
 		return errors.New("value is not a boolean")
 	}
+	if enum := bc.enums; enum != nil {
+		if err := enum.Validate(rv.Bool()); err != nil {
+			return err
+		}
+	}
 	return nil
 }
diff --git a/builder/bool.go b/builder/bool.go
index 42093b0..e99cd45 100644
--- a/builder/bool.go
+++ b/builder/bool.go
@@ -11,5 +11,8 @@ func buildBooleanConstraint(_ *buildctx, c *jsval.BooleanConstraint, s *schema.S
 	case bool:
 		c.Default(v.(bool))
 	}
+	if lst := s.Enum; len(lst) > 0 {
+		c.Enum(lst...)
+	}
 	return nil
 }
\ No newline at end of file
diff --git a/builder/builder.go b/builder/builder.go
index 6b9510a..66aeb09 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -282,6 +282,13 @@ func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error)
 			default:
 				return nil, errors.New("unknown type: " + st.String())
 			}
+			switch st {
+			case schema.ArrayType, schema.ObjectType, schema.NullType:
+				// These do not handle enumerations by themselves
+				if len(s.Enum) > 0 {
+					c = jsval.All().Add(jsval.Enum(s.Enum...)).Add(c)
+				}
+			}
 			tct.Add(c)
 		}
 		ct.Add(tct.Reduce())
@@ -338,6 +345,13 @@ func guessSchemaType(s *schema.Schema) schema.PrimitiveTypes {
 		sts = append(sts, schema.BooleanType)
 	}
 
+	for _, v := range s.Enum {
+		if v == nil {
+			sts = append(sts, schema.NullType)
+			break
+		}
+	}
+
 	if pdebug.Enabled {
 		pdebug.Printf("Guessed types: %#v", sts)
 	}
diff --git a/interface.go b/interface.go
index 38484a6..e44c6e8 100644
--- a/interface.go
+++ b/interface.go
@@ -55,6 +55,7 @@ type defaultValue struct {
 // a boolean.
 type BooleanConstraint struct {
 	defaultValue
+	enums *EnumConstraint
 }
 
 // StringConstraint implements a constraint to match against
-- 
2.43.0


From e025a6090a7df68a566eccc999dd0467b1cbf921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:18 +0000
Subject: [PATCH 16/54] fix: do not mistake different elements for duplicates
 in uniqueItems

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 42475c9..70a6aa6 100644
--- a/array.go
+++ b/array.go
@@ -59,7 +59,7 @@ func (c *ArrayConstraint) Validate(v interface{}) (err error) {
 		uitems = make(map[string]struct{})
 		for i := 0; i < l; i++ {
 			iv := rv.Index(i).Interface()
-			kv := fmt.Sprintf("%s", iv)
+			kv := fmt.Sprintf("%#v", iv)
 pdebug.Printf("unique? -> %s", kv)
 			if _, ok := uitems[kv]; ok {
 				return errors.New("duplicate element found")
-- 
2.43.0


From 48e8407d47c82301555bed6550a117866e3be9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:20 +0000
Subject: [PATCH 17/54] fix: MultipleOf and Enum of an integer constraint
 return the integer constraint

---
 number.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/number.go b/number.go
index 872d3c2..c7aac78 100644
--- a/number.go
+++ b/number.go
@@ -190,6 +190,19 @@ func (ic *IntegerConstraint) ExclusiveMaximum(b bool) *IntegerConstraint {
 	return ic
 }
 
+// MultipleOf specifies the number that the given value must be
+// divisible by.
+func (ic *IntegerConstraint) MultipleOf(n float64) *IntegerConstraint {
+	ic.NumberConstraint.MultipleOf(n)
+	return ic
+}
+
+// Enum specifies the values that this constraint can have
+func (ic *IntegerConstraint) Enum(l ...interface{}) *IntegerConstraint {
+	ic.NumberConstraint.Enum(l...)
+	return ic
+}
+
 // Validate validates the value against integer validation rules.
 // Note that because when Go decodes JSON it FORCES float64 on numbers,
 // this method will return true even if the *type* of the value is
-- 
2.43.0


From cb393c2c307a77fee1502e18d1d9058139502033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:21 +0000
Subject: [PATCH 18/54] fix: count the references of a constraint map under its
 lock

---
 reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index 937eb9a..100e8ba 100644
--- a/reference.go
+++ b/reference.go
@@ -21,7 +21,10 @@ type ConstraintMap struct {
 }
 
 // Len returns the number of references stored in this ConstraintMap
-func (cm ConstraintMap) Len() int {
+func (cm *ConstraintMap) Len() int {
+	cm.lock.Lock()
+	defer cm.lock.Unlock()
+
 	return len(cm.refmap())
 }
 
-- 
2.43.0


From 83a98f773254ee77a34f46259194d210b2052704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:20 +0000
Subject: [PATCH 19/54] fix: validate objects behind pointers to pointers or
 interfaces instead of panicking

---
 object.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/object.go b/object.go
index d3d0ec1..5f6a31e 100644
--- a/object.go
+++ b/object.go
@@ -334,8 +334,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 
 	rv := reflect.ValueOf(v)
-	switch rv.Kind() {
-	case reflect.Ptr, reflect.Interface:
+	for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
 
-- 
2.43.0


From 6ea2789062143dd04b8a7546a28c615fc0857a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 20/54] fix: look up properties in maps keyed by named string
 types, and do not panic on other keys

---
 object.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index 5f6a31e..ce3c548 100644
--- a/object.go
+++ b/object.go
@@ -240,7 +240,11 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 
 	switch rv.Kind() {
 	case reflect.Map:
-		rv.SetMapIndex(reflect.ValueOf(pname), reflect.ValueOf(val))
+		pv := mapKey(rv, pname)
+		if pv == zeroval {
+			return errors.New("setProp: can only handle maps with string keys")
+		}
+		rv.SetMapIndex(pv, reflect.ValueOf(val))
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
@@ -288,10 +292,27 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 	}
 }
 
+// mapKey returns the property name as a key for the given map, or zeroval
+// if the map does not take strings as keys
+func mapKey(rv reflect.Value, pname string) reflect.Value {
+	pv := reflect.ValueOf(pname)
+	switch kt := rv.Type().Key(); {
+	case pv.Type().AssignableTo(kt):
+		return pv
+	case kt.Kind() == reflect.String:
+		return pv.Convert(kt)
+	default:
+		return zeroval
+	}
+}
+
 func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value {
 	switch rv.Kind() {
 	case reflect.Map:
-		pv := reflect.ValueOf(pname)
+		pv := mapKey(rv, pname)
+		if pv == zeroval {
+			return zeroval
+		}
 		return rv.MapIndex(pv)
 	case reflect.Struct:
 		// This guy knows how to grab the value, given a name. Use that
-- 
2.43.0


From e8b9b7a167068f481b0a3532d76ba73b7fe899b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:24 +0000
Subject: [PATCH 21/54] fix: report defaults that cannot be stored instead of
 panicking

---
 object.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/object.go b/object.go
index ce3c548..3d3efe6 100644
--- a/object.go
+++ b/object.go
@@ -203,11 +203,14 @@ var (
 	maybeintT   = reflect.TypeOf(MaybeInt{})
 	intT        = reflect.TypeOf(int64(0))
 	floatT      = reflect.TypeOf(float64(0))
+	emptyif     = reflect.TypeOf((*interface{})(nil)).Elem()
 )
 
 func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 	vv := reflect.ValueOf(v)
 	switch vv.Kind() {
+	case reflect.Invalid:
+		return reflect.Zero(emptyif)
 	case reflect.Interface:
 		vv = vv.Elem()
 	}
@@ -244,7 +247,17 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		if pv == zeroval {
 			return errors.New("setProp: can only handle maps with string keys")
 		}
-		rv.SetMapIndex(pv, reflect.ValueOf(val))
+		if rv.IsNil() {
+			return errors.New("setProp: cannot set property '" + pname + "' of a nil map")
+		}
+		vv := reflect.ValueOf(val)
+		if vv == zeroval {
+			vv = reflect.Zero(emptyif)
+		}
+		if !vv.Type().AssignableTo(rv.Type().Elem()) {
+			return errors.New("setProp: cannot store " + vv.Type().String() + " in property '" + pname + "'")
+		}
+		rv.SetMapIndex(pv, vv)
 		return nil
 	case reflect.Struct:
 		spvm := rv.MethodByName("SetPropValue")
@@ -274,6 +287,9 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
 		default:
+			if !f.CanSet() || !dv.Type().AssignableTo(f.Type()) {
+				return errors.New("setProp: cannot store default value in field for '" + pname + "'")
+			}
 			f.Set(dv)
 			return nil
 		}
-- 
2.43.0


From 6c6d812bfe7c4a1f32efc8edf9e71ac60277d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:25 +0000
Subject: [PATCH 22/54] fix: treat nil Maybe pointers as absent, and call Maybe
 methods defined on the pointer

---
 object.go     | 14 ++++++++++++--
 structinfo.go | 26 +++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/object.go b/object.go
index 3d3efe6..6bdee5b 100644
--- a/object.go
+++ b/object.go
@@ -283,6 +283,12 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		var mv reflect.Value
 		switch {
 		case f.Type().Implements(maybeif):
+			if f.Kind() == reflect.Ptr && f.IsNil() && f.CanSet() {
+				f.Set(reflect.New(f.Type().Elem()))
+			}
+			if maybeReceiver(f) == zeroval {
+				return errors.New("setProp: field for '" + pname + "' is nil")
+			}
 			mv = f.MethodByName("Set")
 		case f.CanAddr() && f.Addr().Type().Implements(maybeif):
 			mv = f.Addr().MethodByName("Set")
@@ -437,12 +443,16 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 			// If we got a zeroval, we're done for.
 		case pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif):
 			// If we have a Maybe value, we check the Valid() flag
-			mv := pval.MethodByName("Valid")
+			mrv := maybeReceiver(pval)
+			if mrv == zeroval { // nil pointer
+				break
+			}
+			mv := mrv.MethodByName("Valid")
 			out := mv.Call(nil)
 			if out[0].Bool() {
 				propExists = true
 				// Swap out pval to be the value pointed to by the Maybe value
-				mv = pval.MethodByName("Value")
+				mv = mrv.MethodByName("Value")
 				out = mv.Call(nil)
 				pval = out[0]
 			}
diff --git a/structinfo.go b/structinfo.go
index e6e40dc..f69353b 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -45,7 +45,10 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 	pnames := make([]string, 0, len(si.props))
 	for pname, pinfo := range si.props {
 		if pinfo.IsMaybe {
-			fv := rv.FieldByName(pinfo.FieldName)
+			fv := maybeReceiver(rv.FieldByName(pinfo.FieldName))
+			if fv == zeroval { // nil pointer
+				continue
+			}
 			mv := fv.MethodByName("Valid")
 			out := mv.Call(nil)
 			if !out[0].Bool() {
@@ -111,6 +114,27 @@ func (r *StructInfoRegistry) Register(t reflect.Type) StructInfo {
 
 var maybeif = reflect.TypeOf((*Maybe)(nil)).Elem()
 
+// maybeReceiver returns the value that the methods of the Maybe interface
+// can be called on, given a value for which either its own type or the
+// pointer to it implements Maybe. It returns zeroval for nil pointers.
+func maybeReceiver(rv reflect.Value) reflect.Value {
+	if !rv.Type().Implements(maybeif) {
+		if rv.CanAddr() {
+			return rv.Addr()
+		}
+		pv := reflect.New(rv.Type())
+		pv.Elem().Set(rv)
+		return pv
+	}
+	if rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
+	}
+	if rv.Kind() == reflect.Ptr && rv.IsNil() {
+		return zeroval
+	}
+	return rv
+}
+
 func extract(t reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
 	for i := 0; i < t.NumField(); i++ {
-- 
2.43.0


From 726bc50b9edae2c67196904e96db31d2b8da464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:56 +0000
Subject: [PATCH 23/54] fix: unwrap Maybe values of pattern and additional
 properties too

---
 object.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/object.go b/object.go
index 6bdee5b..6a86aa0 100644
--- a/object.go
+++ b/object.go
@@ -363,6 +363,20 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 	}
 }
 
+// plainValue returns the value of a property that is known to be present
+// in the form that constraints expect. Maybe values are unwrapped
+func plainValue(pval reflect.Value) interface{} {
+	if pval == zeroval {
+		return nil
+	}
+	if pval.Type().Implements(maybeif) || reflect.PtrTo(pval.Type()).Implements(maybeif) {
+		if mrv := maybeReceiver(pval); mrv != zeroval {
+			return mrv.Interface().(Maybe).Value()
+		}
+	}
+	return pval.Interface()
+}
+
 // Validate validates the given value against this ObjectConstraint
 func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	if pdebug.Enabled {
@@ -521,7 +535,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 
 			pmatched[pname] = struct{}{}
 			pseen[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(plainValue(pval)); err != nil {
 				return errors.New("object property '" + pname + "' validation failed: " + err.Error())
 			}
 		}
@@ -539,7 +553,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		for pname := range premain {
 			pval := o.getProp(rv, pname)
 			pseen[pname] = struct{}{}
-			if err := c.Validate(pval.Interface()); err != nil {
+			if err := c.Validate(plainValue(pval)); err != nil {
 				return errors.New("object property for '" + pname + "' validation failed: " + err.Error())
 			}
 		}
-- 
2.43.0


From 9e914c468ababccb68377fb94744c57f912d8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:57 +0000
Subject: [PATCH 24/54] fix: resolve properties of embedded structs as
 encoding/json does, without panicking

---
 object.go     |  4 +--
 structinfo.go | 75 +++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/object.go b/object.go
index 6a86aa0..1db21fe 100644
--- a/object.go
+++ b/object.go
@@ -350,14 +350,14 @@ func (o *ObjectConstraint) getProp(rv reflect.Value, pname string) reflect.Value
 			si = structInfoRegistry.Register(rv.Type())
 		}
 
-		fn, ok := si.FieldName(pname)
+		_, ok = si.FieldName(pname)
 		if !ok {
 			if pdebug.Enabled {
 				pdebug.Printf("Could not resolve name '%s'", pname)
 			}
 			return zeroval
 		}
-		return rv.FieldByName(fn)
+		return si.field(rv, pname)
 	default:
 		return zeroval
 	}
diff --git a/structinfo.go b/structinfo.go
index f69353b..8efaf24 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -12,6 +12,8 @@ type PropInfo struct {
 	FieldName string
 	// IsMaybe is true if this property implements the Maybe interface
 	IsMaybe bool
+	// index locates the field, also when it comes from an embedded struct
+	index []int
 }
 
 type StructInfo struct {
@@ -35,6 +37,23 @@ func (si *StructInfo) FieldName(pname string) (string, bool) {
 	return pinfo.FieldName, true
 }
 
+// field returns the field that maps to this property, or zeroval if there
+// is none, or if it belongs to an embedded struct that is nil
+func (si *StructInfo) field(rv reflect.Value, pname string) reflect.Value {
+	si.lock.RLock()
+	defer si.lock.RUnlock()
+
+	pinfo, ok := si.props[pname]
+	if !ok {
+		return zeroval
+	}
+	fv, err := rv.FieldByIndexErr(pinfo.index)
+	if err != nil {
+		return zeroval
+	}
+	return fv
+}
+
 // Gets the list of property names for this particuar instance of a
 // struct. Uninitialized types are not considered, so we remove
 // them depending on the state of this instance of the struct
@@ -44,8 +63,12 @@ func (si *StructInfo) PropNames(rv reflect.Value) []string {
 
 	pnames := make([]string, 0, len(si.props))
 	for pname, pinfo := range si.props {
+		fv, err := rv.FieldByIndexErr(pinfo.index)
+		if err != nil { // belongs to an embedded struct that is nil
+			continue
+		}
 		if pinfo.IsMaybe {
-			fv := maybeReceiver(rv.FieldByName(pinfo.FieldName))
+			fv = maybeReceiver(fv)
 			if fv == zeroval { // nil pointer
 				continue
 			}
@@ -135,15 +158,22 @@ func maybeReceiver(rv reflect.Value) reflect.Value {
 	return rv
 }
 
-func extract(t reflect.Type) map[string]PropInfo {
+func extract(t reflect.Type, parents ...reflect.Type) map[string]PropInfo {
 	props := make(map[string]PropInfo)
+	parents = append(parents, t)
+	var embedded []map[string]PropInfo
 	for i := 0; i < t.NumField(); i++ {
 		fv := t.Field(i)
-		if fv.Anonymous {
-			info := extract(fv.Type)
+		if et, ok := embeddedStruct(fv); ok {
+			if containsType(parents, et) {
+				continue
+			}
+			info := extract(et, parents...)
 			for k, v := range info {
-				props[k] = v
+				v.index = append([]int{i}, v.index...)
+				info[k] = v
 			}
+			embedded = append(embedded, info)
 			continue
 		}
 
@@ -169,6 +199,7 @@ func extract(t reflect.Type) map[string]PropInfo {
 			props[fv.Name] = PropInfo{
 				FieldName: fv.Name,
 				IsMaybe:   isMaybe,
+				index:     fv.Index,
 			}
 			continue
 		}
@@ -183,7 +214,41 @@ func extract(t reflect.Type) map[string]PropInfo {
 		props[tag[:flen+1]] = PropInfo{
 			FieldName: fv.Name,
 			IsMaybe:   isMaybe,
+			index:     fv.Index,
+		}
+	}
+
+	// A field of the struct itself hides those of embedded structs
+	for _, info := range embedded {
+		for k, v := range info {
+			if _, ok := props[k]; !ok {
+				props[k] = v
+			}
 		}
 	}
 	return props
 }
+
+// embeddedStruct returns the struct type whose fields are properties of
+// the struct that the given field belongs to. As in encoding/json, that is
+// so for embedded structs and pointers to structs without a name of their own
+func embeddedStruct(fv reflect.StructField) (reflect.Type, bool) {
+	tag := fv.Tag.Get("json")
+	if !fv.Anonymous || (tag != "" && tag[0] != ',') {
+		return nil, false
+	}
+	t := fv.Type
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	return t, t.Kind() == reflect.Struct
+}
+
+func containsType(l []reflect.Type, t reflect.Type) bool {
+	for _, e := range l {
+		if e == t {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 632809b3a5abe7d9226d8d3c21cd4c5187396cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:18 +0000
Subject: [PATCH 25/54] fix: emit percent signs in generated code as they are

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 47d5e17..ac47b1c 100644
--- a/generator.go
+++ b/generator.go
@@ -228,7 +228,7 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 
 	s := buf.String()
 	s = strings.TrimSuffix(s, ".\n")
-	fmt.Fprintf(out, s)
+	fmt.Fprint(out, s)
 
 	return nil
 }
-- 
2.43.0


From f1b0408845fa076752dd79843bbb32d1f8fa5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:20 +0000
Subject: [PATCH 26/54] fix: generate valid code for not constraints

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index ac47b1c..12c7bb4 100644
--- a/generator.go
+++ b/generator.go
@@ -521,6 +521,6 @@ func generateNotCode(ctx *genctx, out io.Writer, c *NotConstraint) error {
 	if err := generateCode(ctx, out, c.child); err != nil {
 		return err
 	}
-	fmt.Fprint(out, "\n)")
+	fmt.Fprint(out, ",\n)")
 	return nil
 }
-- 
2.43.0


From 3c7d4c9f28ffcd4ed8dbd4b32ce22d81acf6ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:21 +0000
Subject: [PATCH 27/54] fix: report failures to write or to generate positional
 items

---
 generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 12c7bb4..4262388 100644
--- a/generator.go
+++ b/generator.go
@@ -113,8 +113,11 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		os.Stderr.Write(buf.Bytes())
 		return err
 	}
-	out.Write(fsrc)
-	return nil
+	n, err := out.Write(fsrc)
+	if err == nil && n < len(fsrc) {
+		err = io.ErrShortWrite
+	}
+	return err
 }
 
 type genctx struct {
@@ -491,6 +494,7 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 		fmt.Fprintf(out, ".\nPositionalItems([]%s.Constraint{\n", ctx.pkgname)
 		for _, ccc := range cc {
 			if err := generateCode(ctx, out, ccc); err != nil {
+				return err
 			}
 			fmt.Fprintf(out, ",\n")
 		}
-- 
2.43.0


From 84e7cc227a9ce520233819f49adebdb9c8fddeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:23 +0000
Subject: [PATCH 28/54] fix: choose the reference for a root constraint
 deterministically

---
 generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 4262388..99d0afe 100644
--- a/generator.go
+++ b/generator.go
@@ -146,7 +146,13 @@ func generateValidatorCode(ctx *genctx, out io.Writer, v *JSVal) error {
 		fmt.Fprintf(out, ".\nSetConstraintMap(%s)", cmname)
 	}
 
-	for rname, rc := range ctx.refs {
+	rnames := make([]string, 0, len(ctx.refs))
+	for rname := range ctx.refs {
+		rnames = append(rnames, rname)
+	}
+	sort.Strings(rnames)
+	for _, rname := range rnames {
+		rc := ctx.refs[rname]
 		if v.root == rc {
 			fmt.Fprintf(out, ".\nSetRoot(%s)", ctx.refnames[rname])
 			found = true
-- 
2.43.0


From 5fe3f5cf0ca8071baaac602141c20e8fab631ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:24 +0000
Subject: [PATCH 29/54] fix: keep any and oneOf constraints without children
 failing in generated code

---
 generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 99d0afe..c92082d 100644
--- a/generator.go
+++ b/generator.go
@@ -249,7 +249,7 @@ func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) e
 }
 
 func generateComboCode(ctx *genctx, out io.Writer, name string, clist []Constraint) error {
-	if len(clist) == 0 {
+	if len(clist) == 0 && name == "All" {
 		return generateEmptyCode(ctx, out, EmptyConstraint)
 	}
 	fmt.Fprintf(out, "%s.%s()", ctx.pkgname, name)
-- 
2.43.0


From fb789b1f8c722cd0aba6561f7911cfe3149a8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:58 +0000
Subject: [PATCH 30/54] fix: generate numbers without losing precision, and
 defaults without panicking

---
 generator.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index c92082d..69cfec5 100644
--- a/generator.go
+++ b/generator.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/format"
 	"io"
+	"math"
 	"os"
 	"reflect"
 	"sort"
@@ -275,11 +276,48 @@ func generateOneOfCode(ctx *genctx, out io.Writer, c *OneOfConstraint) error {
 	return generateComboCode(ctx, out, "OneOf", c.constraints)
 }
 
+// floatLiteral returns a floating point literal that stands for exactly f
+func floatLiteral(f float64) string {
+	s := strconv.FormatFloat(f, 'f', 6, 64)
+	if v, err := strconv.ParseFloat(s, 64); err != nil || v != f {
+		return strconv.FormatFloat(f, 'e', -1, 64)
+	}
+	return s
+}
+
+// integerLiteral returns an integer literal for f where there is one
+func integerLiteral(f float64) string {
+	if math.Trunc(f) == f && math.Abs(f) < 1<<53 {
+		return strconv.FormatInt(int64(f), 10)
+	}
+	return floatLiteral(f)
+}
+
+// literal returns a Go expression of the same type and value as v
+func literal(v interface{}) (string, error) {
+	rv := reflect.ValueOf(v)
+	switch v.(type) {
+	case nil:
+		return "nil", nil
+	case bool, int:
+		return fmt.Sprint(v), nil
+	case int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
+		return fmt.Sprintf("%T(%d)", v, v), nil
+	case float64:
+		if f := rv.Float(); !math.IsNaN(f) && !math.IsInf(f, 0) {
+			return floatLiteral(f), nil
+		}
+	case string:
+		return strconv.Quote(rv.String()), nil
+	}
+	return "", fmt.Errorf("failed to stringify value %#v", v)
+}
+
 func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error {
 	fmt.Fprintf(out, "%s.Integer()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%d)", int(c.minimum))
+		fmt.Fprintf(out, ".Minimum(%s)", integerLiteral(c.minimum))
 	}
 
 	if c.exclusiveMinimum {
@@ -287,7 +325,7 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%d)", int(c.maximum))
+		fmt.Fprintf(out, ".Maximum(%s)", integerLiteral(c.maximum))
 	}
 
 	if c.exclusiveMaximum {
@@ -295,7 +333,14 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%d)", int(c.DefaultValue().(float64)))
+		def, err := literal(c.DefaultValue())
+		if err != nil {
+			return err
+		}
+		if fv, ok := c.DefaultValue().(float64); ok {
+			def = integerLiteral(fv)
+		}
+		fmt.Fprintf(out, ".Default(%s)", def)
 	}
 
 	return nil
@@ -305,7 +350,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	fmt.Fprintf(out, "%s.Number()", ctx.pkgname)
 
 	if c.applyMinimum {
-		fmt.Fprintf(out, ".Minimum(%f)", c.minimum)
+		fmt.Fprintf(out, ".Minimum(%s)", floatLiteral(c.minimum))
 	}
 
 	if c.exclusiveMinimum {
@@ -313,7 +358,7 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.applyMaximum {
-		fmt.Fprintf(out, ".Maximum(%f)", c.maximum)
+		fmt.Fprintf(out, ".Maximum(%s)", floatLiteral(c.maximum))
 	}
 
 	if c.exclusiveMaximum {
@@ -321,7 +366,11 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 	}
 
 	if c.HasDefault() {
-		fmt.Fprintf(out, ".Default(%f)", c.DefaultValue())
+		def, err := literal(c.DefaultValue())
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ".Default(%s)", def)
 	}
 
 	return nil
-- 
2.43.0


From 1b6463c5b5f90e396b7c2a5fc6a325622c772009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:00 +0000
Subject: [PATCH 31/54] fix: generate multipleOf and enum of numeric
 constraints

---
 generator.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/generator.go b/generator.go
index 69cfec5..e5b9fb5 100644
--- a/generator.go
+++ b/generator.go
@@ -313,6 +313,24 @@ func literal(v interface{}) (string, error) {
 	return "", fmt.Errorf("failed to stringify value %#v", v)
 }
 
+// generateNumericKeywords generates the keywords that integers and numbers
+// have in common, besides the minimum and the maximum
+func generateNumericKeywords(ctx *genctx, out io.Writer, applyMultipleOf bool, multipleOf float64, enum *EnumConstraint) error {
+	if applyMultipleOf {
+		fmt.Fprintf(out, ".MultipleOf(%s)", floatLiteral(multipleOf))
+	}
+
+	if enum != nil {
+		fmt.Fprintf(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprintf(out, ")")
+	}
+
+	return nil
+}
+
 func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error {
 	fmt.Fprintf(out, "%s.Integer()", ctx.pkgname)
 
@@ -332,6 +350,10 @@ func generateIntegerCode(ctx *genctx, out io.Writer, c *IntegerConstraint) error
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if err := generateNumericKeywords(ctx, out, c.applyMultipleOf, c.multipleOf, c.enums); err != nil {
+		return err
+	}
+
 	if c.HasDefault() {
 		def, err := literal(c.DefaultValue())
 		if err != nil {
@@ -365,6 +387,10 @@ func generateNumberCode(ctx *genctx, out io.Writer, c *NumberConstraint) error {
 		fmt.Fprintf(out, ".ExclusiveMaximum(true)")
 	}
 
+	if err := generateNumericKeywords(ctx, out, c.applyMultipleOf, c.multipleOf, c.enums); err != nil {
+		return err
+	}
+
 	if c.HasDefault() {
 		def, err := literal(c.DefaultValue())
 		if err != nil {
-- 
2.43.0


From 15a824bfcd819c093e2d28ce1f25138f619394aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:02 +0000
Subject: [PATCH 32/54] fix: generate enumerations of every JSON type, also
 standing alone and empty

---
 generator.go | 56 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/generator.go b/generator.go
index e5b9fb5..5749baa 100644
--- a/generator.go
+++ b/generator.go
@@ -234,6 +234,14 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 		if err := generateStringCode(ctx, buf, c.(*StringConstraint)); err != nil {
 			return err
 		}
+	case *EnumConstraint:
+		fmt.Fprintf(buf, "%s.Enum(", ctx.pkgname)
+		if err := generateEnumCode(ctx, buf, c.(*EnumConstraint)); err != nil {
+			return err
+		}
+		fmt.Fprint(buf, ")")
+	default:
+		return fmt.Errorf("cannot generate code for constraint of type %T", c)
 	}
 
 	s := buf.String()
@@ -307,8 +315,33 @@ func literal(v interface{}) (string, error) {
 		if f := rv.Float(); !math.IsNaN(f) && !math.IsInf(f, 0) {
 			return floatLiteral(f), nil
 		}
+	case float32:
+		if f := rv.Float(); !math.IsNaN(f) && !math.IsInf(f, 0) {
+			return "float32(" + floatLiteral(f) + ")", nil
+		}
 	case string:
 		return strconv.Quote(rv.String()), nil
+	case []interface{}:
+		l := make([]string, rv.Len())
+		for i, e := range v.([]interface{}) {
+			s, err := literal(e)
+			if err != nil {
+				return "", err
+			}
+			l[i] = s
+		}
+		return "[]interface{}{" + strings.Join(l, ", ") + "}", nil
+	case map[string]interface{}:
+		l := make([]string, 0, rv.Len())
+		for k, e := range v.(map[string]interface{}) {
+			s, err := literal(e)
+			if err != nil {
+				return "", err
+			}
+			l = append(l, strconv.Quote(k)+": "+s)
+		}
+		sort.Strings(l)
+		return "map[string]interface{}{" + strings.Join(l, ", ") + "}", nil
 	}
 	return "", fmt.Errorf("failed to stringify value %#v", v)
 }
@@ -406,17 +439,11 @@ func generateEnumCode(ctx *genctx, out io.Writer, c *EnumConstraint) error {
 	fmt.Fprintf(out, "")
 	l := len(c.enums)
 	for i, v := range c.enums {
-		rv := reflect.ValueOf(v)
-		switch rv.Kind() {
-		case reflect.String:
-			fmt.Fprintf(out, "%s", strconv.Quote(rv.String()))
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			fmt.Fprintf(out, "%d", rv.Int())
-		case reflect.Float32, reflect.Float64:
-			fmt.Fprintf(out, "%f", rv.Float())
-		default:
-			return fmt.Errorf("failed to stringify enum value %#v", rv.Interface())
+		e, err := literal(v)
+		if err != nil {
+			return err
 		}
+		fmt.Fprint(out, e)
 		if i < l-1 {
 			fmt.Fprintf(out, ", ")
 		}
@@ -449,7 +476,7 @@ func generateStringCode(ctx *genctx, out io.Writer, c *StringConstraint) error {
 		if err := generateEnumCode(ctx, out, enum); err != nil {
 			return err
 		}
-		fmt.Fprintf(out, ",)")
+		fmt.Fprintf(out, ")")
 	}
 
 	if c.HasDefault() {
@@ -595,6 +622,13 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 
 func generateBooleanCode(ctx *genctx, out io.Writer, c *BooleanConstraint) error {
 	fmt.Fprintf(out, "%s.Boolean()", ctx.pkgname)
+	if enum := c.enums; enum != nil {
+		fmt.Fprint(out, ".Enum(")
+		if err := generateEnumCode(ctx, out, enum); err != nil {
+			return err
+		}
+		fmt.Fprint(out, ")")
+	}
 	if c.HasDefault() {
 		fmt.Fprintf(out, ".Default(%t)", c.DefaultValue())
 	}
-- 
2.43.0


From 1aa4bd4f8250ca5bcd6ba96b2626f9c0d77c89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:36 +0000
Subject: [PATCH 33/54] fix: generate minProperties, maxProperties and schema
 dependencies

---
 generator.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/generator.go b/generator.go
index 5749baa..0649bac 100644
--- a/generator.go
+++ b/generator.go
@@ -516,6 +516,13 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		fmt.Fprint(out, ")")
 	}
 
+	if c.minProperties > -1 {
+		fmt.Fprintf(out, ".\nMinProperties(%d)", c.minProperties)
+	}
+	if c.maxProperties > -1 {
+		fmt.Fprintf(out, ".\nMaxProperties(%d)", c.maxProperties)
+	}
+
 	if aprop := c.additionalProperties; aprop != nil {
 		fmt.Fprintf(out, ".\nAdditionalProperties(\n")
 		if err := generateCode(ctx, out, aprop); err != nil {
@@ -576,6 +583,22 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 		}
 	}
 
+	if m := c.schemadeps; len(m) > 0 {
+		keys := make([]string, 0, len(m))
+		for from := range m {
+			keys = append(keys, from)
+		}
+		sort.Strings(keys)
+
+		for _, from := range keys {
+			fmt.Fprintf(out, ".\nSchemaDependency(\n%s,\n", strconv.Quote(from))
+			if err := generateCode(ctx, out, m[from]); err != nil {
+				return err
+			}
+			fmt.Fprint(out, ",\n)")
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c3d8aad2c85bdfc9c097a77350bf59bffbcc6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:37 +0000
Subject: [PATCH 34/54] fix: generate code that forbids additional items

---
 generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator.go b/generator.go
index 0649bac..ca4c55e 100644
--- a/generator.go
+++ b/generator.go
@@ -619,6 +619,8 @@ func generateArrayCode(ctx *genctx, out io.Writer, c *ArrayConstraint) error {
 			return err
 		}
 		fmt.Fprintf(out, ",\n)")
+	} else {
+		fmt.Fprint(out, ".\nAdditionalItems(nil)")
 	}
 
 	if cc := c.positionalItems; len(cc) > 0 {
-- 
2.43.0


From 1998dbff5706d5c6a7aeb8da992c2c99c2ccc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:39 +0000
Subject: [PATCH 35/54] fix: generate every pattern property when patterns are
 given more than once

---
 generator.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/generator.go b/generator.go
index ca4c55e..3633041 100644
--- a/generator.go
+++ b/generator.go
@@ -552,20 +552,27 @@ func generateObjectCode(ctx *genctx, out io.Writer, c *ObjectConstraint) error {
 	// for us. It's easy to write one, but we'd have to stringify them
 	// anyways, so we might as well just create a temporary container
 	// with strings as keys
-	ppmap := make(map[string]Constraint)
+	ppmap := make(map[string][]string)
 	ppnames := make([]string, 0, len(c.patternProperties))
 	for rx, ppc := range c.patternProperties {
 		rxs := rx.String()
-		ppmap[rxs] = ppc
-		ppnames = append(ppnames, rxs)
+		ppbuf := bytes.Buffer{}
+		if err := generateCode(ctx, &ppbuf, ppc); err != nil {
+			return err
+		}
+		if _, ok := ppmap[rxs]; !ok {
+			ppnames = append(ppnames, rxs)
+		}
+		ppmap[rxs] = append(ppmap[rxs], ppbuf.String())
 	}
 	sort.Strings(ppnames)
 	for _, ppname := range ppnames {
-		fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
-		if err := generateCode(ctx, out, ppmap[ppname]); err != nil {
-			return err
+		sort.Strings(ppmap[ppname]) // there may be many for the same pattern
+		for _, code := range ppmap[ppname] {
+			fmt.Fprintf(out, ".\nPatternPropertiesString(\n%s,\n", strconv.Quote(ppname))
+			fmt.Fprint(out, code)
+			fmt.Fprint(out, ",\n)")
 		}
-		fmt.Fprint(out, ",\n)")
 	}
 
 	if m := c.propdeps; len(m) > 0 {
-- 
2.43.0


From 250a88e1bf2785dc033bb7287ee98f56533aa1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:41 +0000
Subject: [PATCH 36/54] fix: generate valid code for references that no
 validator registers

---
 generator.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 3633041..aecad5e 100644
--- a/generator.go
+++ b/generator.go
@@ -252,7 +252,16 @@ func generateCode(ctx *genctx, out io.Writer, c interface {
 }
 
 func generateReferenceCode(ctx *genctx, out io.Writer, c *ReferenceConstraint) error {
-	fmt.Fprintf(out, "%s.Reference(%s).RefersTo(%s)", ctx.pkgname, ctx.cmname, strconv.Quote(c.reference))
+	cmname := ctx.cmname
+	if cmname == "" { // no references known at all, so it cannot be resolved
+		cmname = "&" + ctx.pkgname + ".ConstraintMap{}"
+	}
+	if _, ok := ctx.refs[c.reference]; !ok {
+		if _, err := c.Resolved(); err == nil {
+			return errors.New("reference '" + c.reference + "' is not registered with any of the validators")
+		}
+	}
+	fmt.Fprintf(out, "%s.Reference(%s).RefersTo(%s)", ctx.pkgname, cmname, strconv.Quote(c.reference))
 
 	return nil
 }
-- 
2.43.0


From b9109f3c5d020075c85aaa74c1a8a9c43820c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:42 +0000
Subject: [PATCH 37/54] fix: refuse to generate code for validators that
 disagree on a reference

---
 generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator.go b/generator.go
index aecad5e..29be913 100644
--- a/generator.go
+++ b/generator.go
@@ -38,9 +38,11 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	refs := map[string]Constraint{}
 	refnames := []string{}
 	valnames := []string{}
+	refdups := map[string][]Constraint{}
 	for i, v := range validators {
 		for rname, rc := range v.refs {
 			if _, ok := refs[rname]; ok {
+				refdups[rname] = append(refdups[rname], rc)
 				continue
 			}
 			refs[rname] = rc
@@ -83,6 +85,16 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 			if err := generateCode(&ctx, &rbuf, ctx.refs[rname]); err != nil {
 				return err
 			}
+			// Validators can share a reference only if they agree on it
+			for _, rc := range refdups[rname] {
+				dupbuf := bytes.Buffer{}
+				if err := generateCode(&ctx, &dupbuf, rc); err != nil {
+					return err
+				}
+				if !bytes.Equal(rbuf.Bytes(), dupbuf.Bytes()) {
+					return errors.New("conflicting constraints for reference '" + rname + "'")
+				}
+			}
 			// Remove indentation here
 			rs := rbuf.String()
 			for i, r := range rs {
-- 
2.43.0


From ab73de1f238668bb28ffbb48dcda73fac3ec0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:44 +0000
Subject: [PATCH 38/54] fix: do not reorder the caller's list of validators

---
 generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator.go b/generator.go
index 29be913..d8a00fc 100644
--- a/generator.go
+++ b/generator.go
@@ -112,6 +112,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 
 	// Now dump the validators
+	validators = append([]*JSVal(nil), validators...)
 	sort.Sort(JSValSlice(validators))
 	for _, v := range validators {
 		fmt.Fprintf(&buf, "\n%s = ", v.Name)
-- 
2.43.0


From 14e6f6374c237320cf470ec0dc60000a889e2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:29 +0000
Subject: [PATCH 39/54] fix: schemas that only state dependencies are about
 objects

---
 builder/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/builder.go b/builder/builder.go
index 66aeb09..713aebc 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -388,6 +388,10 @@ func schemaLooksLikeObject(s *schema.Schema) bool {
 		return true
 	}
 
+	if len(s.Dependencies.Names) > 0 || len(s.Dependencies.Schemas) > 0 {
+		return true
+	}
+
 	for _, v := range s.Enum {
 		rv := reflect.ValueOf(v)
 		switch rv.Kind() {
-- 
2.43.0


From 8ba3d0d5b7d897c04fe918f62aa2f460a36bb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:30 +0000
Subject: [PATCH 40/54] fix: do not generate code from a request body that
 could not be read completely

---
 server/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index e0e96b4..a25aa90 100644
--- a/server/server.go
+++ b/server/server.go
@@ -163,7 +163,12 @@ func (s *Server) httpGenerateValidator(ctx context.Context, w http.ResponseWrite
 	resp := make(map[string]interface{})
 
 	buf := bytes.Buffer{}
-	io.Copy(&buf, r.Body)
+	if _, err := io.Copy(&buf, r.Body); err != nil {
+		resp["success"] = false
+		resp["message"] = err.Error()
+		json.NewEncoder(w).Encode(resp)
+		return
+	}
 
 	sc, err := schema.Read(bytes.NewReader(buf.Bytes()))
 	if err != nil {
-- 
2.43.0


From 294e615759dea0e5994590ad9c1462748cc3ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:01 +0000
Subject: [PATCH 41/54] fix: shallower embedded fields hide deeper ones, as in
 encoding/json

---
 structinfo.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structinfo.go b/structinfo.go
index 8efaf24..bec43ce 100644
--- a/structinfo.go
+++ b/structinfo.go
@@ -218,10 +218,11 @@ func extract(t reflect.Type, parents ...reflect.Type) map[string]PropInfo {
 		}
 	}
 
-	// A field of the struct itself hides those of embedded structs
+	// A field of the struct itself hides those of embedded structs, and so
+	// do those of embedded structs the ones embedded more deeply
 	for _, info := range embedded {
 		for k, v := range info {
-			if _, ok := props[k]; !ok {
+			if p, ok := props[k]; !ok || len(p.index) > len(v.index) {
 				props[k] = v
 			}
 		}
-- 
2.43.0


From a73e7780082e87d8cd5068be82562342a5282b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:10 +0000
Subject: [PATCH 42/54] fix: do not name the caller's validators while
 generating code

---
 generator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index d8a00fc..01b1938 100644
--- a/generator.go
+++ b/generator.go
@@ -39,6 +39,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	refnames := []string{}
 	valnames := []string{}
 	refdups := map[string][]Constraint{}
+	validators = append([]*JSVal(nil), validators...)
 	for i, v := range validators {
 		for rname, rc := range v.refs {
 			if _, ok := refs[rname]; ok {
@@ -50,7 +51,11 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		}
 
 		if v.Name == "" {
-			v.Name = fmt.Sprintf("V%d", i)
+			// The name is for this code only: leave the validator as it is
+			named := *v
+			named.Name = fmt.Sprintf("V%d", i)
+			v = &named
+			validators[i] = v
 		}
 		valnames = append(valnames, v.Name)
 	}
@@ -112,7 +117,6 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	}
 
 	// Now dump the validators
-	validators = append([]*JSVal(nil), validators...)
 	sort.Sort(JSValSlice(validators))
 	for _, v := range validators {
 		fmt.Fprintf(&buf, "\n%s = ", v.Name)
-- 
2.43.0


From 3a68d2c847e3f152132563d65d2ae9b867a9c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 43/54] fix: follow references within the document: root
 references, lists, escapes and cycles

---
 builder/builder.go | 91 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 89 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index 713aebc..afd1f9c 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -7,9 +7,13 @@ package builder
 import (
 	"errors"
 	"math"
+	"net/url"
 	"reflect"
 	"sort"
+	"strconv"
+	"strings"
 
+	"github.com/lestrrat-go/jspointer"
 	"github.com/lestrrat-go/jsref"
 	"github.com/lestrrat-go/jsschema"
 	"github.com/lestrrat-go/jsval"
@@ -84,7 +88,7 @@ func (b *Builder) BuildWithCtx(s *schema.Schema, jsctx interface{}) (v *jsval.JS
 
 	// "#" is the schema itself, unless it is only a part of the document
 	// that has been given as the context
-	if _, ok := ctx.R["#"]; ok && jsctx == nil {
+	if _, ok := ctx.R["#"]; ok && jsctx == nil && s.Reference == "" {
 		v.SetReference("#", c)
 		delete(ctx.R, "#")
 	}
@@ -121,7 +125,7 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 		pdebug.Printf("Building constraints for reference '%s'", ref)
 	}
 
-	thing, err := r.Resolve(jsctx, ref)
+	thing, err := resolveReference(r, jsctx, ref)
 	if err != nil {
 		return err
 	}
@@ -158,6 +162,89 @@ func compileReferences(ctx *buildctx, r *jsref.Resolver, v *jsval.JSVal, ref str
 	return nil
 }
 
+// resolveReference finds what a reference points to, following references
+// that point to references
+func resolveReference(r *jsref.Resolver, jsctx interface{}, ref string) (interface{}, error) {
+	seen := map[string]struct{}{}
+	for {
+		if _, ok := seen[ref]; ok {
+			return nil, errors.New("circular reference '" + ref + "'")
+		}
+		seen[ref] = struct{}{}
+
+		u, err := url.Parse(ref)
+		if err != nil {
+			return nil, err
+		}
+		if !strings.HasPrefix(ref, "#") {
+			return r.Resolve(jsctx, ref)
+		}
+
+		thing, err := evalPointer(jsctx, u.Fragment)
+		if err != nil {
+			return nil, err
+		}
+
+		switch t := thing.(type) {
+		case *schema.Schema:
+			ref = ""
+			if t != nil {
+				ref = t.Reference
+			}
+		case map[string]interface{}:
+			ref, _ = t["$ref"].(string)
+		default:
+			ref = ""
+		}
+		if ref == "" {
+			return thing, nil
+		}
+	}
+}
+
+var pointerUnescaper = strings.NewReplacer("~1", "/", "~0", "~")
+
+// evalPointer evaluates a JSON pointer within the given document, which is
+// decoded JSON data or a schema
+func evalPointer(doc interface{}, ptr string) (interface{}, error) {
+	if ptr == "" {
+		return doc, nil
+	}
+	if ptr[0] != '/' {
+		return nil, errors.New("invalid JSON pointer '" + ptr + "'")
+	}
+
+	for _, tok := range strings.Split(ptr[1:], "/") {
+		tok = pointerUnescaper.Replace(tok)
+		rv := reflect.ValueOf(doc)
+		switch {
+		case rv.Kind() == reflect.Map && rv.Type().Key().Kind() == reflect.String:
+			ev := rv.MapIndex(reflect.ValueOf(tok).Convert(rv.Type().Key()))
+			if !ev.IsValid() {
+				return nil, errors.New("nothing found at JSON pointer '" + ptr + "'")
+			}
+			doc = ev.Interface()
+		case rv.Kind() == reflect.Slice:
+			i, err := strconv.Atoi(tok)
+			if err != nil || i < 0 || i >= rv.Len() {
+				return nil, errors.New("nothing found at JSON pointer '" + ptr + "'")
+			}
+			doc = rv.Index(i).Interface()
+		case strings.Contains(tok, "/"):
+			return nil, errors.New("nothing found at JSON pointer '" + ptr + "'")
+		default:
+			p, err := jspointer.New("/" + tok)
+			if err != nil {
+				return nil, err
+			}
+			if doc, err = p.Get(doc); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return doc, nil
+}
+
 func buildFromSchema(ctx *buildctx, s *schema.Schema) (jsval.Constraint, error) {
 	if ref := s.Reference; ref != "" {
 		c := jsval.Reference(ctx.V)
-- 
2.43.0


From 156040e78b8b96296b6a691bac50804ebefcef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:36 +0000
Subject: [PATCH 44/54] fix: resolve JSON pointers with escapes in the command
 line tool

---
 cmd/jsval/jsval.go | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/cmd/jsval/jsval.go b/cmd/jsval/jsval.go
index f7876ab..0b42f32 100644
--- a/cmd/jsval/jsval.go
+++ b/cmd/jsval/jsval.go
@@ -6,9 +6,10 @@ import (
 	"io"
 	"log"
 	"os"
+	"strconv"
+	"strings"
 
 	"github.com/jessevdk/go-flags"
-	"github.com/lestrrat-go/jspointer"
 	"github.com/lestrrat-go/jsschema"
 	"github.com/lestrrat-go/jsval"
 	"github.com/lestrrat-go/jsval/builder"
@@ -90,13 +91,7 @@ func _cli() int {
 	} else {
 		for _, ptr := range ptrs {
 			log.Printf("Resolving pointer '%s'", ptr)
-			resolver, err := jspointer.New(ptr)
-			if err != nil {
-				log.Printf("%s", err)
-				return 1
-			}
-
-			resolved, err := resolver.Get(m)
+			resolved, err := resolvePointer(m, ptr)
 			if err != nil {
 				log.Printf("%s", err)
 				return 1
@@ -153,4 +148,32 @@ func _cli() int {
 	}
 
 	return 0
-}
\ No newline at end of file
+}
+
+var pointerUnescaper = strings.NewReplacer("~1", "/", "~0", "~")
+
+// resolvePointer finds what a JSON pointer points to within the document
+func resolvePointer(doc interface{}, ptr string) (interface{}, error) {
+	if ptr == "" {
+		return doc, nil
+	}
+	if ptr[0] != '/' {
+		return nil, fmt.Errorf("invalid JSON pointer '%s'", ptr)
+	}
+
+	for _, tok := range strings.Split(ptr[1:], "/") {
+		found := false
+		switch d := doc.(type) {
+		case map[string]interface{}:
+			doc, found = d[pointerUnescaper.Replace(tok)]
+		case []interface{}:
+			if i, err := strconv.Atoi(tok); err == nil && i >= 0 && i < len(d) {
+				doc, found = d[i], true
+			}
+		}
+		if !found {
+			return nil, fmt.Errorf("nothing found at JSON pointer '%s'", ptr)
+		}
+	}
+	return doc, nil
+}
-- 
2.43.0


From eb3020b509ea124936f2df67d9d6ae4baa683282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:45 +0000
Subject: [PATCH 45/54] fix: a reference that is pointed elsewhere forgets what
 it had resolved to

---
 reference.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference.go b/reference.go
index 100e8ba..abc858e 100644
--- a/reference.go
+++ b/reference.go
@@ -106,7 +106,11 @@ func (r *ReferenceConstraint) Resolved() (c Constraint, err error) {
 
 // RefersTo specifies the reference string that this constraint points to
 func (r *ReferenceConstraint) RefersTo(s string) *ReferenceConstraint {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	r.reference = s
+	r.resolved = nil
 	return r
 }
 
-- 
2.43.0


From 54a4d58e3cb45784adc45d5832f70313ab5e3a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:55 +0000
Subject: [PATCH 46/54] fix: store defaults only after schema dependencies have
 seen the object

---
 object.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/object.go b/object.go
index 1db21fe..1a063d4 100644
--- a/object.go
+++ b/object.go
@@ -444,6 +444,9 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 	}
 	o.reqlock.Unlock()
 
+	// Defaults are only stored once everything else has been checked, as
+	// schema dependencies must see the object as it was given to us
+	defaults := map[string]interface{}{}
 	for pname, c := range propdefs {
 		if pdebug.Enabled {
 			pdebug.Printf("Validating property '%s'", pname)
@@ -491,12 +494,7 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 					pdebug.Printf("object property '" + pname + "' has default")
 				}
 				// We have default
-				dv := c.DefaultValue()
-
-				if err := o.setProp(rv, pname, dv); err != nil {
-					return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
-				}
-				pval = reflect.ValueOf(dv)
+				defaults[pname] = c.DefaultValue()
 			}
 
 			continue
@@ -581,5 +579,11 @@ func (o *ObjectConstraint) Validate(v interface{}) (err error) {
 		}
 	}
 
+	for pname, dv := range defaults {
+		if err := o.setProp(rv, pname, dv); err != nil {
+			return errors.New("failed to set default value for property '" + pname + "': " + err.Error())
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From b848c92ae63a85878ce20052b245312a17ccbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 47/54] fix: looking up references does not write to an empty
 constraint map

---
 reference.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reference.go b/reference.go
index abc858e..b464801 100644
--- a/reference.go
+++ b/reference.go
@@ -25,7 +25,7 @@ func (cm *ConstraintMap) Len() int {
 	cm.lock.Lock()
 	defer cm.lock.Unlock()
 
-	return len(cm.refmap())
+	return len(cm.refs)
 }
 
 func (cm *ConstraintMap) refmap() map[string]Constraint {
@@ -49,8 +49,7 @@ func (cm *ConstraintMap) GetReference(name string) (Constraint, error) {
 	cm.lock.Lock()
 	defer cm.lock.Unlock()
 
-	refs := cm.refmap()
-	c, ok := refs[name]
+	c, ok := cm.refs[name]
 	if !ok {
 		return nil, errors.New("reference '" + name + "' not found")
 	}
-- 
2.43.0


From bed2bb17a29c8c30cace687fb941dc0ac36ff5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:32 +0000
Subject: [PATCH 48/54] fix: convert numeric defaults for unsigned and pointer
 Maybe fields too

---
 object.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/object.go b/object.go
index 1a063d4..9858312 100644
--- a/object.go
+++ b/object.go
@@ -201,7 +201,9 @@ func (o *ObjectConstraint) getPropNames(rv reflect.Value) ([]string, error) {
 var (
 	maybefloatT = reflect.TypeOf(MaybeFloat{})
 	maybeintT   = reflect.TypeOf(MaybeInt{})
+	maybeuintT  = reflect.TypeOf(MaybeUint{})
 	intT        = reflect.TypeOf(int64(0))
+	uintT       = reflect.TypeOf(uint64(0))
 	floatT      = reflect.TypeOf(float64(0))
 	emptyif     = reflect.TypeOf((*interface{})(nil)).Elem()
 )
@@ -216,11 +218,22 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 	}
 
 	// For known Maybe types, we should do our best, too
+	if t.Kind() == reflect.Ptr && t.Implements(maybeif) {
+		t = t.Elem()
+	}
 	switch {
 	case t == maybefloatT:
 		t = floatT
 	case t == maybeintT:
 		t = intT
+	case t == maybeuintT:
+		if vv.CanInt() && vv.Int() < 0 {
+			return vv
+		}
+		t = uintT
+	case reflect.PtrTo(t).Implements(maybeif):
+		// All other Maybe types know what they take
+		return vv
 	}
 
 	if vv.Type().ConvertibleTo(t) {
-- 
2.43.0


From 3838d33b92c1f15b88a85602b95eb8f539eef44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:05 +0000
Subject: [PATCH 49/54] fix: integer Maybe types refuse numbers that are not
 integers

---
 internal/cmd/genmaybe/genmaybe.go | 10 ++++++++++
 maybe.go                          |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/cmd/genmaybe/genmaybe.go b/internal/cmd/genmaybe/genmaybe.go
index 799039b..0f5f02e 100644
--- a/internal/cmd/genmaybe/genmaybe.go
+++ b/internal/cmd/genmaybe/genmaybe.go
@@ -144,6 +144,11 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nswitch x.(type) {")
 			for _, ct := range []string{"int", "int8", "int16", "int32", "float64"} {
 				fmt.Fprintf(&buf, "\ncase %s:", ct)
+				if ct == "float64" { // not all of them are integers
+					buf.WriteString("\nif float64(int64(x.(float64))) != x.(float64) {")
+					buf.WriteString("\nreturn ErrInvalidMaybeValue{Value: x}")
+					buf.WriteString("\n}")
+				}
 				fmt.Fprintf(&buf, "\nv.%s = int64(x.(%s))", t, ct)
 			}
 			buf.WriteString("\ncase int64:")
@@ -158,6 +163,11 @@ func genMaybe(types map[string]string, typenames []string, fn string) {
 			buf.WriteString("\nswitch x.(type) {")
 			for _, ct := range []string{"uint", "uint8", "uint16", "uint32", "float64"} {
 				fmt.Fprintf(&buf, "\ncase %s:", ct)
+				if ct == "float64" { // not all of them are integers
+					buf.WriteString("\nif float64(uint64(x.(float64))) != x.(float64) {")
+					buf.WriteString("\nreturn ErrInvalidMaybeValue{Value: x}")
+					buf.WriteString("\n}")
+				}
 				fmt.Fprintf(&buf, "\nv.%s = uint64(x.(%s))", t, ct)
 			}
 			buf.WriteString("\ncase uint64:")
diff --git a/maybe.go b/maybe.go
index dba6f43..1281b49 100644
--- a/maybe.go
+++ b/maybe.go
@@ -145,6 +145,9 @@ func (v *MaybeInt) Set(x interface{}) error {
 	case int32:
 		v.Int = int64(x.(int32))
 	case float64:
+		if float64(int64(x.(float64))) != x.(float64) {
+			return ErrInvalidMaybeValue{Value: x}
+		}
 		v.Int = int64(x.(float64))
 	case int64:
 		v.Int = x.(int64)
@@ -263,6 +266,9 @@ func (v *MaybeUint) Set(x interface{}) error {
 	case uint32:
 		v.Uint = uint64(x.(uint32))
 	case float64:
+		if float64(uint64(x.(float64))) != x.(float64) {
+			return ErrInvalidMaybeValue{Value: x}
+		}
 		v.Uint = uint64(x.(float64))
 	case uint64:
 		v.Uint = x.(uint64)
-- 
2.43.0


From 0a9d55c3a001ed8a61f6123ee93d7b6406af80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:10 +0000
Subject: [PATCH 50/54] fix: a default that an integer field cannot hold is an
 error

---
 object.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/object.go b/object.go
index 9858312..b55fcb4 100644
--- a/object.go
+++ b/object.go
@@ -2,6 +2,7 @@ package jsval
 
 import (
 	"errors"
+	"math"
 	"reflect"
 	"regexp"
 
@@ -224,7 +225,13 @@ func coerceValue(v interface{}, t reflect.Type) reflect.Value {
 	switch {
 	case t == maybefloatT:
 		t = floatT
+	case (t == maybeintT || t == maybeuintT) && vv.CanFloat():
+		// These only take the ones that are integers
+		t = floatT
 	case t == maybeintT:
+		if vv.CanUint() && vv.Uint() > math.MaxInt64 {
+			return vv
+		}
 		t = intT
 	case t == maybeuintT:
 		if vv.CanInt() && vv.Int() < 0 {
-- 
2.43.0


From 6613812173dfdf8d48fc1cadfdb83aeec754433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:12 +0000
Subject: [PATCH 51/54] fix: storing a nil default in a struct with
 SetPropValue panicked

---
 object.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/object.go b/object.go
index b55fcb4..b93dd92 100644
--- a/object.go
+++ b/object.go
@@ -280,13 +280,8 @@ func (o *ObjectConstraint) setProp(rv reflect.Value, pname string, val interface
 		rv.SetMapIndex(pv, vv)
 		return nil
 	case reflect.Struct:
-		spvm := rv.MethodByName("SetPropValue")
-		if spvm != zeroval {
-			out := spvm.Call([]reflect.Value{reflect.ValueOf(pname), reflect.ValueOf(val)})
-			if !out[0].IsNil() {
-				return out[0].Interface().(error)
-			}
-			return nil
+		if spv, ok := rv.Interface().(setPropValuer); ok {
+			return spv.SetPropValue(pname, val)
 		}
 
 		f := o.getProp(rv, pname)
-- 
2.43.0


From 5c81adb5fa3aec4fc1ab5d262b6c8043b179d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 52/54] fix: list indices with a sign or leading zeros are no
 valid JSON pointers

---
 builder/builder.go | 2 +-
 cmd/jsval/jsval.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/builder.go b/builder/builder.go
index afd1f9c..f02e0ce 100644
--- a/builder/builder.go
+++ b/builder/builder.go
@@ -226,7 +226,7 @@ func evalPointer(doc interface{}, ptr string) (interface{}, error) {
 			doc = ev.Interface()
 		case rv.Kind() == reflect.Slice:
 			i, err := strconv.Atoi(tok)
-			if err != nil || i < 0 || i >= rv.Len() {
+			if err != nil || tok != strconv.Itoa(i) || i < 0 || i >= rv.Len() {
 				return nil, errors.New("nothing found at JSON pointer '" + ptr + "'")
 			}
 			doc = rv.Index(i).Interface()
diff --git a/cmd/jsval/jsval.go b/cmd/jsval/jsval.go
index 0b42f32..f150d79 100644
--- a/cmd/jsval/jsval.go
+++ b/cmd/jsval/jsval.go
@@ -167,7 +167,7 @@ func resolvePointer(doc interface{}, ptr string) (interface{}, error) {
 		case map[string]interface{}:
 			doc, found = d[pointerUnescaper.Replace(tok)]
 		case []interface{}:
-			if i, err := strconv.Atoi(tok); err == nil && i >= 0 && i < len(d) {
+			if i, err := strconv.Atoi(tok); err == nil && tok == strconv.Itoa(i) && i >= 0 && i < len(d) {
 				doc, found = d[i], true
 			}
 		}
-- 
2.43.0


From 4dfb6767ce97e373764b0270a2334e3a9a0f6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 53/54] fix: generated code declared a variable twice when
 validators had names such as M, R0 or V1

---
 generator.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 01b1938..f65c906 100644
--- a/generator.go
+++ b/generator.go
@@ -40,6 +40,27 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 	valnames := []string{}
 	refdups := map[string][]Constraint{}
 	validators = append([]*JSVal(nil), validators...)
+
+	// Variables must not get the name of a validator
+	taken := map[string]struct{}{}
+	for _, v := range validators {
+		if _, ok := taken[v.Name]; ok {
+			return errors.New("more than one validator is called '" + v.Name + "'")
+		}
+		if v.Name != "" {
+			taken[v.Name] = struct{}{}
+		}
+	}
+	varname := func(s string) string {
+		for {
+			if _, ok := taken[s]; !ok {
+				taken[s] = struct{}{}
+				return s
+			}
+			s += "_"
+		}
+	}
+
 	for i, v := range validators {
 		for rname, rc := range v.refs {
 			if _, ok := refs[rname]; ok {
@@ -53,7 +74,7 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 		if v.Name == "" {
 			// The name is for this code only: leave the validator as it is
 			named := *v
-			named.Name = fmt.Sprintf("V%d", i)
+			named.Name = varname(fmt.Sprintf("V%d", i))
 			v = &named
 			validators[i] = v
 		}
@@ -67,14 +88,14 @@ func (g *Generator) Process(out io.Writer, validators ...*JSVal) error {
 
 	ctx.refs = refs
 	if len(refs) > 0 { // have refs
-		ctx.cmname = "M"
+		ctx.cmname = varname("M")
 		// sort them by reference name
 		sort.Strings(refnames)
 		fmt.Fprintf(&buf, "\nvar %s *%s.ConstraintMap", ctx.cmname, ctx.pkgname)
 
 		// Generate reference constraint names
 		for i, rname := range refnames {
-			vname := fmt.Sprintf("R%d", i)
+			vname := varname(fmt.Sprintf("R%d", i))
 			ctx.refnames[rname] = vname
 			fmt.Fprintf(&buf, "\nvar %s %s.Constraint", vname, ctx.pkgname)
 		}
-- 
2.43.0


From c31cb9bfc132cd2d77c27345a4d688dc51e90fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:16 +0000
Subject: [PATCH 54/54] fix: generated code turned nil lists and maps in
 enumerations and defaults into empty ones

---
 generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generator.go b/generator.go
index f65c906..1aec7cd 100644
--- a/generator.go
+++ b/generator.go
@@ -369,6 +369,9 @@ func literal(v interface{}) (string, error) {
 	case string:
 		return strconv.Quote(rv.String()), nil
 	case []interface{}:
+		if rv.IsNil() {
+			return "[]interface{}(nil)", nil
+		}
 		l := make([]string, rv.Len())
 		for i, e := range v.([]interface{}) {
 			s, err := literal(e)
@@ -379,6 +382,9 @@ func literal(v interface{}) (string, error) {
 		}
 		return "[]interface{}{" + strings.Join(l, ", ") + "}", nil
 	case map[string]interface{}:
+		if rv.IsNil() {
+			return "map[string]interface{}(nil)", nil
+		}
 		l := make([]string, 0, rv.Len())
 		for k, e := range v.(map[string]interface{}) {
 			s, err := literal(e)
-- 
2.43.0

