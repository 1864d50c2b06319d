From 78700ed46d250454c03c405faf67d9184f71da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:44 +0000
Subject: [PATCH 01/31] fix: do not adopt a node into its own subtree

---
 document.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ea8a555..854dce9 100644
--- a/document.go
+++ b/document.go
@@ -340,13 +340,28 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 // 	return id
 // }
 
+// contains checks if the tree rooted at id includes the node with id other.
+func (d *Document) contains(id, other uint) bool {
+	if id == other {
+		return true
+	}
+	if n := d.get(id); n != nil {
+		for i := range n.values {
+			if d.contains(n.values[i].id, other) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 	n := other.get(id)
 	if n == nil {
 		return maxUint
 	}
 	if other == d {
-		if id != to && n.info.IsRoot() && id != 0 {
+		if id != to && n.info.IsRoot() && id != 0 && !d.contains(id, to) {
 			n.info &^= infRoot
 			return id
 		}
-- 
2.43.0


From 3dfdae483ae5a9641d577a863a2e634c7791e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 02/31] fix: copied nodes are not orphans

---
 document.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 854dce9..094efaa 100644
--- a/document.go
+++ b/document.go
@@ -303,8 +303,9 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 	cp := d.grow()
 	values := cp.values[:cap(cp.values)]
 	*cp = node{
-		raw:  n.raw,
-		info: n.info,
+		raw: n.raw,
+		// A copy always has a parent
+		info: n.info &^ infRoot,
 	}
 	numV := uint(0)
 	for i := range n.values {
-- 
2.43.0


From 485d80f12334c6c1d9b697ffe39c1f351e2f866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 03/31] fix: Node.Append ignores invalid nodes

---
 node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..a6fcf2d 100644
--- a/node.go
+++ b/node.go
@@ -300,10 +300,13 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id)
+			if id < maxUint {
+				vv = append(vv, V{
+					id:  id,
+					key: "",
+				})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From dcb0c2e2ea25bd7aa83f62cb4c5c9b1fb727656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:47 +0000
Subject: [PATCH 04/31] fix: Node.Slice can keep the last element

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index a6fcf2d..dfef4a2 100644
--- a/node.go
+++ b/node.go
@@ -317,7 +317,7 @@ func (n Node) Append(values ...Node) {
 
 // Slice reslices an Array node.
 func (n Node) Slice(i, j int) {
-	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j < len(n.values) {
+	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j <= len(n.values) {
 		n.values = n.values[i:j]
 	}
 }
-- 
2.43.0


From b332af7ebe5a6a157009138c226e9887f23954ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 05/31] fix: array offsets in lookup paths do not overflow and
 are not empty

---
 document.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 094efaa..612c25e 100644
--- a/document.go
+++ b/document.go
@@ -83,8 +83,12 @@ lookup:
 					} else {
 						return maxUint
 					}
+					if i >= len(n.values) {
+						// Offset is out of bounds, stop before it overflows
+						return maxUint
+					}
 				}
-				if 0 <= i && i < len(n.values) {
+				if key != "" && 0 <= i && i < len(n.values) {
 					v = &n.values[i]
 					id = v.id
 					continue lookup
-- 
2.43.0


From 2b51766e61d8c25dbc4107bc13eabaa56c639b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 06/31] fix: ParseFloat results are correctly rounded

---
 numjson/numjson.go | 63 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..de17188 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -14,9 +14,10 @@ func ParseFloat(s string) float64 {
 		j      int
 		c      byte
 		num    uint64
-		dec    uint64
+		n      int
 		f      float64
 		signed bool
+		ok     bool
 	)
 	if len(s) > 0 {
 		if c = s[0]; c == '-' {
@@ -55,12 +56,13 @@ func ParseFloat(s string) float64 {
 	}
 	goto fallback
 decimal:
+	n = j // count of significant digits
+	j = 0 // count of decimal digits
 	if c == '.' {
-		j = 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
-				dec = 10*dec + uint64(c-'0')
+				num = num*10 + uint64(c-'0')
 				j++
 				continue
 			}
@@ -69,16 +71,12 @@ decimal:
 			}
 			return fNaN
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
-			if signed {
-				return -f
-			}
-			return f
-		}
 		if j == 0 {
 			return fNaN
 		}
+		if f, ok = exactFloat(num, n+j, -j); ok {
+			goto done
+		}
 		goto fallback
 	}
 scientific:
@@ -86,19 +84,24 @@ scientific:
 		signed := false
 		exp := 0
 		jj := 0
+		sign := false
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
 				jj++
-				exp = 10*exp + int(c-'0')
+				if exp < maxExp {
+					exp = 10*exp + int(c-'0')
+				}
 				continue
 			}
-			if jj == 0 {
+			if jj == 0 && !sign {
 				switch c {
 				case '-':
+					sign = true
 					signed = true
 					continue
 				case '+':
+					sign = true
 					continue
 				}
 			}
@@ -107,15 +110,13 @@ scientific:
 		if jj == 0 {
 			return fNaN
 		}
-		if exp > 300 {
-			goto fallback
-		}
 		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
-		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+			exp = -exp
+		}
+		if f, ok = exactFloat(num, n+j, exp-j); ok {
+			goto done
 		}
-		goto done
+		goto fallback
 	}
 	return fNaN
 done:
@@ -129,6 +130,30 @@ fallback:
 
 }
 
+const (
+	// maxDigits is the max number of decimal digits that always fit a float64 mantissa.
+	maxDigits = 15
+	// maxPow10 is the max power of 10 that is an exact float64 value.
+	maxPow10 = 22
+	// maxExp is an exponent that needs no more digits to be out of range for exactFloat.
+	maxExp = 10000
+)
+
+// exactFloat converts num * 10^exp to a float64 if both factors are exact so
+// that the result is correctly rounded.
+func exactFloat(num uint64, digits, exp int) (float64, bool) {
+	if digits > maxDigits {
+		return 0, false
+	}
+	switch {
+	case 0 <= exp && exp <= maxPow10:
+		return float64(num) * math.Pow10(exp), true
+	case -maxPow10 <= exp && exp < 0:
+		return float64(num) / math.Pow10(-exp), true
+	}
+	return 0, false
+}
+
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
 	f := ParseFloat(s)
-- 
2.43.0


From c25016768457be9d33e7d39af0701ac2d8b30905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 07/31] fix: integer conversions are exact above 2^53

---
 node.go            |  7 ++-----
 numjson/numjson.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index dfef4a2..57935ef 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index de17188..4e3cc46 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -154,14 +154,42 @@ func exactFloat(num uint64, digits, exp int) (float64, bool) {
 	return 0, false
 }
 
+// maxSafeInt is the bound for integers that always have an exact float64 value.
+const maxSafeInt = 1 << 53
+
+func isRangeError(err error) bool {
+	e, ok := err.(*strconv.NumError)
+	return ok && e.Err == strconv.ErrRange
+}
+
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
 	f := ParseFloat(s)
+	if f <= -maxSafeInt || maxSafeInt <= f {
+		// Conversion to float might have rounded the value
+		n, err := strconv.ParseInt(s, 10, 64)
+		if err == nil {
+			return n, true
+		}
+		if isRangeError(err) {
+			return n, false
+		}
+	}
 	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
 	f := ParseFloat(s)
+	if maxSafeInt <= f {
+		// Conversion to float might have rounded the value
+		n, err := strconv.ParseUint(s, 10, 64)
+		if err == nil {
+			return n, true
+		}
+		if isRangeError(err) {
+			return n, false
+		}
+	}
 	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
 }
-- 
2.43.0


From aa018037eca2472ad7d31e0f738d1240ddd820a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 08/31] fix: unescape keeps the escape following an unpaired
 surrogate

---
 strjson/unescape.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..77f3748 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -78,12 +78,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					// Valid surrogate pair, consume both
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
@@ -223,12 +225,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					// Valid surrogate pair, consume both
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
-- 
2.43.0


From 49751e42eb166485233abd53e8a355b7609a5955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 09/31] fix: WrapUnmarshalText unescapes the text

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 57935ef..a4e821c 100644
--- a/node.go
+++ b/node.go
@@ -223,7 +223,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
-- 
2.43.0


From 322130ea8616d2de1103f31adcdfda1e239bb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:49 +0000
Subject: [PATCH 10/31] fix: strings ending in an escaped backslash are
 complete

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..d23f21c 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,8 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The '\' might be escaped itself, scan from the first escape
+				for i = strings.IndexByte(s, delimEscape); 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From 962f41de0e2b4a5f5ea506652bc23311d9fb9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:59 +0000
Subject: [PATCH 11/31] fix: tag options are found after any name

---
 unjson/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/options.go b/unjson/options.go
index 1c194b2..fa0a907 100644
--- a/unjson/options.go
+++ b/unjson/options.go
@@ -90,7 +90,7 @@ func parseHints(tag string) (hints hint) {
 
 func parseTag(tag reflect.StructTag, key string) (name string, hints hint, ok bool) {
 	if name, ok = tag.Lookup(key); ok {
-		if i := strings.IndexByte(name, ','); 0 <= i && i < len(tag) {
+		if i := strings.IndexByte(name, ','); 0 <= i && i < len(name) {
 			hints = parseHints(name[i:])
 			name = name[:i]
 		}
-- 
2.43.0


From 7235afd123ce185ba8e245a993cc0fce9923aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:26 +0000
Subject: [PATCH 12/31] fix: numbers outside the range of a Go type are
 reported

---
 unjson/decode.go | 50 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..6e20131 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -408,20 +409,27 @@ func (boolDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 
 }
 
+// errRange reports a number outside the range of the type decoded into
+func errRange(fn, raw string) error {
+	return &strconv.NumError{Func: fn, Num: raw, Err: strconv.ErrRange}
+}
+
 type uintDecoder struct{}
 
 func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseUint(raw)
-		if ok {
-			v.SetUint(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseUint(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseUint(raw, 10, 64); err == nil {
-			v.SetUint(n)
+		if v.OverflowUint(n) {
+			return errRange("ParseUint", raw)
 		}
-		return
+		v.SetUint(n)
+		return nil
 	default:
 		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
@@ -436,14 +444,16 @@ func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseInt(raw)
-		if ok {
-			v.SetInt(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseInt(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseInt(raw, 10, 64); err == nil {
-			v.SetInt(n)
+		if v.OverflowInt(n) {
+			return errRange("ParseInt", raw)
 		}
-		return
+		v.SetInt(n)
+		return nil
 	default:
 		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
@@ -458,14 +468,18 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, typ := n.Data(); typ {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
-		if f == f {
-			v.SetFloat(f)
-			return nil
+		if f != f {
+			if f, err = strconv.ParseFloat(raw, 64); err != nil {
+				return
+			}
+		} else if math.IsInf(f, 0) {
+			return errRange("ParseFloat", raw)
 		}
-		if f, err = strconv.ParseFloat(raw, 64); err == nil {
-			v.SetFloat(f)
+		if v.OverflowFloat(f) {
+			return errRange("ParseFloat", raw)
 		}
-		return
+		v.SetFloat(f)
+		return nil
 	case njson.TypeNull:
 		v.SetFloat(0)
 		return nil
-- 
2.43.0


From 13da61cb454e4639810509a3558fe2645b77f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:00 +0000
Subject: [PATCH 13/31] fix: errors of array elements are reported

---
 unjson/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 6e20131..555b8a1 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -198,7 +198,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
@@ -266,7 +268,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		return n.TypeError(njson.TypeArray | njson.TypeNull)
 
 	}
-	return nil
+	return err
 }
 
 type mapDecoder struct {
-- 
2.43.0


From 059cbbf17dde8ccb96aee98cca47b5ccea4ae734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:16 +0000
Subject: [PATCH 14/31] fix: NewLineDecoder wraps readers that are not buffered

---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..21c3544 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -22,8 +22,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if br, ok := r.(*bufio.Reader); ok {
+		d.r = br
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From f110841ff7c99703674006c290cd98f2e3194623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:17 +0000
Subject: [PATCH 15/31] fix: LineDecoder keeps a last line that fills the
 buffer and has no newline

---
 unjson/stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index 21c3544..8de8cf0 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -35,7 +35,10 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 	s := strings.Builder{}
 	for {
 		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
+		if err == io.EOF && s.Len() > 0 {
+			// the last line ends with the stream and with the reader's buffer
+			isPrefix = false
+		} else if err != nil {
 			return err
 		}
 		s.Write(line)
-- 
2.43.0


From 84dad5d96c7e8465972b3590c94aaf7f2d815116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 16/31] fix: float64 values are encoded with all their digits

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From 6ab0c79ce038b153b1180ed76878631d30af82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 17/31] fix: the text of a TextMarshaler is escaped

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..da929fd 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -210,7 +210,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From 5c339aff0b72d32c1d699f4032b0b9fbc3f8a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 18/31] fix: field names are escaped

---
 unjson/codec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..7ce0094 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/alxarch/njson"
+	"github.com/alxarch/njson/strjson"
 )
 
 type structCodec struct {
@@ -74,7 +75,7 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 		b = append(b, start[more])
 		more = 1
 		b = append(b, delimString)
-		b = append(b, fc.key...)
+		b = strjson.AppendEscaped(b, fc.key, false)
 		b = append(b, delimString)
 		b = append(b, delimNameSeparator)
 		b, err = fc.encode(b, fv)
-- 
2.43.0


From 18a7cc4fe6b7bcb5174fa7c1d68d46ba5020a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 19/31] fix: a nil pointer is encoded as null

---
 unjson/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index da929fd..322f2dc 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,9 +42,12 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.IsNil() && v.Type().Elem() == m.typ {
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
 	}
-	if v.Type() != m.typ {
+	if !v.IsValid() || v.Type() != m.typ {
 		return out, errInvalidValueType
 	}
 	return m.encode(out, v)
-- 
2.43.0


From 22261877c662db8524d6a510b2b1c640ab9e39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:57 +0000
Subject: [PATCH 20/31] fix: nil pointers to types with their own encoding are
 encoded as null

---
 unjson/encode.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 322f2dc..175b13f 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -144,15 +144,31 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// isNil checks for a nil pointer or interface, which has no method to call
+func isNil(v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		return v.IsNil()
+	default:
+		return false
+	}
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	return v.Interface().(njson.Appender).AppendJSON(out)
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	b, err = v.Interface().(json.Marshaler).MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
@@ -210,6 +226,9 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
@@ -219,6 +238,16 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	return out, err
 }
 
+// textKeyEncoder encodes map keys
+type textKeyEncoder struct{ textEncoder }
+
+func (k textKeyEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if isNil(v) {
+		return append(out, delimString, delimString), nil
+	}
+	return k.textEncoder.encode(out, v)
+}
+
 type mapEncoder struct {
 	typ     reflect.Type
 	encoder encoder
@@ -233,7 +262,7 @@ func newMapEncoder(typ reflect.Type, options *Options, codecs cache) (*mapEncode
 	}
 
 	if key.Implements(typTextMarshaler) {
-		me.keys = textEncoder{}
+		me.keys = textKeyEncoder{}
 	} else if key.Kind() == reflect.String {
 		me.keys = stringEncoder(false)
 	} else {
-- 
2.43.0


From ba6cb3bf9529780e573e78c7c9a711ddc211bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 21/31] fix: a method of the pointer type is called on a
 pointer

---
 unjson/encode.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 175b13f..380f8f9 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -82,23 +82,41 @@ func newTypeEncoder(typ reflect.Type, options *Options) (*typeEncoder, error) {
 		m.typ = typ
 		typ = reflect.PtrTo(typ)
 	}
+	var method reflect.Type
 	switch {
 	case typ.Implements(typAppender):
-		m.encoder = njsonEncoder{}
+		m.encoder, method = njsonEncoder{}, typAppender
 	case typ.Implements(typJSONMarshaler):
-		m.encoder = jsonEncoder{}
+		m.encoder, method = jsonEncoder{}, typJSONMarshaler
 	case typ.Implements(typTextMarshaler):
-		m.encoder = textEncoder{}
+		m.encoder, method = textEncoder{}, typTextMarshaler
 	default:
 		e, err := newEncoder(m.typ, options, 0, cache{})
 		if err != nil {
 			return nil, err
 		}
 		m.encoder = e
+		return &m, nil
+	}
+	if !m.typ.Implements(method) {
+		// only the pointer has the method
+		m.encoder = addrEncoder{m.encoder}
 	}
 	return &m, nil
 }
 
+// addrEncoder encodes a pointer to the value
+type addrEncoder struct{ encoder }
+
+func (e addrEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if !v.CanAddr() {
+		p := reflect.New(v.Type()).Elem()
+		p.Set(v)
+		v = p
+	}
+	return e.encoder.encode(out, v.Addr())
+}
+
 func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (encoder, error) {
 	if typ == nil {
 		return nil, errInvalidType
-- 
2.43.0


From 9c391e0a6fc1d952b131e5e8011fca72042c963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 22/31] fix: a nil pointer to a type with an Omit method is
 empty

---
 unjson/omit.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 34f2fde..ad8cf80 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -86,7 +86,11 @@ func customOmiter(typ reflect.Type, methodName string) omiter {
 	if method, ok := typ.MethodByName(methodName); ok {
 		f := method.Func.Type()
 		if f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
-			return omitMethod(method.Index)
+			om := omitMethod(method.Index)
+			if typ.Kind() == reflect.Ptr {
+				return &nilOmiter{om}
+			}
+			return om
 		}
 	}
 	return nil
@@ -100,6 +104,15 @@ func (o *ptrOmiter) omit(v reflect.Value) bool {
 	return v.IsNil() || o.omiter.omit(v.Elem())
 }
 
+// nilOmiter omits a nil pointer, which has no method to call
+type nilOmiter struct {
+	omiter
+}
+
+func (o *nilOmiter) omit(v reflect.Value) bool {
+	return v.IsNil() || o.omiter.omit(v)
+}
+
 type elemOmiter struct {
 	omiter
 }
-- 
2.43.0


From 5d55097b333dd3a97fdf93a03d3addc112909845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:41 +0000
Subject: [PATCH 23/31] fix: a field hides the embedded field of the same name

---
 unjson/codec.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 7ce0094..b267afd 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -121,7 +121,8 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			}
 		}
 		// tag = string(strjson.Escape(nil, tag))
-		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
+		ff := c.Get(tag)
+		if ff != nil && cmpIndex(ff.index, index) != -1 {
 			continue
 		}
 
@@ -145,13 +146,19 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			omit = omitNever{}
 		}
 
-		c.Add(codec{
+		f := codec{
 			key:     tag,
 			index:   copyIndex(index),
 			decoder: dec,
 			encoder: enc,
 			omiter:  omit,
-		})
+		}
+		if ff != nil {
+			// one field per name
+			*ff = f
+		} else {
+			c.Add(f)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 2e44468a6ced8f51b047897517ab5a4902aa29e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:52 +0000
Subject: [PATCH 24/31] fix: struct fields with their own encoding use it

---
 unjson/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unjson/cache.go b/unjson/cache.go
index f548ea6..e0f8087 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -94,6 +94,10 @@ func cacheType(typ reflect.Type) bool {
 	}
 }
 func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder, error) {
+	if typ.Implements(typAppender) || typ.Implements(typJSONMarshaler) || typ.Implements(typTextMarshaler) {
+		// the struct codec in the cache is for decoding only
+		return newEncoder(typ, options, hints, c)
+	}
 	key := cacheKey{typ, hints}
 	if x := c[key]; x != nil {
 		if e, ok := x.(encoder); ok {
-- 
2.43.0


From 6ecd7c58dee8090bfcd42a683c797d5231fbafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 25/31] fix: an embedded pointer to a type that is no struct is
 a field

---
 unjson/codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index b267afd..de5aaa4 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -108,11 +108,13 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		if !tagged && field.Anonymous {
 			t := field.Type
 			if t.Kind() == reflect.Ptr {
-				// Flag for fieldByIndex
-				index = append(index, -1)
 				t = t.Elem()
 			}
 			if t.Kind() == reflect.Struct {
+				if t != field.Type {
+					// Flag for fieldByIndex
+					index = append(index, -1)
+				}
 				// embedded struct
 				if err := c.merge(t, options, index, codecs); err != nil {
 					return err
-- 
2.43.0


From 4106cee32548482e635c468373988a877549996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 26/31] fix: fields of an embedded nil pointer are decoded

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index de5aaa4..2a20f20 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -228,7 +228,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From 5ad117e4dbd975860e720ff93c75f445b495c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 27/31] fix: decoding into a nil map makes the map

---
 unjson/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index 555b8a1..932e685 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -308,6 +308,9 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNull:
 		return
 	case njson.TypeObject:
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
 		val := reflect.New(d.typ.Elem()).Elem()
 		iter := n.Values()
 		for iter.Next() {
-- 
2.43.0


From 4532b6cc385846b5a9c13b55352cf935305ddc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 28/31] fix: map keys are unescaped and of the key type of the
 map

---
 unjson/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 932e685..75e03be 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -319,7 +319,8 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			key := reflect.ValueOf(strjson.Unescaped(iter.Key()))
+			v.SetMapIndex(key.Convert(d.typ.Key()), val)
 		}
 		return
 	default:
-- 
2.43.0


From a7453eb4494315079ff2b092b05c18979d67ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 29/31] fix: object keys are unescaped to find the field

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 2a20f20..c2c8a94 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -214,7 +214,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 			iter  = n.Values()
 		)
 		for iter.Next() {
-			fc = c.Get(iter.Key())
+			fc = c.Get(strjson.Unescaped(iter.Key()))
 			if fc == nil {
 				continue
 			}
-- 
2.43.0


From 217eac815bdcf78742fbaefd6ef5b7250cdc04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 30/31] fix: decoding into a nil pointer is an error, not a
 panic

---
 unjson/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 75e03be..13692c8 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,7 +37,7 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
+// It reports an error if x is a nil pointer, unless the node is null.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
@@ -50,7 +50,7 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 		if n.Type() == njson.TypeNull {
 			return nil
 		}
-		v.Set(reflect.New(c.typ.Elem()))
+		return errInvalidValueType
 	}
 	return c.decode(v.Elem(), n)
 }
-- 
2.43.0


From 3de45982587a1682a9837ae5e5b3e847cddc37d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 31/31] fix: types that embed themselves

---
 unjson/codec.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index c2c8a94..337621f 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -87,10 +87,17 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 	return b, nil
 }
 
-func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache) error {
+func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache, parents []reflect.Type) error {
 	if typ == nil {
 		return nil
 	}
+	for _, t := range parents {
+		if t == typ {
+			// the fields of the outer struct hide these
+			return nil
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], typ)
 	n := typ.NumField()
 	v := reflect.New(typ).Elem()
 	depth := len(index)
@@ -116,7 +123,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 					index = append(index, -1)
 				}
 				// embedded struct
-				if err := c.merge(t, options, index, codecs); err != nil {
+				if err := c.merge(t, options, index, codecs, parents); err != nil {
 					return err
 				}
 				continue
@@ -182,7 +189,7 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 		zeroValue: reflect.Zero(typ),
 	}
 	codecs[cacheKey{typ, 0}] = &c
-	if err := c.merge(typ, options, nil, codecs); err != nil {
+	if err := c.merge(typ, options, nil, codecs, nil); err != nil {
 		return nil, err
 	}
 	return &c, nil
-- 
2.43.0

