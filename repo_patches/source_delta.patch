From 36933604bd7ed96fe59ef01c828d0b3c5d61b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 01/24] fix: compare integers and floats by exact value and
 order NaN

---
 types/value.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..edda864 100644
--- a/types/value.go
+++ b/types/value.go
@@ -98,12 +98,7 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareInt64Float64(int64(i), float64(v))
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
@@ -121,13 +116,18 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
+		return -compareInt64Float64(int64(v), float64(f))
+	case Float64Value:
+		// NaN is equal to itself and less than every other number.
+		if math.IsNaN(float64(f)) {
+			if math.IsNaN(float64(v)) {
+				return 0
+			}
 			return -1
-		} else if f > Float64Value(v) {
+		} else if math.IsNaN(float64(v)) {
 			return 1
 		}
-		return 0
-	case Float64Value:
+
 		if f < v {
 			return -1
 		} else if f > v {
@@ -138,6 +138,33 @@ func (f Float64Value) compare(val Value) int {
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
 
+// compareInt64Float64 compares by exact numeric value: converting i to a float64 would round
+// integers beyond 2^53. NaN is less than every integer.
+func compareInt64Float64(i int64, f float64) int {
+	if math.IsNaN(f) {
+		return 1
+	} else if f >= 1<<63 {
+		return -1
+	} else if f < -(1 << 63) {
+		return 1
+	}
+
+	t := int64(f)
+	if i < t {
+		return -1
+	} else if i > t {
+		return 1
+	}
+
+	// The integer part is the same; only the fraction, if any, is left.
+	if float64(t) < f {
+		return -1
+	} else if float64(t) > f {
+		return 1
+	}
+	return 0
+}
+
 type StringValue string
 
 func (s StringValue) String() string {
-- 
2.43.0


From 5c42a2a26ae805e25662763266a6985012beb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 02/24] fix: converting a float to an integer fails if the
 result does not fit

---
 types/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/value.go b/types/value.go
index edda864..825d8f3 100644
--- a/types/value.go
+++ b/types/value.go
@@ -311,6 +311,9 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			if !(f >= -(1<<63) && f < 1<<63) {
+				return nil, fmt.Errorf("expected a 64 bit integer value: %v", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From 02bf971a3fa21a4f2a432c2ddc182f3e56bbfee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 03/24] fix: do not truncate lengths when checking the size of
 strings and bytes

---
 types/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/value.go b/types/value.go
index 825d8f3..5ef9d51 100644
--- a/types/value.go
+++ b/types/value.go
@@ -355,7 +355,7 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected a string value: %v", val)
 		}
 
-		if uint32(len(s)) > ct.Size {
+		if uint64(len(s)) > uint64(ct.Size) {
 			return nil, fmt.Errorf("string value too long: %d; expected %d", len(s), ct.Size)
 		}
 	case BytesType:
@@ -364,7 +364,7 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected a bytes value: %v", val)
 		}
 
-		if uint32(len(b)) > ct.Size {
+		if uint64(len(b)) > uint64(ct.Size) {
 			return nil, fmt.Errorf("bytes value too long: %d; expected %d", len(b), ct.Size)
 		}
 	case Float64Type:
-- 
2.43.0


From 80518556e479544b9d9c04f2fb325e9af1fcf0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 04/24] fix: read identifier names under the identifier lock

---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From 09f4255cda04068ec58c7105590a90a909ba5234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 05/24] fix: encode keywords that are allowed as names as
 keywords

---
 types/identifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..6116a92 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,10 +346,11 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
-		return append([]byte{1}, []byte(id.String())...), nil
+	s := id.String()
+	if kid, ok := keywords[s]; ok && kid == id {
+		return append([]byte{1}, []byte(s)...), nil
 	}
-	return append([]byte{0}, []byte(id.String())...), nil
+	return append([]byte{0}, []byte(s)...), nil
 }
 
 func init() {
-- 
2.43.0


From a120f5c1af61d1ed4fc615663e571153cd5ac49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 06/24] fix: cut identifiers to the maximum length after lower
 casing them

---
 types/identifier.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 6116a92..3f958c0 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -284,6 +284,11 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 		s = strings.ToLower(s)
 	}
 
+	// Lower casing might have changed the length.
+	if len(s) > MaxIdentifier {
+		s = s[:MaxIdentifier]
+	}
+
 	if id, ok := identifiers[s]; ok {
 		return id, true
 	}
@@ -299,10 +304,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From 3dec452a7cf8fd10673353be4e49c7e9c2d8d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/24] fix: a NULL does not match a predicate instead of
 causing a panic

---
 storage/basic/basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..317ef41 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -348,7 +348,7 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
 				return true
 			}
 
-- 
2.43.0


From a1ab3229df320fd366655fdbd6074f52db4c8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 08/24] fix: delete the rows of a table when the table is
 dropped

---
 storage/basic/basic.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 317ef41..e180b14 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,21 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	rel := toRelationId(tid, primaryIndexId)
+	var items []item
+	tx.tree.AscendGreaterOrEqual(item{rel: rel},
+		func(it item) bool {
+			if it.rel != rel {
+				return false
+			}
+
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From dd5b90f12da6639459318b9a6df4fedff585bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 09/24] fix: insert all of the rows or none of them

---
 storage/basic/basic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index e180b14..36c4ea3 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -382,6 +382,7 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 	tbl.tx.forWrite()
 
 	rel := toRelationId(tbl.tid, primaryIndexId)
+	tree := tbl.tx.tree.Clone()
 	for _, row := range rows {
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
 		if err != nil {
@@ -389,14 +390,15 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 		}
 
 		it := rowToItem(rel, tbl.tt.Key, row)
-		if tbl.tx.tree.Has(it) {
+		if tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
 				tbl.tt.Name, row)
 		}
 
-		tbl.tx.tree.ReplaceOrInsert(it)
+		tree.ReplaceOrInsert(it)
 	}
 
+	tbl.tx.tree = tree
 	return nil
 }
 
-- 
2.43.0


From 2bff19942010e0d1cdf86bf52cd8e888b1ecf15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 10/24] fix: convert updated values to the column types

---
 storage/basic/basic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 36c4ea3..94cb46b 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -458,6 +458,10 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	for idx, col := range cols {
 		row[col] = vals[idx]
 	}
+	row, err := types.ConvertRow(rr.tbl.tt.ColumnTypes, row)
+	if err != nil {
+		return err
+	}
 
 	rr.tbl.tx.forWrite()
 
-- 
2.43.0


From 2e308e1e2a4e72ddc89410d442477caba710047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 11/24] fix: keep the row when an update fails because of a
 duplicate key

---
 storage/basic/basic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 94cb46b..3c37936 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -466,6 +466,12 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
+		it := rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row)
+		if !bytes.Equal(it.key, rr.key) && rr.tbl.tx.tree.Has(it) {
+			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
+				rr.tbl.tt.Name, row)
+		}
+
 		err := rr.Delete(ctx)
 		if err != nil {
 			return err
-- 
2.43.0


From 9b5a49d66fb8b1bb345f6ccbb5be6f27fa492aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 12/24] fix: refuse to insert a row without a value for a
 column which must not be null

---
 storage/basic/basic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 3c37936..b3cd012 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -389,6 +389,13 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 			return err
 		}
 
+		for idx, ct := range tbl.tt.ColumnTypes {
+			if ct.NotNull && row[idx] == nil {
+				return fmt.Errorf("basic: %s: missing value for column %s which must not be null",
+					tbl.tt.Name, tbl.tt.ColumnNames[idx])
+			}
+		}
+
 		it := rowToItem(rel, tbl.tt.Key, row)
 		if tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
-- 
2.43.0


From 435bc9606e2b52b61523e7d902b88cd2ea24ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 13/24] fix: set pointers to narrower types when converting a
 row to a struct

---
 engine/typedtable.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..fdf24fd 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -99,8 +99,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetBool(bool(b))
 			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetBool(bool(b))
 			}
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
@@ -110,8 +110,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetString(string(s))
 			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetString(string(s))
 			}
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
@@ -127,8 +127,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetFloat(float64(f))
 			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetFloat(float64(f))
 			}
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
@@ -138,8 +138,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetInt(int64(i))
 			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetInt(int64(i))
 			}
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
-- 
2.43.0


From 454eb7689e4bb0b97c05e7c3bad6c195a0547fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 14/24] fix: copy the bytes of bytes literals out of the
 scanner buffer

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..47480bb 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
-- 
2.43.0


From 0965dd2160ec671abf7123ec13992834d2586b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 15/24] fix: keep a minus or a slash at the end of the input

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 47480bb..07f19b3 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -142,7 +142,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
@@ -164,7 +164,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
-- 
2.43.0


From a4946a2ff04fc262c8371c964462259b8efbb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 16/24] fix: reject escapes which are not a valid character

---
 parser/scanner/scanner.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 07f19b3..0292af5 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/leftmike/maho/parser/token"
 	"github.com/leftmike/maho/types"
@@ -426,6 +427,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune || !utf8.ValidRune(rune(u)) {
+		sctx.Error = fmt.Errorf("scanner: invalid character in unicode escape: %x", u)
+		return token.Error
+	}
 	return rune(u)
 }
 
@@ -441,17 +446,22 @@ func (s *Scanner) scanOctalDigit(sctx *ScanCtx) (byte, bool) {
 }
 
 func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
-	octal := byte(r - '0')
+	octal := r - '0'
 	d, ok := s.scanOctalDigit(sctx)
 	if !ok {
 		return token.Error
 	}
-	octal = octal*8 + d
+	octal = octal*8 + rune(d)
 	d, ok = s.scanOctalDigit(sctx)
 	if !ok {
 		return token.Error
 	}
-	return rune(octal*8 + d)
+	octal = octal*8 + rune(d)
+	if octal > 0377 {
+		sctx.Error = fmt.Errorf("scanner: octal escape out of range: %o", octal)
+		return token.Error
+	}
+	return octal
 }
 
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
-- 
2.43.0


From 53c55441000e5310ab3aa368bad9de24e839f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 17/24] fix: scan the smallest integer

---
 parser/scanner/scanner.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 0292af5..7d24108 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -306,6 +306,9 @@ func (s *Scanner) scanIdentifier(sctx *ScanCtx, r rune) rune {
 
 func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 	dbl := false
+	if sign < 0 {
+		s.buffer.WriteRune('-')
+	}
 	for {
 		s.buffer.WriteRune(r)
 		r = s.readRune(sctx)
@@ -333,10 +336,8 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 		return token.Error
 	}
 	if dbl {
-		sctx.Float *= float64(sign)
 		return token.Float
 	} else {
-		sctx.Integer *= sign
 		return token.Integer
 	}
 }
-- 
2.43.0


From 741e67084ff2ee6a1438a021c6fa578b69170857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 18/24] fix: NULL is an error as the value of SET and USE

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..faf5d10 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1668,7 +1668,7 @@ func (p *Parser) parseSet() sql.Stmt {
 	}
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
@@ -1846,7 +1846,7 @@ func (p *Parser) parseUse() sql.Stmt {
 
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
-- 
2.43.0


From 416d371159d421ad6c76ab69d7f48d32b03f89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 19/24] fix: skip the rest of a rejected statement and nothing
 else

---
 parser/parser.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index faf5d10..17b2f7c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -31,17 +31,9 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
-	t, err := p.scanRune()
-	if err != nil {
-		return nil, err
-	} else if t == token.EOF {
-		return nil, io.EOF
-	}
-	p.unscan()
-
 	if p.failed {
 		for {
-			t, err = p.scanRune()
+			t, err := p.scanRune()
 			if err != nil {
 				return nil, err
 			} else if t == token.EOF {
@@ -53,6 +45,15 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 		p.failed = false
 	}
 
+	t, err := p.scanRune()
+	if err != nil {
+		p.failed = true
+		return nil, err
+	} else if t == token.EOF {
+		return nil, io.EOF
+	}
+	p.unscan()
+
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-- 
2.43.0


From 1cd798d1ad3b2fbc157fe1bec2aafc4875602436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 20/24] fix: a table definition which is too large is an error

---
 engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..fc42204 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -86,6 +86,8 @@ const (
 
 	maxReservedTableId  storage.TableId = 511
 	nextTableIdSequence                 = "next_table_id"
+
+	maxTableTypeSize = 8192 // must match tablesRow.Type
 )
 
 func NewEngine(store storage.Store) Engine {
@@ -398,6 +400,8 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	buf, err := tt.Encode()
 	if err != nil {
 		return err
+	} else if len(buf) > maxTableTypeSize {
+		return fmt.Errorf("engine: table %s: definition too large: %d", tn, len(buf))
 	}
 	tid, err := tx.nextTableId(ctx)
 	if err != nil {
-- 
2.43.0


From 3edd88e6df2a2e3f0f7c611c3c8e8453fc8b2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 21/24] fix: an empty statement ends at its own semicolon

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 17b2f7c..2ca4b63 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -246,6 +246,8 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		// An empty statement; leave its end for Parse.
+		p.unscan()
 		return nil
 	}
 
-- 
2.43.0


From 594af30e6190aded1dc0b238ec397f421196d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 22/24] fix: EXECUTE, PREPARE and DETACH are rejected, not read
 as empty statements

---
 parser/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2ca4b63..7cb4218 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -258,12 +258,9 @@ func (p *Parser) parseStmt() sql.Stmt {
 		types.COPY,
 		types.CREATE,
 		types.DELETE,
-		types.DETACH,
 		types.DROP,
-		types.EXECUTE,
 		types.EXPLAIN,
 		types.INSERT,
-		types.PREPARE,
 		types.ROLLBACK,
 		types.SELECT,
 		types.SET,
-- 
2.43.0


From 8445bf976ef3da1e9119b18a0dce791e773fae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 23/24] fix: the left operand of IN, ANY and ALL groups by
 precedence

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 7cb4218..7313cf5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1115,6 +1115,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	}
 
 	return e
-- 
2.43.0


From 2b35d0b5b2db12b4d048785d2d377f451e8f9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 24/24] fix: keep an error of the reader when the scanner puts
 it back

A rune that cannot be read was put back as whatever the reader returned with
the error, so that the error was lost and a NUL scanned in its place.
---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 7d24108..b69a6d0 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -41,6 +41,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error
 	filename    string
 	line        int
 	column      int
@@ -255,6 +256,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -264,6 +268,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0

