From 86260f058eedf77fe028abdb5f14fca5356a97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 01/54] fix: basic: drop table deletes the table's rows

---
 storage/basic/basic.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..1a017b9 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,19 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	rel := toRelationId(tid, primaryIndexId)
+	var items []item
+	tx.tree.AscendGreaterOrEqual(keyToItem(rel, nil),
+		func(it item) bool {
+			if it.rel != rel {
+				return false
+			}
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
 	return nil
 }
 
-- 
2.43.0


From f53d3bd47c0b96485c47ace6527f6b8899560020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 02/54] fix: basic: insert of a short row checks not null
 columns

---
 storage/basic/basic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 1a017b9..30316b5 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -386,6 +386,13 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 			return err
 		}
 
+		for cdx, ct := range tbl.tt.ColumnTypes {
+			if ct.NotNull && row[cdx] == nil {
+				return fmt.Errorf("basic: %s: column %s: expected a non-null value",
+					tbl.tt.Name, tbl.tt.ColumnNames[cdx])
+			}
+		}
+
 		it := rowToItem(rel, tbl.tt.Key, row)
 		if tbl.tx.tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
-- 
2.43.0


From d64685fc1c66791ea72eec2f656530992441a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 03/54] fix: basic: update converts and checks the new values

---
 storage/basic/basic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 30316b5..2c256b8 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -462,6 +462,11 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 		row[col] = vals[idx]
 	}
 
+	row, err := types.ConvertRow(rr.tbl.tt.ColumnTypes, row)
+	if err != nil {
+		return err
+	}
+
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
-- 
2.43.0


From 4d97846eebe5e5a3f4b85c27045653c392cc684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 04/54] fix: basic: a failed insert or update leaves the table
 unchanged

---
 storage/basic/basic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 2c256b8..2624dc2 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -376,9 +376,18 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 	}, nil
 }
 
-func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
+func (tbl *table) Insert(ctx context.Context, rows []types.Row) (err error) {
 	tbl.tx.forWrite()
 
+	var inserted []item
+	defer func() {
+		if err != nil {
+			for _, it := range inserted {
+				tbl.tx.tree.Delete(it)
+			}
+		}
+	}()
+
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
@@ -400,6 +409,7 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 		}
 
 		tbl.tx.tree.ReplaceOrInsert(it)
+		inserted = append(inserted, it)
 	}
 
 	return nil
@@ -476,6 +486,7 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 		}
 		err = rr.tbl.Insert(ctx, []types.Row{row})
 		if err != nil {
+			rr.tbl.tx.tree.ReplaceOrInsert(it)
 			return err
 		}
 	} else {
-- 
2.43.0


From 05caa0f854d0cfc3e177215a29a5e3bacb1c660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 05/54] fix: basic: a predicate does not match a null value

---
 storage/basic/basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 2624dc2..698cc95 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -360,7 +360,7 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
 				return true
 			}
 
-- 
2.43.0


From 6302e1babd47f123e584e8965ca788ce9ed62a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 06/54] fix: basic: do not share row memory with callers

---
 storage/basic/basic.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 698cc95..0ec1004 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -297,6 +297,17 @@ func (tbl *table) Key() []types.ColumnKey {
 	return tbl.tt.Key
 }
 
+// cloneRow makes a copy which does not share memory with row.
+func cloneRow(row types.Row) types.Row {
+	row = slices.Clone(row)
+	for cdx, val := range row {
+		if b, ok := val.(types.BytesValue); ok {
+			row[cdx] = slices.Clone(b)
+		}
+	}
+	return row
+}
+
 func predicateFunction(pred storage.Predicate, ct types.ColumnType) func(types.Value) bool {
 	switch ct.Type {
 	case types.UnknownType:
@@ -402,6 +413,7 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) (err error) {
 			}
 		}
 
+		row = cloneRow(row)
 		it := rowToItem(rel, tbl.tt.Key, row)
 		if tbl.tx.tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
@@ -430,10 +442,10 @@ func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 		for idx, col := range rs.cols {
 			row[idx] = rs.items[rs.next-1].row[col]
 		}
-		return row, nil
+		return cloneRow(row), nil
 	}
 
-	return rs.items[rs.next-1].row, nil
+	return cloneRow(rs.items[rs.next-1].row), nil
 }
 
 func (rs *rows) Current() (storage.RowRef, error) {
@@ -477,6 +489,7 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 		return err
 	}
 
+	row = cloneRow(row)
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
-- 
2.43.0


From a6d521738870274f0a77d23e16e1e1acf716f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 07/54] fix: types: decode of an encoded keyword identifier
 returns the same identifier

---
 types/identifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..9bc1d0d 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,6 +346,10 @@ func (id Identifier) GobEncode() ([]byte, error) {
 	if id.IsReserved() {
 		return append([]byte{1}, []byte(id.String())...), nil
 	}
+	if kid, ok := keywords[id.String()]; ok && kid == id {
+		// A keyword, and not a quoted identifier with the same name as the keyword.
+		return append([]byte{1}, []byte(id.String())...), nil
+	}
 	return append([]byte{0}, []byte(id.String())...), nil
 }
 
-- 
2.43.0


From 732d4bcd8d80784363c634d902af96d758fa87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 08/54] fix: types: lock names while getting the string of an
 identifier

---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9bc1d0d..992c3b7 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From e529f9befd63e933a89b2e0b0950d9673e554e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 09/54] fix: types: limit identifiers to whole characters after
 folding case

---
 types/identifier.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 992c3b7..2a3e362 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"strings"
 	"sync"
+	"unicode/utf8"
 )
 
 type Identifier int
@@ -275,6 +276,19 @@ var (
 	mutex          sync.RWMutex
 )
 
+// truncateID limits s to MaxIdentifier bytes without splitting a character.
+func truncateID(s string) string {
+	if len(s) <= MaxIdentifier {
+		return s
+	}
+
+	n := MaxIdentifier
+	for n > MaxIdentifier-utf8.UTFMax && !utf8.RuneStart(s[n]) {
+		n -= 1
+	}
+	return s[:n]
+}
+
 func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 	if !quoted {
 		if id, ok := keywords[strings.ToUpper(s)]; ok {
@@ -283,6 +297,7 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 
 		s = strings.ToLower(s)
 	}
+	s = truncateID(s)
 
 	if id, ok := identifiers[s]; ok {
 		return id, true
@@ -299,10 +314,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From 739c3b458cb1c13a9d62c70ae22e15e88b3122d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 10/54] fix: types: compare orders NaN and compares integers
 and floats exactly

---
 types/value.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..6208e09 100644
--- a/types/value.go
+++ b/types/value.go
@@ -98,16 +98,33 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareInt64Float64(i, v)
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
 
+// compareInt64Float64 compares exactly: it does not convert i to a float64. NaN is less than
+// every number.
+func compareInt64Float64(i Int64Value, f Float64Value) int {
+	if math.IsNaN(float64(f)) || f < math.MinInt64 {
+		return 1
+	} else if f >= -math.MinInt64 {
+		return -1
+	}
+
+	t := Float64Value(math.Trunc(float64(f)))
+	if i < Int64Value(t) {
+		return -1
+	} else if i > Int64Value(t) {
+		return 1
+	} else if t < f {
+		return -1
+	} else if t > f {
+		return 1
+	}
+	return 0
+}
+
 type Float64Value float64
 
 func (f Float64Value) String() string {
@@ -121,13 +138,17 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
-			return -1
-		} else if f > Float64Value(v) {
-			return 1
-		}
-		return 0
+		return -compareInt64Float64(v, f)
 	case Float64Value:
+		if math.IsNaN(float64(f)) || math.IsNaN(float64(v)) {
+			if !math.IsNaN(float64(v)) {
+				return -1
+			} else if !math.IsNaN(float64(f)) {
+				return 1
+			}
+			return 0
+		}
+
 		if f < v {
 			return -1
 		} else if f > v {
-- 
2.43.0


From bf0982311fd16e11db176213f07d325d383f08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 11/54] fix: types: cast of an out of range float to an integer
 fails

---
 types/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/value.go b/types/value.go
index 6208e09..75627cc 100644
--- a/types/value.go
+++ b/types/value.go
@@ -305,6 +305,9 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			if !(f >= math.MinInt64 && f < -math.MinInt64) {
+				return nil, fmt.Errorf("expected an integer: %v: out of range", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From f82f02010da1ede63f1b26fd1286c4061f0abea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 12/54] fix: types: the size of a character column is in
 characters

---
 engine/typedtable.go | 3 ++-
 types/value.go       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..f269208 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"reflect"
 	"slices"
+	"unicode/utf8"
 
 	"github.com/leftmike/maho/storage"
 	"github.com/leftmike/maho/types"
@@ -26,7 +27,7 @@ func fieldToValue(ct types.ColumnType, fval reflect.Value) types.Value {
 		return types.BoolValue(fval.Bool())
 	case types.StringType:
 		s := fval.String()
-		if len(s) > int(ct.Size) {
+		if utf8.RuneCountInString(s) > int(ct.Size) {
 			panic(fmt.Sprintf("typed table: bad string value: %d: %d", ct.Size, len(s)))
 		}
 		return types.StringValue(s)
diff --git a/types/value.go b/types/value.go
index 75627cc..aa3203f 100644
--- a/types/value.go
+++ b/types/value.go
@@ -349,7 +349,7 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected a string value: %v", val)
 		}
 
-		if uint32(len(s)) > ct.Size {
+		if uint64(utf8.RuneCountInString(string(s))) > uint64(ct.Size) {
 			return nil, fmt.Errorf("string value too long: %d; expected %d", len(s), ct.Size)
 		}
 	case BytesType:
-- 
2.43.0


From 94ff2eae80417ffca69862fb59d69bb0828d7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 13/54] fix: types: check the range of one byte integer columns

---
 types/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/value.go b/types/value.go
index aa3203f..e6bbc14 100644
--- a/types/value.go
+++ b/types/value.go
@@ -371,6 +371,9 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected an integer value: %v", val)
 		}
 
+		if ct.Size == 1 && (i > math.MaxInt8 || i < math.MinInt8) {
+			return nil, fmt.Errorf("expected an 8 bit integer value: %d", i)
+		}
 		if ct.Size == 2 && (i > math.MaxInt16 || i < math.MinInt16) {
 			return nil, fmt.Errorf("expected a 16 bit integer value: %d", i)
 		} else if ct.Size == 4 && (i > math.MaxInt32 || i < math.MinInt32) {
-- 
2.43.0


From 71c83c010307613fdbad6e720cbc7b0ab715fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 14/54] fix: encode: decode of a varint larger than 64 bits
 fails

---
 encode/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encode/encode.go b/encode/encode.go
index 821bca7..c72a6cc 100644
--- a/encode/encode.go
+++ b/encode/encode.go
@@ -34,6 +34,9 @@ func DecodeVarint(buf []byte) ([]byte, uint64, bool) {
 		}
 		b := uint64(buf[idx])
 		idx += 1
+		if shift == 63 && b > 1 {
+			break
+		}
 		n |= (b & 0x7F) << shift
 		if (b & 0x80) == 0 {
 			return buf[idx:], n, true
-- 
2.43.0


From 5c196dbbac9902eb8bf0f73548cf7a6dc12b9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 15/54] fix: engine: row to struct with pointers to any
 integer, float, string, or bool type

---
 engine/typedtable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index f269208..5f5587d 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -89,6 +89,13 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 				fval.SetZero()
 				continue
 			}
+			if fval.Kind() == reflect.Pointer {
+				// Set what the pointer points at; the field might not be a pointer to exactly the
+				// type of value in the row, for example, *int32.
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval = fval.Elem()
+				ct.NotNull = true
+			}
 		}
 
 		switch ct.Type {
-- 
2.43.0


From 46847a6c2dd71001e62cba3a62428f03f36f08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 16/54] fix: engine: create table with too many columns fails
 rather than panics

---
 engine/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..c9f268b 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -399,6 +399,11 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	if err != nil {
 		return err
 	}
+	for cdx, fn := range tablesTypedInfo.fldNames {
+		if max := tablesTypedInfo.colTypes[cdx].Size; fn == "Type" && len(buf) > int(max) {
+			return fmt.Errorf("engine: table %s: type too long: %d; expected %d", tn, len(buf), max)
+		}
+	}
 	tid, err := tx.nextTableId(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From 96b18377d599d9c2949b436f197f290796d731f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 17/54] fix: engine: drop of a database or schema drops what it
 contains

---
 engine/engine.go | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index c9f268b..246c0f3 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -176,8 +176,36 @@ func (eng *engine) DropDatabase(dn types.Identifier, ifExists bool) error {
 				return fmt.Errorf("engine: database not found: %s", dn)
 			}
 
-			// XXX: delete schemas and tables etc in the database
-			return nil
+			err = TypedTableDelete(ctx, tx, schemasTypedInfo,
+				&schemasRow{
+					Database: dn.String(),
+				}, nil,
+				func(row types.Row) (bool, error) {
+					var sr schemasRow
+					schemasTypedInfo.RowToStruct(row, &sr)
+
+					if sr.Database != dn.String() {
+						return false, io.EOF
+					}
+					return true, nil
+				})
+			if err != nil {
+				return err
+			}
+
+			return TypedTableDelete(ctx, tx, tablesTypedInfo,
+				&tablesRow{
+					Database: dn.String(),
+				}, nil,
+				func(row types.Row) (bool, error) {
+					var tr tablesRow
+					tablesTypedInfo.RowToStruct(row, &tr)
+
+					if tr.Database != dn.String() {
+						return false, io.EOF
+					}
+					return true, nil
+				})
 		})
 }
 
@@ -267,8 +295,20 @@ func (tx *transaction) DropSchema(ctx context.Context, sn types.SchemaName, ifEx
 		return fmt.Errorf("engine: schema not found: %s", sn)
 	}
 
-	// XXX: delete tables etc in the schema
-	return nil
+	return TypedTableDelete(ctx, tx.tx, tablesTypedInfo,
+		&tablesRow{
+			Database: sn.Database.String(),
+			Schema:   sn.Schema.String(),
+		}, nil,
+		func(row types.Row) (bool, error) {
+			var tr tablesRow
+			tablesTypedInfo.RowToStruct(row, &tr)
+
+			if tr.Database != sn.Database.String() || tr.Schema != sn.Schema.String() {
+				return false, io.EOF
+			}
+			return true, nil
+		})
 }
 
 func (tx *transaction) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier,
-- 
2.43.0


From bb538c5c3c26244720ce1c4612ee7bc132cbd32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 18/54] fix: engine: drop table and list tables

---
 engine/engine.go     | 50 +++++++++++++++++++++++++++++++++++++++++---
 evaluate/evaluate.go |  6 +++++-
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 246c0f3..f7ca926 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -459,15 +459,59 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 }
 
 func (tx *transaction) DropTable(ctx context.Context, tn types.TableName) error {
-	// XXX
+	tr := &tablesRow{
+		Database: tn.Database.String(),
+		Schema:   tn.Schema.String(),
+		Table:    tn.Table.String(),
+	}
+	var deleted bool
+	err := TypedTableDelete(ctx, tx.tx, tablesTypedInfo, tr, tr,
+		func(row types.Row) (bool, error) {
+			deleted = true
+			return true, nil
+		})
+	if err != nil {
+		return err
+	} else if !deleted {
+		return fmt.Errorf("engine: table not found: %s", tn)
+	}
 	return nil
 }
 
 func (tx *transaction) ListTables(ctx context.Context, sn types.SchemaName) ([]types.Identifier,
 	error) {
 
-	// XXX
-	return nil, nil
+	err := TypedTableLookup(ctx, tx.tx, schemasTypedInfo,
+		&schemasRow{
+			Database: sn.Database.String(),
+			Schema:   sn.Schema.String(),
+		})
+	if err == io.EOF {
+		return nil, fmt.Errorf("engine: schema not found: %s", sn)
+	} else if err != nil {
+		return nil, err
+	}
+
+	var tables []types.Identifier
+	err = TypedTableSelect(ctx, tx.tx, tablesTypedInfo,
+		&tablesRow{
+			Database: sn.Database.String(),
+			Schema:   sn.Schema.String(),
+		}, nil, func(row types.Row) error {
+			var tr tablesRow
+			tablesTypedInfo.RowToStruct(row, &tr)
+
+			if tr.Database != sn.Database.String() || tr.Schema != sn.Schema.String() {
+				return io.EOF
+			}
+
+			tables = append(tables, types.ID(tr.Table, true))
+			return nil
+		})
+	if err != nil {
+		return nil, err
+	}
+	return tables, nil
 }
 
 func (tx *transaction) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier,
diff --git a/evaluate/evaluate.go b/evaluate/evaluate.go
index 7934c1b..6b31fea 100644
--- a/evaluate/evaluate.go
+++ b/evaluate/evaluate.go
@@ -131,9 +131,13 @@ func EvaluateDropIndex(ctx context.Context, tx engine.Transaction,
 func EvaluateDropTable(ctx context.Context, tx engine.Transaction,
 	stmt *sql.DropTable) error {
 
-	// XXX: IfExists
 	// XXX: Cascade
 	for _, tn := range stmt.Tables {
+		if stmt.IfExists {
+			if _, err := tx.OpenTable(ctx, tn); err != nil {
+				continue
+			}
+		}
 		err := tx.DropTable(ctx, tn)
 		if err != nil {
 			return err
-- 
2.43.0


From 44bc36879c85bf180077ef26bd2e501786bb89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 19/54] fix: evaluate: a failed drop of more than one table
 does not drop any

---
 evaluate/evaluate.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/evaluate/evaluate.go b/evaluate/evaluate.go
index 6b31fea..87ac60d 100644
--- a/evaluate/evaluate.go
+++ b/evaluate/evaluate.go
@@ -132,6 +132,18 @@ func EvaluateDropTable(ctx context.Context, tx engine.Transaction,
 	stmt *sql.DropTable) error {
 
 	// XXX: Cascade
+	if len(stmt.Tables) > 1 && !stmt.IfExists {
+		// Drop all of the tables or none of them.
+		for tdx, tn := range stmt.Tables {
+			if slices.Contains(stmt.Tables[:tdx], tn) {
+				return fmt.Errorf("evaluate: drop table: duplicate table: %s", tn)
+			}
+			if _, err := tx.OpenTable(ctx, tn); err != nil {
+				return err
+			}
+		}
+	}
+
 	for _, tn := range stmt.Tables {
 		if stmt.IfExists {
 			if _, err := tx.OpenTable(ctx, tn); err != nil {
-- 
2.43.0


From ece3925be93c9c8f2dd272eaca3a11a8b3defe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 20/54] fix: evaluate: an unsupported statement fails rather
 than panics with a transaction open

---
 evaluate/evaluate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluate/evaluate.go b/evaluate/evaluate.go
index 87ac60d..67e7f50 100644
--- a/evaluate/evaluate.go
+++ b/evaluate/evaluate.go
@@ -38,7 +38,7 @@ func Evaluate(ctx context.Context, tx engine.Transaction, stmt sql.Stmt) error {
 		panic("evaluate: set unexpected")
 	}
 
-	panic(fmt.Sprintf("evaluate: unexpected stmt: %#v", stmt))
+	return fmt.Errorf("evaluate: unexpected stmt: %s", stmt)
 }
 
 func columnNumber(nam types.Identifier, colNames []types.Identifier) (types.ColumnNum, bool) {
-- 
2.43.0


From dca9ea1afbd15bb2fe558b0d18e4a0e7fba76dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 21/54] fix: evaluate: an empty statement does nothing

---
 evaluate/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluate/session.go b/evaluate/session.go
index 100ca78..276ced7 100644
--- a/evaluate/session.go
+++ b/evaluate/session.go
@@ -49,6 +49,10 @@ func (ses *Session) ResolveSchema(sn types.SchemaName) types.SchemaName {
 }
 
 func (ses *Session) Evaluate(ctx context.Context, stmt sql.Stmt) error {
+	if stmt == nil {
+		// An empty statement.
+		return nil
+	}
 	stmt.Resolve(ses)
 
 	switch stmt := stmt.(type) {
-- 
2.43.0


From 2abf9d726795418900f0b3b0202a32d146872ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 22/54] fix: scanner: do not reuse the memory of a bytes
 constant

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..f35e403 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = append([]byte{}, s.buffer.Bytes()...)
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = append([]byte{}, s.buffer.Bytes()...)
 	return token.Bytes
 }
-- 
2.43.0


From 093bd7fda70ca0d4d08f77acdb4d970f36ab94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 23/54] fix: parser: an empty statement does not include the
 next statement

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..6c8a7c8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -245,6 +245,7 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		p.unscan()
 		return nil
 	}
 
-- 
2.43.0


From b1dc67cfc90c05305e55b9428283727e32fb4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 24/54] fix: scanner: plus or minus following an operand is an
 operator

---
 parser/scanner/scanner.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index f35e403..cc55635 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -44,6 +44,7 @@ type Scanner struct {
 	line        int
 	column      int
 	buffer      bytes.Buffer
+	operand     bool // The previous token ends an operand; a following '+' or '-' is an operator.
 }
 
 func (pos Position) String() string {
@@ -70,6 +71,17 @@ func (s *Scanner) Scan(sctx *ScanCtx) {
 	s.buffer.Reset()
 	sctx.Filename = s.filename
 	sctx.Token = s.scan(sctx)
+
+	switch sctx.Token {
+	case token.Identifier, token.String, token.Bytes, token.Integer, token.Float, token.Parameter,
+		token.RParen:
+		s.operand = true
+	case token.Reserved:
+		s.operand = (sctx.Identifier == types.TRUE || sctx.Identifier == types.FALSE ||
+			sctx.Identifier == types.NULL)
+	default:
+		s.operand = false
+	}
 }
 
 type runeReader struct {
@@ -201,14 +213,14 @@ SkipWhitespace:
 		return s.scanNumber(sctx, r, 1)
 	} else if r == '+' {
 		r = s.readRune(sctx)
-		if unicode.IsDigit(r) {
+		if unicode.IsDigit(r) && !s.operand {
 			return s.scanNumber(sctx, r, 1)
 		}
 		s.unreadRune()
 		return '+'
 	} else if r == '-' {
 		r = s.readRune(sctx)
-		if unicode.IsDigit(r) {
+		if unicode.IsDigit(r) && !s.operand {
 			return s.scanNumber(sctx, r, -1)
 		}
 		s.unreadRune()
-- 
2.43.0


From 883da434d621be9bcc15b51115f080e3b88a0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 25/54] fix: scanner: return an operator at the end of the
 input

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index cc55635..2225959 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -154,7 +154,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
@@ -176,7 +176,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
-- 
2.43.0


From dac4cf16b31710cd2a1038d7735d2dc1dd0f4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 26/54] fix: scanner: scan the minimum integer

---
 parser/scanner/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 2225959..32d8743 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -317,6 +317,10 @@ func (s *Scanner) scanIdentifier(sctx *ScanCtx, r rune) rune {
 
 func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 	dbl := false
+	if sign < 0 {
+		// The sign must be part of what is parsed: the minimum integer has no positive.
+		s.buffer.WriteRune('-')
+	}
 	for {
 		s.buffer.WriteRune(r)
 		r = s.readRune(sctx)
@@ -344,10 +348,8 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 		return token.Error
 	}
 	if dbl {
-		sctx.Float *= float64(sign)
 		return token.Float
 	} else {
-		sctx.Integer *= sign
 		return token.Integer
 	}
 }
-- 
2.43.0


From 5eac36799394ff557db17eddc7826cafbff26e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 27/54] fix: scanner: check unicode escapes are valid
 characters

---
 parser/scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 32d8743..b39cc6e 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -440,6 +440,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune {
+		sctx.Error = fmt.Errorf("scanner: invalid unicode character: %x", u)
+		return token.Error
+	}
 	return rune(u)
 }
 
-- 
2.43.0


From b32b8cee37579e852c8622f507461768980cd59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 28/54] fix: scanner: do not skip the character following a bad
 parameter

---
 parser/scanner/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index b39cc6e..871ce42 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -253,6 +253,7 @@ SkipWhitespace:
 	} else if r == '$' {
 		r = s.readRune(sctx)
 		if !unicode.IsDigit(r) {
+			s.unreadRune()
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
 		}
-- 
2.43.0


From 84c5738e96cde3a0f408960545c8d7024a989065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 29/54] fix: scanner: a quoted identifier must not be empty

---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 871ce42..9442981 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -15,6 +15,7 @@ import (
 var (
 	errMissingQuote     = errors.New(`scanner: missing terminating "'"`)
 	errIncompleteEscape = errors.New("scanner: incomplete escape")
+	errEmptyIdentifier  = errors.New("scanner: empty quoted identifier")
 	errZeroParameter    = errors.New("scanner: zero parameter")
 )
 
@@ -400,6 +401,11 @@ func (s *Scanner) scanQuotedIdentifier(sctx *ScanCtx, delim rune) rune {
 		s.buffer.WriteRune(r)
 	}
 
+	if s.buffer.Len() == 0 {
+		sctx.Error = errEmptyIdentifier
+		return token.Error
+	}
+
 	sctx.Identifier = types.ID(s.buffer.String(), true)
 	return token.Identifier
 }
-- 
2.43.0


From 5d2964c92bc1d6c341abee7a706283d43a5f01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 30/54] fix: scanner: hex and octal escapes in a bytes constant
 are bytes

---
 parser/scanner/scanner.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 9442981..2baa8ee 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -45,6 +45,7 @@ type Scanner struct {
 	line        int
 	column      int
 	buffer      bytes.Buffer
+	rawBytes    bool // Hex and octal escapes are bytes rather than characters.
 	operand     bool // The previous token ends an operand; a following '+' or '-' is an operator.
 }
 
@@ -489,7 +490,9 @@ func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 }
 
 func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
+	s.rawBytes = true
 	r := s.scanQuotedConstant(sctx, esc)
+	s.rawBytes = false
 	if r == token.Error {
 		return token.Error
 	}
@@ -531,8 +534,10 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				break
 			}
 		}
+		var rawByte bool
 		if r == '\\' && esc {
 			r = s.readRune(sctx)
+			rawByte = s.rawBytes && (r == 'x' || (r >= '0' && r <= '7'))
 			switch r {
 			case 'a':
 				r = 7 // bell
@@ -565,6 +570,10 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				return token.Error
 			}
 		}
+		if rawByte {
+			s.buffer.WriteByte(byte(r))
+			continue
+		}
 		s.buffer.WriteRune(r)
 	}
 
-- 
2.43.0


From 639ac33df113ba4d9fb1f0ebccd7e2fe621a07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 31/54] fix: scanner: a bytes constant may start with b or B

---
 parser/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 2baa8ee..8551e1f 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -195,7 +195,7 @@ SkipWhitespace:
 			s.unreadRune()
 			return s.scanIdentifier(sctx, r)
 		}
-	} else if r == 'b' {
+	} else if r == 'b' || r == 'B' {
 		if s.readRune(sctx) == '\'' {
 			return s.scanBytes(sctx, true)
 		} else {
-- 
2.43.0


From 67a92156567ee225b49572e4af453a738c956a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 32/54] fix: parser: set and use with null does not panic

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c8a7c8..99adf68 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1675,7 +1675,7 @@ func (p *Parser) parseSet() sql.Stmt {
 	if sv, ok := l.Value.(types.StringValue); ok {
 		s.Value = string(sv)
 	} else {
-		s.Value = l.Value.String()
+		s.Value = types.FormatValue(l.Value)
 	}
 
 	return &s
@@ -1853,7 +1853,7 @@ func (p *Parser) parseUse() sql.Stmt {
 	if sv, ok := l.Value.(types.StringValue); ok {
 		s.Value = string(sv)
 	} else {
-		s.Value = l.Value.String()
+		s.Value = types.FormatValue(l.Value)
 	}
 
 	return &s
-- 
2.43.0


From 03d679691f37fb13ec0f84e10b56c3056f4a4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 33/54] fix: sql: formatting of default, from, having, and
 options

---
 parser/sql/datadef.go | 22 ++++++++++++++++++----
 parser/sql/query.go   | 18 ++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/parser/sql/datadef.go b/parser/sql/datadef.go
index aa3aed1..4a15846 100644
--- a/parser/sql/datadef.go
+++ b/parser/sql/datadef.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/leftmike/maho/types"
@@ -219,13 +220,26 @@ type CreateDatabase struct {
 	Options  map[types.Identifier]string
 }
 
+// sortedOptions returns the options in name order, so that they are always formatted the same.
+func sortedOptions(options map[types.Identifier]string) []types.Identifier {
+	var opts []types.Identifier
+	for opt := range options {
+		opts = append(opts, opt)
+	}
+	sort.Slice(opts,
+		func(i, j int) bool {
+			return opts[i].String() < opts[j].String()
+		})
+	return opts
+}
+
 func (stmt *CreateDatabase) String() string {
 	var buf strings.Builder
 	fmt.Fprintf(&buf, "CREATE DATABASE %s", stmt.Database)
 	if len(stmt.Options) > 0 {
 		buf.WriteString(" WITH")
-		for opt, val := range stmt.Options {
-			fmt.Fprintf(&buf, " %s = %s", opt, val)
+		for _, opt := range sortedOptions(stmt.Options) {
+			fmt.Fprintf(&buf, " %s = %s", opt, stmt.Options[opt])
 		}
 	}
 	return buf.String()
@@ -358,8 +372,8 @@ func (stmt *DropDatabase) String() string {
 	buf.WriteString(stmt.Database.String())
 	if len(stmt.Options) > 0 {
 		buf.WriteString(" WITH")
-		for opt, val := range stmt.Options {
-			fmt.Fprintf(&buf, " %s = %s", opt, val)
+		for _, opt := range sortedOptions(stmt.Options) {
+			fmt.Fprintf(&buf, " %s = %s", opt, stmt.Options[opt])
 		}
 	}
 	return buf.String()
diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..7f1138f 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,6 +138,10 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
+			if v == nil {
+				buf.WriteString("DEFAULT")
+				continue
+			}
 			buf.WriteString(v.String())
 		}
 
@@ -169,6 +173,10 @@ func (stmt *Update) String() string {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
+		if cu.Expr == nil {
+			fmt.Fprintf(&buf, "%s = DEFAULT", cu.Column)
+			continue
+		}
 		fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
 	}
 	if stmt.Where != nil {
@@ -260,7 +268,9 @@ func (stmt *Select) String() string {
 			buf.WriteString(sr.String())
 		}
 	}
-	fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	if stmt.From != nil {
+		fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
 	}
@@ -272,9 +282,9 @@ func (stmt *Select) String() string {
 			}
 			buf.WriteString(e.String())
 		}
-		if stmt.Having != nil {
-			buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
-		}
+	}
+	if stmt.Having != nil {
+		buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
 	}
 	if stmt.OrderBy != nil {
 		buf.WriteString(" ORDER BY ")
-- 
2.43.0


From 510a0213a7b5123572c8280f860e77b0decf3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 34/54] fix: parser: an operator may follow is null, in, any,
 some, and all

---
 parser/parser.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 99adf68..0aaad98 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1167,6 +1167,16 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 	return 0, false, false
 }
 
+// optionalBinaryExpr parses a binary operator and the rest of the expression, if there are any,
+// following IS NULL, IN, ANY, SOME, or ALL.
+func (p *Parser) optionalBinaryExpr(e sql.Expr) sql.Expr {
+	op, ok, _ := p.optionalBinaryOp()
+	if !ok {
+		return e
+	}
+	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
+}
+
 func (p *Parser) parseSubExpr() sql.Expr {
 	var e sql.Expr
 	r := p.scan()
@@ -1246,12 +1256,12 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		if p.optionalReserved(types.IN, types.NOT, types.IS) {
 			switch p.sctx.Identifier {
 			case types.IN:
-				return &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
-					Stmt: p.parseSubquery()}
+				return p.optionalBinaryExpr(&sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
+					Stmt: p.parseSubquery()})
 			case types.NOT:
 				if p.optionalReserved(types.IN) {
-					return &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
-						Stmt: p.parseSubquery()}
+					return p.optionalBinaryExpr(&sql.Subquery{Op: sql.All,
+						ExprOp: sql.NotEqualOp, Expr: e, Stmt: p.parseSubquery()})
 				}
 				p.unscan()
 			case types.IS:
@@ -1263,9 +1273,9 @@ func (p *Parser) parseSubExpr() sql.Expr {
 
 				e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
 				if not {
-					return &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+					e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
 				}
-				return e
+				return p.optionalBinaryExpr(e)
 			}
 		}
 
@@ -1282,7 +1292,8 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		} else {
 			subqueryOp = sql.Any
 		}
-		return &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
+		return p.optionalBinaryExpr(
+			&sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()})
 	}
 
 	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
-- 
2.43.0


From ec3ed6ca0a836bfb3e01b538055284769f6d733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 35/54] fix: parser: precedence of operators before in, any,
 some, and all

---
 parser/parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0aaad98..f0c02b7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1089,6 +1089,15 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 			return e
 		}
 
+		// - {2 IN (...)} --> {- 2} IN (...)
+		if sq, ok := e.Expr.(*sql.Subquery); ok && sq.Expr != nil &&
+			opPrecedence[sq.ExprOp] < opPrecedence[e.Op] {
+
+			e.Expr = sq.Expr
+			sq.Expr = e
+			return adjustPrecedence(sq)
+		}
+
 		// - {2 * 3}  --> {- 2} * 3
 		if be, ok := e.Expr.(*sql.BinaryExpr); ok && opPrecedence[be.Op] < opPrecedence[e.Op] {
 			e.Expr = be.Left
@@ -1099,6 +1108,15 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		e.Left = adjustPrecedence(e.Left)
 		e.Right = adjustPrecedence(e.Right)
 
+		// 1 + {2 IN (...)} --> {1 + 2} IN (...)
+		if sq, ok := e.Right.(*sql.Subquery); ok && sq.Expr != nil &&
+			opPrecedence[sq.ExprOp] <= opPrecedence[e.Op] {
+
+			e.Right = sq.Expr
+			sq.Expr = e
+			return adjustPrecedence(sq)
+		}
+
 		// 1 * {2 + 3} --> {1 * 2} + 3
 		if be, ok := e.Right.(*sql.BinaryExpr); ok && opPrecedence[be.Op] <= opPrecedence[e.Op] {
 			e.Right = be.Left
@@ -1112,6 +1130,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 			be.Right = e
 			return adjustPrecedence(be)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	case *sql.SExpr:
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
-- 
2.43.0


From 5aba971c4ac8932e391796af4a4aefb7cf088697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 36/54] fix: scanner: position of a minus, a slash, or an end
 of statement

---
 parser/scanner/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 8551e1f..39c6025 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -138,6 +138,9 @@ SkipWhitespace:
 		r = s.readRune(sctx)
 	}
 
+	sctx.Column = s.column
+	sctx.Line = s.line
+
 	if r == ';' {
 		return token.EndOfStatement
 	}
@@ -185,9 +188,6 @@ SkipWhitespace:
 		}
 	}
 
-	sctx.Column = s.column
-	sctx.Line = s.line
-
 	if r == 'e' || r == 'E' {
 		if s.readRune(sctx) == '\'' {
 			return s.scanString(sctx, true)
-- 
2.43.0


From ff74ab652abdbc8344814971c0d7a5a800cc37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 37/54] fix: scanner: keep a read error which is unread

---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 39c6025..b071e73 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -41,6 +41,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error // Set when read is token.Error.
 	filename    string
 	line        int
 	column      int
@@ -269,6 +270,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -278,6 +282,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0


From 560a87d57a512391eaa7d9e23892d8307bef8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 38/54] fix: scanner: position of the end of the input

---
 parser/scanner/scanner.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index b071e73..7f8f99e 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -128,20 +128,17 @@ func (s *Scanner) scan(sctx *ScanCtx) rune {
 SkipWhitespace:
 	r := s.readRune(sctx)
 
-	for {
-		if r < 0 {
-			return r
-		}
-		if !unicode.IsSpace(r) {
-			break
-		}
-
+	for unicode.IsSpace(r) {
 		r = s.readRune(sctx)
 	}
 
 	sctx.Column = s.column
 	sctx.Line = s.line
 
+	if r < 0 {
+		return r
+	}
+
 	if r == ';' {
 		return token.EndOfStatement
 	}
-- 
2.43.0


From 079750600985139e93b28c7cb38bf6166765002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 39/54] fix: parser: one error for a bad statement which starts
 with a bad token or is last

---
 parser/parser.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f0c02b7..e5bdbba 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -31,28 +31,27 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
+	for p.failed {
+		// Skip the rest of the statement which failed.
+		t, err := p.scanRune()
+		if err != nil {
+			return nil, err
+		} else if t == token.EOF {
+			return nil, io.EOF
+		} else if t == token.EndOfStatement {
+			p.failed = false
+		}
+	}
+
 	t, err := p.scanRune()
 	if err != nil {
+		p.failed = true
 		return nil, err
 	} else if t == token.EOF {
 		return nil, io.EOF
 	}
 	p.unscan()
 
-	if p.failed {
-		for {
-			t, err = p.scanRune()
-			if err != nil {
-				return nil, err
-			} else if t == token.EOF {
-				return nil, io.EOF
-			} else if t == token.EndOfStatement {
-				break
-			}
-		}
-		p.failed = false
-	}
-
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-- 
2.43.0


From 803913126345d773f5aa52104ab3db5f30a7286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 40/54] fix: scanner: a block comment may follow an operator

---
 parser/scanner/scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 7f8f99e..0494392 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -234,7 +234,8 @@ SkipWhitespace:
 	} else if token.IsOpRune(r) {
 		s.buffer.WriteRune(r)
 		r2 := s.readRune(sctx)
-		if r2 == '-' || r2 == '+' {
+		if r2 == '-' || r2 == '+' || r2 == '/' {
+			// The start of a signed number or a comment.
 			s.unreadRune()
 			return r
 		} else if token.IsOpRune(r2) {
-- 
2.43.0


From 6d6d475ee7ee3942070ca7c50a7767106e0ac4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 41/54] fix: parser: check and foreign key constraint names
 must be unique

---
 parser/parser.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5bdbba..f61e672 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -590,6 +590,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 			p.addKeyConstraint(s, sql.UniqueConstraint, makeKeyConstraintName(cn, key, "unique"),
 				key)
 		} else if p.optionalReserved(types.CHECK) {
+			p.checkConstraintName(s, cn)
 			p.expectTokens(token.LParen)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
@@ -601,6 +602,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.FOREIGN) {
 			p.expectReserved(types.KEY)
+			p.checkConstraintName(s, cn)
 			s.ForeignKeys = append(s.ForeignKeys, p.parseForeignKey(cn))
 		} else if cn != 0 {
 			p.error("CONSTRAINT name specified without a constraint")
@@ -699,13 +701,30 @@ func makeKeyConstraintName(cn types.Identifier, key sql.IndexKey, suffix string)
 	return types.ID(nam+suffix, false)
 }
 
-func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
-	cn types.Identifier, nkey sql.IndexKey) {
+// checkConstraintName checks that the name, if there is one, is not the name of another constraint.
+func (p *Parser) checkConstraintName(s *sql.CreateTable, cn types.Identifier) {
+	if cn == 0 {
+		return
+	}
 
 	for _, c := range s.Constraints {
 		if c.Name == cn {
 			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
 		}
+	}
+	for _, fk := range s.ForeignKeys {
+		if fk.Name == cn {
+			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
+		}
+	}
+}
+
+func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
+	cn types.Identifier, nkey sql.IndexKey) {
+
+	p.checkConstraintName(s, cn)
+
+	for _, c := range s.Constraints {
 		if c.Type == sql.PrimaryConstraint && ct == sql.PrimaryConstraint {
 			p.error("only one primary key allowed")
 		}
@@ -729,10 +748,10 @@ func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 func (p *Parser) addColumnConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 	cn types.Identifier, colNum int) {
 
+	p.checkConstraintName(s, cn)
+
 	for _, c := range s.Constraints {
-		if c.Name == cn {
-			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
-		} else if colNum == c.ColNum && ct == c.Type {
+		if colNum == c.ColNum && ct == c.Type {
 			p.error(fmt.Sprintf("duplicate %s constraint on %s", ct, s.Columns[colNum]))
 		}
 	}
@@ -817,6 +836,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 					Reverse: []bool{false},
 				})
 		} else if p.optionalReserved(types.CHECK) {
+			p.checkConstraintName(s, cn)
 			p.expectTokens(token.LParen)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
@@ -827,6 +847,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 				})
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.REFERENCES) {
+			p.checkConstraintName(s, cn)
 			rtn := p.parseTableName()
 			var refCols []types.Identifier
 			if p.maybeToken(token.LParen) {
-- 
2.43.0


From 544729514434811b6b43117a535bb86cad462f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 42/54] fix: parser: position of an error for missing options
 or a missing subquery

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f61e672..345e302 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1345,7 +1345,8 @@ func (p *Parser) parseSubquery() sql.Stmt {
 	p.expectTokens(token.LParen)
 	s, ok := p.optionalSubquery()
 	if !ok {
-		p.error("expected a subquery")
+		p.scan()
+		p.error(fmt.Sprintf("expected a subquery, got %s", p.got()))
 	}
 	p.expectTokens(token.RParen)
 	return s
@@ -1943,7 +1944,8 @@ func (p *Parser) parseOptions() map[types.Identifier]string {
 		options[opt] = val
 	}
 	if len(options) == 0 {
-		p.error("expected options")
+		p.scan()
+		p.error(fmt.Sprintf("expected options, got %s", p.got()))
 	}
 	return options
 }
-- 
2.43.0


From 9f584d021f1e4028f65c045a31431b36651f4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 43/54] fix: parser: detach, execute, and prepare are not
 statements

---
 parser/parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 345e302..2f68b24 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -255,12 +255,9 @@ func (p *Parser) parseStmt() sql.Stmt {
 		types.COPY,
 		types.CREATE,
 		types.DELETE,
-		types.DETACH,
 		types.DROP,
-		types.EXECUTE,
 		types.EXPLAIN,
 		types.INSERT,
-		types.PREPARE,
 		types.ROLLBACK,
 		types.SELECT,
 		types.SET,
-- 
2.43.0


From 25a581203aeb3f49313113ed030dabf979328ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 44/54] fix: parser: group expressions while parsing: is null,
 chains of in, and time

---
 parser/parser.go | 173 ++++++++++++++++-------------------------------
 1 file changed, 58 insertions(+), 115 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2f68b24..bc9fc3a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1098,70 +1098,8 @@ var (
 	}
 )
 
-func adjustPrecedence(e sql.Expr) sql.Expr {
-	switch e := e.(type) {
-	case *sql.UnaryExpr:
-		e.Expr = adjustPrecedence(e.Expr)
-		if e.Op == sql.NoOp {
-			return e
-		}
-
-		// - {2 IN (...)} --> {- 2} IN (...)
-		if sq, ok := e.Expr.(*sql.Subquery); ok && sq.Expr != nil &&
-			opPrecedence[sq.ExprOp] < opPrecedence[e.Op] {
-
-			e.Expr = sq.Expr
-			sq.Expr = e
-			return adjustPrecedence(sq)
-		}
-
-		// - {2 * 3}  --> {- 2} * 3
-		if be, ok := e.Expr.(*sql.BinaryExpr); ok && opPrecedence[be.Op] < opPrecedence[e.Op] {
-			e.Expr = be.Left
-			be.Left = e
-			return adjustPrecedence(be)
-		}
-	case *sql.BinaryExpr:
-		e.Left = adjustPrecedence(e.Left)
-		e.Right = adjustPrecedence(e.Right)
-
-		// 1 + {2 IN (...)} --> {1 + 2} IN (...)
-		if sq, ok := e.Right.(*sql.Subquery); ok && sq.Expr != nil &&
-			opPrecedence[sq.ExprOp] <= opPrecedence[e.Op] {
-
-			e.Right = sq.Expr
-			sq.Expr = e
-			return adjustPrecedence(sq)
-		}
-
-		// 1 * {2 + 3} --> {1 * 2} + 3
-		if be, ok := e.Right.(*sql.BinaryExpr); ok && opPrecedence[be.Op] <= opPrecedence[e.Op] {
-			e.Right = be.Left
-			be.Left = e
-			return adjustPrecedence(be)
-		}
-
-		// {1 + 2} * 3 --> 1 + {2 * 3}
-		if be, ok := e.Left.(*sql.BinaryExpr); ok && opPrecedence[be.Op] < opPrecedence[e.Op] {
-			e.Left = be.Right
-			be.Right = e
-			return adjustPrecedence(be)
-		}
-	case *sql.Subquery:
-		if e.Expr != nil {
-			e.Expr = adjustPrecedence(e.Expr)
-		}
-	case *sql.SExpr:
-		for idx, arg := range e.Args {
-			e.Args[idx] = adjustPrecedence(arg)
-		}
-	}
-
-	return e
-}
-
 func (p *Parser) parseExpr() sql.Expr {
-	return adjustPrecedence(p.parseSubExpr())
+	return p.parseSubExpr(0)
 }
 
 /*
@@ -1206,17 +1144,8 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 	return 0, false, false
 }
 
-// optionalBinaryExpr parses a binary operator and the rest of the expression, if there are any,
-// following IS NULL, IN, ANY, SOME, or ALL.
-func (p *Parser) optionalBinaryExpr(e sql.Expr) sql.Expr {
-	op, ok, _ := p.optionalBinaryOp()
-	if !ok {
-		return e
-	}
-	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
-}
-
-func (p *Parser) parseSubExpr() sql.Expr {
+// parseSubExpr parses the longest expression with operators of at least the precedence.
+func (p *Parser) parseSubExpr(precedence int) sql.Expr {
 	var e sql.Expr
 	r := p.scan()
 	if r == token.Reserved {
@@ -1227,7 +1156,10 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		} else if p.sctx.Identifier == types.NULL {
 			e = sql.Literal{nil}
 		} else if p.sctx.Identifier == types.NOT {
-			e = &sql.UnaryExpr{Op: sql.NotOp, Expr: p.parseSubExpr()}
+			e = &sql.UnaryExpr{
+				Op:   sql.NotOp,
+				Expr: p.parseSubExpr(opPrecedence[sql.NotOp]),
+			}
 		} else if p.sctx.Identifier == types.EXISTS {
 			// EXISTS ( subquery )
 			e = &sql.Subquery{Op: sql.Exists, Stmt: p.parseSubquery()}
@@ -1255,7 +1187,7 @@ func (p *Parser) parseSubExpr() sql.Expr {
 					se.Name = types.COUNT_ALL
 				} else {
 					for {
-						se.Args = append(se.Args, p.parseSubExpr())
+						se.Args = append(se.Args, p.parseExpr())
 						if p.maybeToken(token.RParen) {
 							break
 						}
@@ -1274,14 +1206,17 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		}
 	} else if r == token.Minus {
 		// - expr
-		e = &sql.UnaryExpr{Op: sql.NegateOp, Expr: p.parseSubExpr()}
+		e = &sql.UnaryExpr{
+			Op:   sql.NegateOp,
+			Expr: p.parseSubExpr(opPrecedence[sql.NegateOp]),
+		}
 	} else if r == token.LParen {
 		if s, ok := p.optionalSubquery(); ok {
 			// ( subquery )
 			e = &sql.Subquery{Op: sql.Scalar, Stmt: s}
 		} else {
 			// ( expr )
-			e = &sql.UnaryExpr{Op: sql.NoOp, Expr: p.parseSubExpr()}
+			e = &sql.UnaryExpr{Op: sql.NoOp, Expr: p.parseExpr()}
 		}
 		if p.scan() != token.RParen {
 			p.error(fmt.Sprintf("expected closing parenthesis, got %s", p.got()))
@@ -1290,52 +1225,60 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		p.error(fmt.Sprintf("expected an expression, got %s", p.got()))
 	}
 
-	op, ok, bop := p.optionalBinaryOp()
-	if !ok {
-		if p.optionalReserved(types.IN, types.NOT, types.IS) {
-			switch p.sctx.Identifier {
-			case types.IN:
-				return p.optionalBinaryExpr(&sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
-					Stmt: p.parseSubquery()})
-			case types.NOT:
-				if p.optionalReserved(types.IN) {
-					return p.optionalBinaryExpr(&sql.Subquery{Op: sql.All,
-						ExprOp: sql.NotEqualOp, Expr: e, Stmt: p.parseSubquery()})
-				}
+	for {
+		op, ok, bop := p.optionalBinaryOp()
+		if ok {
+			if opPrecedence[op] < precedence {
 				p.unscan()
-			case types.IS:
-				var not bool
-				if p.optionalReserved(types.NOT) {
-					not = true
-				}
-				p.expectReserved(types.NULL)
+				return e
+			}
 
-				e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
-				if not {
-					e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+			if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
+				if !bop {
+					p.error("expected boolean binary operator")
 				}
-				return p.optionalBinaryExpr(e)
+				var subqueryOp sql.SubqueryOp
+				if p.sctx.Identifier == types.ALL {
+					subqueryOp = sql.All
+				} else {
+					subqueryOp = sql.Any
+				}
+				e = &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
+			} else {
+				e = &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr(opPrecedence[op] + 1)}
 			}
+			continue
 		}
 
-		return e
-	}
-
-	if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
-		if !bop {
-			p.error("expected boolean binary operator")
+		// IN, NOT IN, IS NULL, and IS NOT NULL have the same precedence as equality.
+		if !p.optionalReserved(types.IN, types.NOT, types.IS) {
+			return e
 		}
-		var subqueryOp sql.SubqueryOp
-		if p.sctx.Identifier == types.ALL {
-			subqueryOp = sql.All
-		} else {
-			subqueryOp = sql.Any
+		if opPrecedence[sql.EqualOp] < precedence {
+			p.unscan()
+			return e
 		}
-		return p.optionalBinaryExpr(
-			&sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()})
-	}
 
-	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
+		switch p.sctx.Identifier {
+		case types.IN:
+			e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e, Stmt: p.parseSubquery()}
+		case types.NOT:
+			if !p.optionalReserved(types.IN) {
+				p.unscan()
+				return e
+			}
+			e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
+				Stmt: p.parseSubquery()}
+		case types.IS:
+			not := p.optionalReserved(types.NOT)
+			p.expectReserved(types.NULL)
+
+			e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
+			if not {
+				e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+			}
+		}
+	}
 }
 
 func (p *Parser) parseSubquery() sql.Stmt {
-- 
2.43.0


From a556334e7d81e531a2fe7277830e6eeeeff10cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 45/54] fix: parser: a join may follow a join

---
 parser/parser.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index bc9fc3a..fdcac49 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1529,19 +1529,32 @@ join-type = [INNER] JOIN
 */
 
 func (p *Parser) parseFromItem() sql.FromItem {
-	var fi sql.FromItem
+	fi := p.parseFromTable()
+	for {
+		fj, ok := p.optionalFromJoin(fi)
+		if !ok {
+			return fi
+		}
+		fi = fj
+	}
+}
+
+func (p *Parser) parseFromTable() sql.FromItem {
 	if p.maybeToken(token.LParen) {
 		if s, ok := p.optionalSubquery(); ok {
 			// ( subquery )
-			fi = p.parseFromStmt(s)
-		} else {
-			fi = p.parseFromList()
-			p.expectTokens(token.RParen)
+			return p.parseFromStmt(s)
 		}
-	} else {
-		fi = p.parseTableAlias()
+
+		fi := p.parseFromList()
+		p.expectTokens(token.RParen)
+		return fi
 	}
 
+	return p.parseTableAlias()
+}
+
+func (p *Parser) optionalFromJoin(fi sql.FromItem) (sql.FromItem, bool) {
 	jt := sql.NoJoin
 	if p.optionalReserved(types.JOIN) {
 		jt = sql.Join
@@ -1566,7 +1579,10 @@ func (p *Parser) parseFromItem() sql.FromItem {
 	}
 
 	if jt == sql.NoJoin {
-		return fi
+		return nil, false
+	} else if jt == sql.CrossJoin {
+		// There is no condition to say where the right ends.
+		return sql.FromJoin{Left: fi, Right: p.parseFromTable(), Type: jt}, true
 	}
 
 	fj := sql.FromJoin{Left: fi, Right: p.parseFromItem(), Type: jt}
@@ -1589,18 +1605,11 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		}
 	}
 
-	if jt == sql.Join || jt == sql.LeftJoin || jt == sql.RightJoin || jt == sql.FullJoin {
-		if (fj.On != nil && fj.Using != nil) || (fj.On == nil && fj.Using == nil) {
-			p.error(fmt.Sprintf("%s must have one of ON or USING", jt))
-		}
-	}
-	if jt == sql.CrossJoin {
-		if fj.On != nil || fj.Using != nil {
-			p.error("CROSS JOIN may not have ON or USING")
-		}
+	if (fj.On != nil && fj.Using != nil) || (fj.On == nil && fj.Using == nil) {
+		p.error(fmt.Sprintf("%s must have one of ON or USING", jt))
 	}
 
-	return fj
+	return fj, true
 }
 
 func (p *Parser) parseFromList() sql.FromItem {
-- 
2.43.0


From 6cdefcb007ff82115b6f2585a6bb5db6d7eb74e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 46/54] fix: print ANY and ALL with parentheses as the operand
 of an operator

---
 parser/sql/expr.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/sql/expr.go b/parser/sql/expr.go
index b05b1cb..59af5c6 100644
--- a/parser/sql/expr.go
+++ b/parser/sql/expr.go
@@ -136,17 +136,26 @@ func (se *SExpr) String() string {
 
 func (_ *SExpr) isExpr() {}
 
+// operand returns an operand of an operator as a string; ANY and ALL are printed without
+// parentheses, and they are necessary here.
+func operand(e Expr) string {
+	if sq, ok := e.(*Subquery); ok && (sq.Op == Any || sq.Op == All) {
+		return fmt.Sprintf("(%s)", sq)
+	}
+	return e.String()
+}
+
 func (ue *UnaryExpr) String() string {
 	if ue.Op == NoOp {
 		return ue.Expr.String()
 	}
-	return fmt.Sprintf("(%s %s)", opNames[ue.Op], ue.Expr)
+	return fmt.Sprintf("(%s %s)", opNames[ue.Op], operand(ue.Expr))
 }
 
 func (_ *UnaryExpr) isExpr() {}
 
 func (be *BinaryExpr) String() string {
-	return fmt.Sprintf("(%s %s %s)", be.Left, opNames[be.Op], be.Right)
+	return fmt.Sprintf("(%s %s %s)", operand(be.Left), opNames[be.Op], operand(be.Right))
 }
 
 func (_ *BinaryExpr) isExpr() {}
-- 
2.43.0


From 40a9c25044bd62ead8bcbb0ccb978e6cdebb137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 47/54] fix: print literals so that they are parsed as the same
 value

---
 parser/sql/expr.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/sql/expr.go b/parser/sql/expr.go
index 59af5c6..a1ca0a7 100644
--- a/parser/sql/expr.go
+++ b/parser/sql/expr.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/leftmike/maho/types"
@@ -103,6 +104,19 @@ type Subquery struct {
 }
 
 func (l Literal) String() string {
+	// Print the literal so that it is parsed as the same value.
+	switch val := l.Value.(type) {
+	case types.StringValue:
+		return "'" + strings.ReplaceAll(string(val), "'", "''") + "'"
+	case types.BytesValue:
+		return fmt.Sprintf("x'%x'", []byte(val))
+	case types.Float64Value:
+		s := strconv.FormatFloat(float64(val), 'f', -1, 64)
+		if !strings.ContainsRune(s, '.') {
+			s += ".0"
+		}
+		return s
+	}
 	return types.FormatValue(l.Value)
 }
 
-- 
2.43.0


From cddaedd6cdf8b4f0350832fc3d31d23ea0d958f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 48/54] fix: print EXPLAIN VERBOSE, COPY without columns, and
 referential actions

---
 parser/sql/datadef.go | 23 +++++++++++++++++++++++
 parser/sql/query.go   | 13 ++++++++++---
 parser/sql/stmt.go    |  3 +++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/parser/sql/datadef.go b/parser/sql/datadef.go
index 4a15846..2fc8b93 100644
--- a/parser/sql/datadef.go
+++ b/parser/sql/datadef.go
@@ -107,6 +107,23 @@ const (
 	SetDefault
 )
 
+func (ra RefAction) String() string {
+	switch ra {
+	case NoAction:
+		return "NO ACTION"
+	case Restrict:
+		return "RESTRICT"
+	case Cascade:
+		return "CASCADE"
+	case SetNull:
+		return "SET NULL"
+	case SetDefault:
+		return "SET DEFAULT"
+	default:
+		panic(fmt.Sprintf("unexpected referential action: %d", ra))
+	}
+}
+
 type ForeignKey struct {
 	Name     types.Identifier
 	FKTable  types.TableName
@@ -141,6 +158,12 @@ func (fk ForeignKey) String() string {
 		}
 		buf.WriteRune(')')
 	}
+	if fk.OnDelete != NoAction {
+		fmt.Fprintf(&buf, " ON DELETE %s", fk.OnDelete)
+	}
+	if fk.OnUpdate != NoAction {
+		fmt.Fprintf(&buf, " ON UPDATE %s", fk.OnUpdate)
+	}
 	return buf.String()
 }
 
diff --git a/parser/sql/query.go b/parser/sql/query.go
index 7f1138f..bded181 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -69,16 +69,23 @@ type Copy struct {
 
 func (stmt *Copy) String() string {
 	var buf strings.Builder
-	fmt.Fprintf(&buf, "COPY %s (", stmt.Table)
+	fmt.Fprintf(&buf, "COPY %s", stmt.Table)
 	for i, col := range stmt.Columns {
 		if i > 0 {
 			buf.WriteString(", ")
+		} else {
+			buf.WriteString(" (")
 		}
 		buf.WriteString(col.String())
 	}
-	buf.WriteString(") FROM STDIN")
+	if len(stmt.Columns) > 0 {
+		buf.WriteRune(')')
+	}
+	buf.WriteString(" FROM STDIN")
 
-	if stmt.Delimiter != '\t' {
+	if stmt.Delimiter == '\'' {
+		buf.WriteString(" DELIMITER ''''")
+	} else if stmt.Delimiter != '\t' {
 		fmt.Fprintf(&buf, " DELIMITER '%c'", stmt.Delimiter)
 	}
 	return buf.String()
diff --git a/parser/sql/stmt.go b/parser/sql/stmt.go
index 3cb103a..915a967 100644
--- a/parser/sql/stmt.go
+++ b/parser/sql/stmt.go
@@ -67,6 +67,9 @@ type Explain struct {
 }
 
 func (stmt *Explain) String() string {
+	if stmt.Verbose {
+		return fmt.Sprintf("EXPLAIN VERBOSE %s", stmt.Stmt)
+	}
 	return fmt.Sprintf("EXPLAIN %s", stmt.Stmt)
 }
 
-- 
2.43.0


From 8a96106e998928fe1678787b370ab07d11792fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 49/54] fix: print ANY and ALL with the parentheses they had

---
 parser/sql/expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/sql/expr.go b/parser/sql/expr.go
index a1ca0a7..2874172 100644
--- a/parser/sql/expr.go
+++ b/parser/sql/expr.go
@@ -161,7 +161,7 @@ func operand(e Expr) string {
 
 func (ue *UnaryExpr) String() string {
 	if ue.Op == NoOp {
-		return ue.Expr.String()
+		return operand(ue.Expr)
 	}
 	return fmt.Sprintf("(%s %s)", opNames[ue.Op], operand(ue.Expr))
 }
-- 
2.43.0


From 772b7d431fbd67e7735f40506348f0e3f8cee3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 50/54] fix: the data of a COPY starts after the line with the
 end of the statement

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index fdcac49..e527d40 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1385,6 +1385,9 @@ func (p *Parser) parseCopy() sql.Stmt {
 		s.Delimiter = rune(p.sctx.String[0])
 	}
 
+	p.expectEndOfStatement()
+	p.unscan()
+
 	// Must be last because the scanner will skip to the end of the line before returning
 	// the reader.
 	s.From, s.FromLine = p.scanner.RuneReader()
-- 
2.43.0


From c03cddb6eb6c2fa5611ed0dcda2baf3522ee45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 51/54] fix: a read error after a dollar sign is reported as
 the error it is

---
 parser/scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 0494392..2c5fe77 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -253,7 +253,9 @@ SkipWhitespace:
 		return r
 	} else if r == '$' {
 		r = s.readRune(sctx)
-		if !unicode.IsDigit(r) {
+		if r == token.Error {
+			return token.Error
+		} else if !unicode.IsDigit(r) {
 			s.unreadRune()
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
-- 
2.43.0


From 26c21ad852fb8ad5f8921bdadb2113dbc75a52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 52/54] fix: a read error after an operator is reported as the
 error it is

---
 parser/scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 2c5fe77..acd9c18 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -213,7 +213,9 @@ SkipWhitespace:
 		return s.scanNumber(sctx, r, 1)
 	} else if r == '+' {
 		r = s.readRune(sctx)
-		if unicode.IsDigit(r) && !s.operand {
+		if r == token.Error {
+			return token.Error
+		} else if unicode.IsDigit(r) && !s.operand {
 			return s.scanNumber(sctx, r, 1)
 		}
 		s.unreadRune()
@@ -238,6 +240,8 @@ SkipWhitespace:
 			// The start of a signed number or a comment.
 			s.unreadRune()
 			return r
+		} else if r2 == token.Error {
+			return token.Error
 		} else if token.IsOpRune(r2) {
 			s.buffer.WriteRune(r2)
 			if r3, ok := token.Operators[s.buffer.String()]; ok {
-- 
2.43.0


From 3cc0750a505fa8bffd883df537daf75aab4183d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 53/54] fix: DROP TABLE IF EXISTS reported success when the
 table could not be opened for another reason

---
 engine/engine.go     | 7 +++++--
 evaluate/evaluate.go | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index f7ca926..dbfa2b6 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -62,6 +62,9 @@ type IndexType struct {
 
 var (
 	errTransactionComplete = errors.New("engine: transaction already completed")
+
+	// ErrTableNotFound is the reason that OpenTable and DropTable fail if there is no such table.
+	ErrTableNotFound = errors.New("table not found")
 )
 
 type engine struct {
@@ -353,7 +356,7 @@ func (tx *transaction) OpenTable(ctx context.Context, tn types.TableName) (Table
 	}
 	err := TypedTableLookup(ctx, tx.tx, tablesTypedInfo, &tr)
 	if err == io.EOF {
-		return nil, fmt.Errorf("engine: table not found: %s", tn)
+		return nil, fmt.Errorf("engine: %w: %s", ErrTableNotFound, tn)
 	} else if err != nil {
 		return nil, err
 	}
@@ -473,7 +476,7 @@ func (tx *transaction) DropTable(ctx context.Context, tn types.TableName) error
 	if err != nil {
 		return err
 	} else if !deleted {
-		return fmt.Errorf("engine: table not found: %s", tn)
+		return fmt.Errorf("engine: %w: %s", ErrTableNotFound, tn)
 	}
 	return nil
 }
diff --git a/evaluate/evaluate.go b/evaluate/evaluate.go
index 67e7f50..bc12d5a 100644
--- a/evaluate/evaluate.go
+++ b/evaluate/evaluate.go
@@ -2,6 +2,7 @@ package evaluate
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"slices"
 
@@ -146,8 +147,11 @@ func EvaluateDropTable(ctx context.Context, tx engine.Transaction,
 
 	for _, tn := range stmt.Tables {
 		if stmt.IfExists {
-			if _, err := tx.OpenTable(ctx, tn); err != nil {
+			_, err := tx.OpenTable(ctx, tn)
+			if errors.Is(err, engine.ErrTableNotFound) {
 				continue
+			} else if err != nil {
+				return err
 			}
 		}
 		err := tx.DropTable(ctx, tn)
-- 
2.43.0


From 9ee3798dc2a80ae6a992c7ddda7159767adf8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:03 +0000
Subject: [PATCH 54/54] fix: engine: typed table: refuse a size which does not
 fit

---
 engine/typedinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/typedinfo.go b/engine/typedinfo.go
index add81bf..7f5ce2b 100644
--- a/engine/typedinfo.go
+++ b/engine/typedinfo.go
@@ -119,7 +119,7 @@ func MakeTypedInfo(tid storage.TableId, tn types.TableName, st interface{}) *Typ
 		size := uint32(1)
 		if val, ok := tags["size"]; ok {
 			n, err := strconv.Atoi(val)
-			if err != nil || n <= 0 {
+			if err != nil || n <= 0 || int64(n) > types.MaxColumnSize {
 				panic(fmt.Sprintf("typed table: size not a positive integer: %s: %s", val, err))
 			}
 			size = uint32(n)
-- 
2.43.0

