From d44c927f7ac9dde9421493e8a9e7e4eb29dbcd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 01/75] fix: treat latin1 VARCHAR as a variable length column

DATA_VARCHAR columns carry their maximum length in SYS_COLUMNS.LEN; taking
it for a fixed length shifted every following column of COMPACT rows and
made the size check reject REDUNDANT rows.
---
 recovery/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 805121c..0fd3c7f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -701,8 +701,8 @@ func GetFixedLengthByMySQLType(MySQLType uint64, FieldLen uint64) uint64 {
 func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 
 	switch DataType {
-	//case DATA_VARCHAR:
-	//	return 0
+	case DATA_VARCHAR:
+		return 0
 	//case DATA_CHAR:
 	//return FieldLen / 3
 	//case DATA_FIXBINARY:
-- 
2.43.0


From fa63bf36a9b41e4debc85b685c4eb4965f2fba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 02/75] fix: keep the NULL flag of REDUNDANT fields

The flag was set at bit 31 and then masked away together with the high
bits, so every NULL came back as an empty string, a zero or garbage. The
external flag was cleared with the wrong mask.
---
 recovery/ibdata/parse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8e4041f..61e0502 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1090,7 +1090,8 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 				// #define REC_OFFS_SQL_NULL	((ulint) 1 << 31)
 				offs |= 1 << 31
 			}
-			offs &= 0xffff
+			// keep the NULL flag, it is part of the end info.
+			offs &= 0xffff | 1<<31
 
 			// #define rec_offs_base(offsets) (offsets + REC_OFFS_HEADER_SIZE)
 			(*offsets)[2:][1+i] = offs
@@ -1111,11 +1112,12 @@ func (parse *Parse) ibRecInitOffsetsOld(d []byte, offset uint64, o []byte, offse
 			// #define REC_2BYTE_EXTERN_MASK	0x4000UL
 			if (offs & 0x4000) != 0 {
 				// #define REC_2BYTE_EXTERN_MASK	0x4000UL
-				offs = uint64(int(offs) & ^0x8000)
+				offs = uint64(int(offs) & ^0x4000)
 				// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
 				offs = offs | (1 << 30)
 			}
-			offs &= 0xffff
+			// keep the NULL and external flags, they are part of the end info.
+			offs &= 0xffff | 1<<31 | 1<<30
 			(*offsets)[2:][1+i] = offs
 		}
 	}
-- 
2.43.0


From 98a8c8ed41a160fbd4fc3508add1f01dda6f2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 03/75] fix: read two-byte lengths of VARBINARY columns over
 255 bytes

The declared length of a VARBINARY was dropped (its FieldLen must stay 0,
it is not fixed), so the record parser took it for a short column.
---
 recovery/ibdata/parse.go     | 4 +++-
 recovery/ibdata/structure.go | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 61e0502..65a8031 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -460,6 +460,7 @@ func (parse *Parse) getAllColumns() error {
 					MySQLType: MySQLType,
 					FieldPos:  c[1].FieldValue.(uint64),
 					FieldLen:  TempFieldLen,
+					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary})
@@ -1164,7 +1165,8 @@ func (parse *Parse) ibRecInitOffsetsNew(d []byte, offset uint64, o []byte, offse
 			//      if (debug) printf("Variable-length field: read the length\n");
 			/* Variable-length field: read the length */
 
-			if table.Columns[i].FieldLen > 255 || table.Columns[i].FieldType == utils.DATA_BLOB {
+			if table.Columns[i].FieldLen > 255 || table.Columns[i].MaxLen > 255 ||
+				table.Columns[i].FieldType == utils.DATA_BLOB {
 
 				if length&0x80 != 0 {
 
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 8c2b617..31b271b 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -31,6 +31,7 @@ type Columns struct {
 	MySQLType  uint64
 	FieldPos   uint64
 	FieldLen   uint64
+	MaxLen     uint64
 	FieldValue interface{}
 	IsNUll     bool
 	IsBinary   bool
-- 
2.43.0


From cdbfe18712712a95af826cef6b2200457f4daf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 04/75] fix: print BIT values in binary, and NULL bits as NULL

---
 recovery/ibdata/format.go | 2 +-
 recovery/utils/utils.go   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 08224d0..b6cb1bc 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,7 +33,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT {
+			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil && column.FieldValue != "NULL" {
 				buf.WriteString("b")
 			}
 
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 0fd3c7f..0b47e21 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -595,7 +595,8 @@ func ParseData(DataType uint64, MySQLType uint64,
 			FormatDateTime := ParseDateTime(data)
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
-			return GetUintValue(FixLength, data[:FieldLen]), nil
+			// A bit literal is written in binary.
+			return strconv.FormatUint(GetUintValue(FixLength, data[:FieldLen]), 2), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
 			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
-- 
2.43.0


From bb8e7205e4d93dedf4789390f3301d90d4459adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 05/75] fix: read unsigned integers of 3, 5, 6 and 7 bytes
 completely

---
 recovery/utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 0b47e21..80e87b7 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -98,15 +98,15 @@ func GetUintValue(FixLength int, value []byte) uint64 {
 	case 2:
 		return MatchReadFrom2(value)
 	case 3:
-		return MatchReadFrom3(value) & 0x3FFFFF
+		return MatchReadFrom3(value)
 	case 4:
 		return MatchReadFrom4(value)
 	case 5:
-		return MatchReadFrom8(value) >> 24
+		return MatchReadFrom1(value)<<32 | MatchReadFrom4(value[1:])
 	case 6:
-		return MatchReadFrom8(value) >> 16
+		return MatchReadFrom2(value)<<32 | MatchReadFrom4(value[2:])
 	case 7:
-		return MatchReadFrom8(value) >> 8
+		return MatchReadFrom3(value)<<32 | MatchReadFrom4(value[3:])
 	case 8:
 		return MatchReadFrom8(value)
 	}
-- 
2.43.0


From 1b63d3147d53822caf5b6ce7d225b09f5e3e1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 06/75] fix: print the zero YEAR as 0000

---
 recovery/utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 80e87b7..ae39cf4 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -622,6 +622,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 			DateTime := ParseDate(data)
 			return DateTime, nil
 		case MYSQL_TYPE_YEAR:
+			if MatchReadFrom1(data) == 0 {
+				// The zero year is stored as zero.
+				return "0000", nil
+			}
 			FormatYear := MatchReadFrom1(data) + 1900
 			return FormatYear, nil
 		default:
-- 
2.43.0


From 5875d14aeec7c4ac6c209970a79e0a31e1d6f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 07/75] fix: decode every packed DATETIME, from its own five
 bytes only

---
 recovery/utils/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index ae39cf4..0c7e993 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -791,7 +791,14 @@ func GetTimeFormat(data []byte) int {
 
 // ParseDateTime ...
 func ParseDateTime(data []byte) string {
-	format := GetTimeFormat(data)
+	var format int
+	if data[0]&0x80 != 0 {
+		// The packed format is five bytes and always has the sign bit set.
+		data = append(append([]byte{}, data[:5]...), 0, 0, 0)
+		format = 2
+	} else {
+		format = GetTimeFormat(data)
+	}
 	if format == 1 || format == 0 {
 		ldate := MatchReadFrom8(data)
 		ldate = ldate &^ (1 << 63)
-- 
2.43.0


From ffef8677d605df7fcdeed9383e5e31986991fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 08/75] fix: print years with four digits

---
 recovery/utils/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 0c7e993..b4beb9d 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -814,7 +814,7 @@ func ParseDateTime(data []byte) string {
 		ldate /= 100
 		year := ldate % 10000
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 
@@ -828,7 +828,7 @@ func ParseDateTime(data []byte) string {
 		min := (ldate & 0x0000000FC0000000) >> 30
 		sec := (ldate & 0x000000003F000000) >> 24
 
-		FormatTime := fmt.Sprintf("%02d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
+		FormatTime := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", year, month, day, hour, min, sec)
 
 		return FormatTime
 	}
@@ -848,7 +848,7 @@ func ParseDate(data []byte) string {
 	month = int(ldate % 16)
 	ldate /= 16
 	year = int(ldate)
-	DateTime := fmt.Sprintf("%02d-%02d-%02d", year, month, day)
+	DateTime := fmt.Sprintf("%04d-%02d-%02d", year, month, day)
 	return DateTime
 }
 
-- 
2.43.0


From 39c7810d8511e895b51ee7a436d6f042b6fbef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 09/75] fix: print TIMESTAMP with 24 hours, and the zero
 TIMESTAMP as zero

---
 recovery/utils/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index b4beb9d..1b71c2a 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -894,7 +894,11 @@ func ParseTime(data []byte) string {
 func ParseTimeStamp(data []byte) string {
 	// TODO: add time_precision
 	t := MatchReadFrom4(data)
-	tm := time.Unix(int64(t), 0).Format("2006-01-02 03:04:05")
+	if t == 0 {
+		// Zero is not the epoch but the zero timestamp.
+		return "0000-00-00 00:00:00"
+	}
+	tm := time.Unix(int64(t), 0).Format("2006-01-02 15:04:05")
 	return tm
 }
 
-- 
2.43.0


From efa9ee77a8f38859184ecd75a4d89d788f7824e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 10/75] fix: remove only the padding of CHAR values

---
 recovery/utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 1b71c2a..2a6837f 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -647,7 +647,8 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARMYSQL:
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
-		return strings.TrimSpace(string(data[:FieldLen])), nil
+		// Only the padding of the column is not part of the value.
+		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
 		// TODO: deal with binary data.
 		if *IsBinary {
-- 
2.43.0


From 513bf21ce8860ca6227098a04781a4abe8748465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 11/75] fix: tell the text NULL from a NULL value

---
 recovery/ibdata/format.go | 4 ++--
 recovery/ibdata/parse.go  | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index b6cb1bc..d0f79db 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -33,7 +33,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
-			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil {
 				buf.WriteString("b")
 			}
 
@@ -41,7 +41,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteString("unhex(")
 			}
 
-			if column.FieldValue != nil && column.FieldValue != "NULL" {
+			if column.FieldValue != nil {
 				buf.WriteByte('\'')
 				buf.WriteString(utils.EscapeValue(fmt.Sprintf("%v", column.FieldValue)))
 				buf.WriteByte('\'')
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 65a8031..8771648 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -935,9 +935,8 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 		// Get field len from offset array.
 		data := utils.RecGetNthField(o, offsets, i, &fieldLen)
 		if uint64(len(data)) < fieldLen {
-			if fieldLen == 0xFFFFFFFF {
-				columns[i].FieldValue = "NULL"
-			}
+			// NULL, not the text "NULL" and not the value of the previous row.
+			columns[i].FieldValue = nil
 			continue
 		}
 
-- 
2.43.0


From 31ae608d4d6aeeebf261a14a9746ae6bd2b5258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 12/75] fix: keep a text value that reads 0001-01-01T00:00:00Z

---
 recovery/utils/utils.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 2a6837f..0faa7fc 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -955,11 +955,6 @@ func EscapeValue(colValue string) string {
 		last = i + 1
 	}
 	colBuffer.WriteString(colValue[last:])
-	// TODO: If the source is really 0001-01-01T00:00:00Z, it will cause data inconsistency.
-	if colBuffer.String() == "0001-01-01T00:00:00Z" {
-		colBuffer.Reset()
-		colBuffer.WriteString("")
-	}
 	return colBuffer.String()
 }
 
-- 
2.43.0


From 531fc4ae2c76d400d6df1e56776bcb631166602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 13/75] fix: put the primary key columns first in key order

---
 recovery/ibdata/parse.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 8771648..7f26e15 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -325,16 +325,19 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 // moveColumns2First ...
 func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Columns {
-	for i := 0; i < len(columns); i++ {
-		for j, field := range fields {
-			if field.ColumnName == columns[i].FieldName {
-				tempField := columns[i]
-				columns = append(columns[:j], columns[j+1:]...)
-				columns = append([]Columns{tempField}, columns...)
+	// The key columns in key order, then the others in their own order.
+	var first []Columns
+	rest := append([]Columns{}, columns...)
+	for _, field := range fields {
+		for i := 0; i < len(rest); i++ {
+			if field.ColumnName == rest[i].FieldName {
+				first = append(first, rest[i])
+				rest = append(rest[:i], rest[i+1:]...)
+				break
 			}
 		}
 	}
-	return columns
+	return append(first, rest...)
 }
 
 // Table have some internal filed in MySQL, such as DB_TRX_ID/DB_ROLL_PTR/DB_ROW_ID.
-- 
2.43.0


From 8fbdf919aa35a5ae6c0b99b7837316b07ea7dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 14/75] fix: print the values of a row in the declared order of
 the columns

---
 recovery/ibdata/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index d0f79db..2d4b483 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -3,6 +3,7 @@ package ibdata
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/zbdba/db-recovery/recovery/logs"
 	"github.com/zbdba/db-recovery/recovery/utils"
@@ -15,6 +16,11 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 
 	for _, columns := range AllColumns {
 
+		// The values go in the declared order of the columns, the record has the key first.
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
-- 
2.43.0


From 754443e25326232e73222af4acc3c0f6eb8f5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 15/75] fix: support tables whose clustered index is a unique
 key

---
 recovery/ibdata/parse.go     | 4 ++--
 recovery/ibdata/structure.go | 7 +++++++
 recovery/redo/mlog.go        | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7f26e15..7733111 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -315,7 +315,7 @@ func (parse *Parse) movePrimaryKeyFirst() {
 
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClusterKey() {
 				table.Columns = parse.moveColumns2First(idx.Fields, table.Columns)
 			}
 		}
@@ -347,7 +347,7 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
-			if idx.Name == "PRIMARY" {
+			if idx.IsClusterKey() {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
 				RollPtrColumns := parse.addInternalColumn("DB_ROLL_PTR", tableID, idx.FieldNum+1)
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 31b271b..9c1ad6a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -48,6 +48,13 @@ type Indexes struct {
 	Fields    []*Fields
 }
 
+// IsClusterKey tells whether the index is the key the rows are stored by: the primary key,
+// or the first unique key without NULL columns of a table that has no primary key.
+func (idx Indexes) IsClusterKey() bool {
+	// #define DICT_CLUSTERED	1
+	return idx.Name == "PRIMARY" || idx.Name != "GEN_CLUST_INDEX" && idx.IndexType&1 != 0
+}
+
 // Fields store the fields of the table index.
 type Fields struct {
 	ColumnPos  uint64
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 8889ffb..ace4c86 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -275,7 +275,7 @@ func (parse *Parse) getPrimaryKey(table ibdata.Tables) ([]*ibdata.Fields, error)
 	var fields []*ibdata.Fields
 
 	for _, idx := range table.Indexes {
-		if strings.TrimSpace(idx.Name) == "PRIMARY" || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
+		if idx.IsClusterKey() || strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 			if strings.TrimSpace(idx.Name) == "GEN_CLUST_INDEX" {
 				fields = []*ibdata.Fields{&ibdata.Fields{ColumnPos: 0, ColumnName: "DB_ROW_ID"}}
 			} else {
-- 
2.43.0


From 69aa4ee158c5f97ab9a254f71ba497aa96f0b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 16/75] fix: read dictionary rows from leaf pages only

---
 recovery/ibdata/parse.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 7733111..e800b67 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -76,12 +76,15 @@ func (parse *Parse) ParseDictPage(path string) error {
 
 			var ds []DataDict
 			parse.parsePageHeader(&page)
-			ds = append(ds,
-				DataDict{
-					IndexId:    page.ph.PAGE_INDEX_ID,
-					PageOffset: page.fh.FIL_PAGE_OFFSET,
-					data:       page.OriginalData,
-					pos:        len(page.OriginalData) - len(page.data)})
+			// The root has rows as long as it is the only page, then it has node pointers.
+			if page.ph.PAGE_LEVEL == 0 {
+				ds = append(ds,
+					DataDict{
+						IndexId:    page.ph.PAGE_INDEX_ID,
+						PageOffset: page.fh.FIL_PAGE_OFFSET,
+						data:       page.OriginalData,
+						pos:        len(page.OriginalData) - len(page.data)})
+			}
 			parse.D.Store(page.ph.PAGE_INDEX_ID, ds)
 
 			logs.Debug("page offset is ", page.fh.FIL_PAGE_OFFSET,
@@ -92,6 +95,9 @@ func (parse *Parse) ParseDictPage(path string) error {
 				if k == page.ph.PAGE_INDEX_ID {
 					ds := v.([]DataDict)
 					parse.parsePageHeader(&page)
+					if page.fh.FIL_PAGE_TYPE != FilPageIndex || page.ph.PAGE_LEVEL != 0 {
+						return true
+					}
 					ds = append(ds,
 						DataDict{
 							IndexId:    page.ph.PAGE_INDEX_ID,
-- 
2.43.0


From 9d6bc38c7778d0b2f441c9408c2794ed6ad2ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 17/75] fix: order columns and index fields by position,
 whatever the order of the dictionary pages

---
 recovery/ibdata/parse.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e800b67..e784b00 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strings"
 	"sync"
 
@@ -305,14 +306,17 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 // sortColumns sort columns by field position.
 // // TODO: why some table fields is not sort?
 func (parse *Parse) sortColumns() {
-	var sortedColumns []Columns
 	for _, table := range parse.TableMap {
-		for i, field := range table.Columns {
-			if field.FieldPos == uint64(i) {
-				sortedColumns = append(sortedColumns, field)
-			}
+		columns := table.Columns
+		sort.SliceStable(columns, func(i, j int) bool {
+			return columns[i].FieldPos < columns[j].FieldPos
+		})
+		for _, idx := range table.Indexes {
+			fields := idx.Fields
+			sort.SliceStable(fields, func(i, j int) bool {
+				return fields[i].ColumnPos < fields[j].ColumnPos
+			})
 		}
-		table.Columns = sortedColumns
 	}
 }
 
-- 
2.43.0


From 7a52a87037f286aa0596584470c6b15fd377f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 18/75] fix: report a table that is not in the dictionary

---
 recovery/ibdata/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e784b00..d9f4027 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -1064,6 +1064,9 @@ func (parse *Parse) getTableColumnsFromDict(dbName string, tableName string) ([]
 			columns = table.Columns
 		}
 	}
+	if len(columns) == 0 {
+		return columns, fmt.Errorf("table %s.%s have not found in the dictionary", dbName, tableName)
+	}
 	return columns, nil
 }
 
-- 
2.43.0


From aaee8803c72f0f323978f0fb789350c3aa186060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 19/75] fix: prefer the page at its own position to a copy with
 the same number

---
 recovery/ibdata/parse.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index d9f4027..9c41aed 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -216,9 +216,10 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	}
 	defer file.Close()
 
-	pageMap := make(map[uint64]string)
+	pageMap := make(map[uint64]int)
+	var position uint64
 
-	for {
+	for ; ; position++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
 		if len(data) < DefaultPageSize {
@@ -243,10 +244,13 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 		page.OriginalData = data
 
 		// TODO: why have the same pages?
-		// Store the page into the pageMap.
-		if _, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+		// Store the page into the pageMap. The page at the position of its number is the real one,
+		// another one with that number is a copy, for example in the doublewrite buffer.
+		if i, ok := pageMap[page.fh.FIL_PAGE_OFFSET]; !ok {
+			pageMap[page.fh.FIL_PAGE_OFFSET] = len(pages)
 			pages = append(pages, page)
-			pageMap[page.fh.FIL_PAGE_OFFSET] = "have"
+		} else if page.fh.FIL_PAGE_OFFSET == position {
+			pages[i] = page
 		}
 	}
 	return pages, err
-- 
2.43.0


From 7fb5bbe63e8627eeb67748f2944cbce350329c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 20/75] fix: skip a damaged page instead of stopping at it

---
 recovery/ibdata/parse.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9c41aed..19a8c44 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -808,16 +808,14 @@ func (parse *Parse) parsePageHeader(page *Page) *Page {
 // 7.Fil Trailer
 // Read all those info and parse according to its protocol.
 // TODO: support compress and encrypt page.
-func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) [][]Columns {
+func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecovery bool, pageFree uint64) (allColumns [][]Columns) {
 
-	// catch panic
-	//defer func() {
-	//	if err := recover(); err != nil {
-	//		logs.Error("skip error, the error is ", err)
-	//	}
-	//}()
-
-	var allColumns [][]Columns
+	// catch panic, a damaged page should not keep the other pages from being parsed.
+	defer func() {
+		if err := recover(); err != nil {
+			logs.Error("skip error, the error is ", err)
+		}
+	}()
 
 	// The PAGE_BTR_SEG_LEAF length
 	pos += 10
-- 
2.43.0


From c2b526ca0ccd4b1b6365b350a2db12987d9057cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 21/75] fix: end a damaged record list that leads back to
 itself

---
 recovery/ibdata/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 19a8c44..3a4e366 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -872,7 +872,15 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	}
 
 	var totalLen uint64
+	seen := make(map[uint64]bool)
 	for {
+		// A record comes once in its list, otherwise the list is damaged and has no end.
+		if seen[offset] {
+			logs.Error("the record list is damaged, record offset is ", offset)
+			break
+		}
+		seen[offset] = true
+
 		// TODO: const
 		if offset < (16384-6) && (offset != supremum) {
 			var c []Columns
-- 
2.43.0


From 9c4a40fed18b1783c71a5d8be5f92de902b6fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 22/75] fix: report a damaged data dictionary as an error

---
 recovery/ibdata/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 3a4e366..05fbbab 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -43,7 +43,15 @@ func NewParse() *Parse {
 }
 
 // ParseDictPage get table struct in dict page.
-func (parse *Parse) ParseDictPage(path string) error {
+func (parse *Parse) ParseDictPage(path string) (err error) {
+
+	// A damaged dictionary is an error.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("the data dictionary is damaged: %v", r)
+			logs.Error(err.Error())
+		}
+	}()
 
 	pages, err := parse.parseFile(path)
 	if err != nil {
-- 
2.43.0


From 330dc599beb2deac851c06d22290f5e2f16392c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 23/75] fix: separate the columns of a SET clause with commas

---
 recovery/redo/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 7985960..78e6939 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -533,7 +533,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
 		} else {
-			SetValues += SetValue + " and "
+			SetValues += SetValue + ", "
 		}
 	}
 
-- 
2.43.0


From aee1e542d0e4bae4dbc99acc00e1f2f0ce787517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 24/75] fix: write escaped, binary and BIT values of update
 statements as SQL literals

---
 recovery/redo/parse.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 78e6939..4219eec 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -517,6 +517,20 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 	return haveType
 }
 
+// makeLiteral writes a column value as a SQL literal.
+func (parse *Parse) makeLiteral(column ibdata.Columns, value interface{}) string {
+	literal := "'" + utils.EscapeValue(fmt.Sprintf("%v", value)) + "'"
+	switch {
+	case column.MySQLType == utils.MYSQL_TYPE_BIT:
+		return "b" + literal
+	case column.IsBinary,
+		column.FieldType == utils.DATA_BINARY && column.MySQLType == utils.MYSQL_TYPE_VARCHAR,
+		column.FieldType == utils.DATA_FIXBINARY && column.MySQLType == utils.MYSQL_TYPE_STRING:
+		return "unhex(" + literal + ")"
+	}
+	return literal
+}
+
 func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields, columns []*ibdata.Columns) {
 
 	// TODO: deal with null value.
@@ -526,7 +540,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	for i, c := range columns {
 		var SetValue string
 		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`='%v'", c.FieldName, c.FieldValue)
+			SetValue = fmt.Sprintf("`%s`=%s", c.FieldName, parse.makeLiteral(*c, c.FieldValue))
 		} else {
 			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
 		}
@@ -540,7 +554,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`='%v'", v.ColumnName, v.ColumnValue)
+		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+			parse.makeLiteral(parse.getColumnsByName(table, v.ColumnName), v.ColumnValue))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
 		} else {
-- 
2.43.0


From da52b25b0ec0a74f62d41a71d910f1da62069222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 25/75] fix: read undo numbers and table ids of 2^32 and above

---
 recovery/utils/utils.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 0faa7fc..9754546 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -430,11 +430,12 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = 0
 		size = 0
 	} else {
-		n, _, err := MatchParseCompressed(b, 1)
+		high, _, err := MatchParseCompressed(b, 1)
 		if err != nil {
 			return 0, err
 		}
-		v, err := MatchGetCompressedSize(n)
+		n = high << 32
+		v, err := MatchGetCompressedSize(high)
 		if err != nil {
 			fmt.Println(err.Error())
 		}
@@ -467,7 +468,7 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	return n1 + n2
+	return 1 + n1 + n2
 }
 
 // ReadIntoStruct ...
-- 
2.43.0


From 8acdd30797810c99c0ee981ca526bb8a562b13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 26/75] fix: read the low word of a compressed 64-bit number
 right after the high word

---
 recovery/utils/utils.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9754546..a930ce2 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -406,13 +406,8 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	if err != nil {
 		fmt.Println(err.Error())
 	}
-	size, err := MatchGetCompressedSize(n)
-	// *pos += size
-	if err != nil {
-		fmt.Println(err.Error())
-	}
 	n <<= 32
-	n |= MatchReadFrom4(b[*pos:][size:])
+	n |= MatchReadFrom4(b[*pos:])
 	*pos += 4
 	return n
 }
-- 
2.43.0


From 0dff82e851e0971eedb597e7baa8a1173f060aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 27/75] fix: read MLOG_COMP_REC_SEC_DELETE_MARK records
 completely

---
 recovery/redo/mlog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index ace4c86..d1c5ab1 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -465,6 +465,9 @@ func (parse *Parse) mlogCompRecSecDeleteMark(data []byte, pos *uint64) error {
 	position, err := utils.ParseIndex(true, data, *pos)
 	if err == nil {
 		*pos = position
+
+		// btr_cur_parse_del_mark_set_sec_rec
+		parse.mlogRecSecDeleteMark(data, pos)
 	}
 	return err
 }
-- 
2.43.0


From 8090cd8b2a378c1879e7bdd1594678335a0127ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 28/75] fix: a NULL field in an update-in-place record has no
 data

---
 recovery/redo/const.go | 4 ++++
 recovery/redo/mlog.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index e3b06e2..582b462 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -237,6 +237,10 @@ const (
 	MLOG_BIGGEST_TYPE = MLOG_TEST
 )
 
+// UNIV_SQL_NULL is the length of a NULL field.
+// storage/innobase/include/univ.i
+const UNIV_SQL_NULL = 0xFFFFFFFF
+
 // Define the Undo record type.
 // Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
 const (
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index d1c5ab1..43d349d 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -542,6 +542,10 @@ func (parse *Parse) mlogRecUpdateInPlace(data []byte, pos *uint64, MyType uint64
 					logs.Debug("fieldNo is ", fieldNo, " fieldLen is ", fieldLen)
 				}
 				*pos += num
+				if fieldLen == UNIV_SQL_NULL {
+					// NULL has no data.
+					continue
+				}
 				*pos += fieldLen
 			}
 		}
-- 
2.43.0


From 289965992d6ae567c8ee619de649aa3fd5208807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 29/75] fix: read both names of a file rename record

---
 recovery/redo/mlog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 43d349d..0a90f7c 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -384,6 +384,12 @@ func (parse *Parse) mlogFileOp(data []byte, pos *uint64, myType uint64) {
 	*pos += 2
 	*pos += nameLen
 
+	if myType == MLOG_FILE_RENAME || myType == MLOG_FILE_RENAME2 {
+		// The new name follows.
+		newNameLen := utils.MatchReadFrom2(data[*pos:])
+		*pos += 2
+		*pos += newNameLen
+	}
 }
 
 // MLOG_REC_MARK ...
-- 
2.43.0


From e86cf33519e90f45fa4833f3b949557b931faabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 30/75] fix: MLOG_DUMMY_RECORD is a single byte

---
 recovery/redo/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 4219eec..2be32ca 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -262,6 +262,11 @@ func (parse *Parse) parseRedoBlockData(data []byte) error {
 			continue
 		}
 
+		if logType == MLOG_DUMMY_RECORD {
+			// only the type, like MLOG_MULTI_REC_END.
+			continue
+		}
+
 		// Get redo log type.
 		logType = uint64(int(logType) & ^MLOG_SINGLE_REC_FLAG)
 
-- 
2.43.0


From c1a619e367e3e63c4ef22ead9b70f656a35f4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 31/75] fix: keep to the given database when a table name is
 given too

---
 recovery/redo/mlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 0a90f7c..7acd484 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -223,7 +223,7 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 		} else if parse.DBName == "" && parse.TableName == "" {
 			parse.makeSQL(Table, primaryFields, columns)
-		} else if parse.TableName != "" && parse.TableName == Table.TableName {
+		} else if parse.DBName == "" && parse.TableName == Table.TableName {
 			parse.makeSQL(Table, primaryFields, columns)
 		}
 	}
-- 
2.43.0


From a115f466c437801b2ba5e533d45d59aeae95003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 32/75] fix: keep to the bounds of an undo record, and go on
 behind it

---
 recovery/redo/mlog.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 7acd484..abd915d 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -81,10 +81,17 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 	defer func() {
 		if err := recover(); err != nil {
 			logs.Error("skip error, the error is ", err)
-			*pos = startPos + dataLen
 		}
+		// The next log record follows the undo record, whatever is in it.
+		*pos = startPos + dataLen
 	}()
 
+	if startPos+dataLen > uint64(len(data)) {
+		return fmt.Errorf("data is too short")
+	}
+	// The undo record does not reach into the next log record.
+	data = data[:startPos+dataLen]
+
 	typeCmpl := int64(utils.MatchReadFrom1(data[*pos:]))
 	*pos++
 
@@ -193,9 +200,11 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			*pos += num
 
 			var value interface{}
-			if *pos+fLen > uint64(len(data)) {
+			if fLen == UNIV_SQL_NULL {
 				value = nil
 				fLen = 0
+			} else if *pos+fLen > uint64(len(data)) {
+				return fmt.Errorf("data is too short")
 			} else {
 				value, err = utils.ParseData(c.FieldType, c.MySQLType, data[*pos:], fLen,
 					int(utils.GetFixedLength(c.FieldType, c.FieldLen)), c.IsUnsigned, &c.IsBinary)
-- 
2.43.0


From e67a702b931905e67635894bf26049ea1fea2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 33/75] fix: print no update statement without columns or
 without a row

---
 recovery/redo/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 2be32ca..d143593 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -540,6 +540,11 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 
 	// TODO: deal with null value.
 
+	if len(columns) == 0 || len(primaryColumns) == 0 {
+		// There is no statement without columns to set or without a row to set them in.
+		return
+	}
+
 	// update statement
 	var SetValues string
 	for i, c := range columns {
-- 
2.43.0


From 1fc077c95e8f6bea13702a6dbbb5526a73c09760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 34/75] fix: write errors of damaged numbers to the log, not
 between the statements

---
 recovery/utils/utils.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index a930ce2..01254ce 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -404,7 +404,7 @@ func MatchUllReadComPressed(b []byte, pos *uint64) uint64 {
 	n, num, err := MatchParseCompressed(b, *pos)
 	*pos += num
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	n <<= 32
 	n |= MatchReadFrom4(b[*pos:])
@@ -432,7 +432,7 @@ func MatchUllReadMuchCompressed(b []byte) (uint64, error) {
 		n = high << 32
 		v, err := MatchGetCompressedSize(high)
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		size = 1 + v
 	}
@@ -461,7 +461,7 @@ func MachUllGetMuchCompressedSize(num uint64) uint64 {
 	Num, err := strconv.ParseInt("FFFFFFFF", 16, 64)
 	n2, err := MatchGetCompressedSize(num & uint64(Num))
 	if err != nil {
-		fmt.Println(err.Error())
+		logs.Error(err.Error())
 	}
 	return 1 + n1 + n2
 }
@@ -546,14 +546,14 @@ func ParseInsertRecord(IsShort bool, data []byte, pos uint64) (uint64, error) {
 		OriginOffset, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 
 		MisMatchIndex, num, err := MatchParseCompressed(data, pos)
 
 		if err != nil {
-			fmt.Println(err.Error())
+			logs.Error(err.Error())
 		}
 		pos += num
 		logs.Debug("InfoAndStatusBits is ", InfoAndStatusBits, "OriginOffset is ",
-- 
2.43.0


From 8d2039aa8695aa9da0cb5a8c05c6a1f13bdd35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 35/75] fix: report a log that ends within a record instead of
 crashing

---
 recovery/redo/parse.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index d143593..5c22ae1 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -242,8 +242,16 @@ func (parse *Parse) readRedoBlockHeader(data []byte) (BlockHeader, error) {
 // There are about 55 redo log type, and every redo log type have different data.
 // We just want get the MLOG_UNDO_INSERT type redo record which store the undo info.
 // But due to the design of redo, we must parse out each type in order.
-func (parse *Parse) parseRedoBlockData(data []byte) error {
+func (parse *Parse) parseRedoBlockData(data []byte) (err error) {
 	var pos uint64
+
+	// A record that is damaged or not complete ends the log.
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("incomplete log record at position %d: %v", pos, r)
+		}
+	}()
+
 	for {
 		if (int64(len(data)) - int64(pos)) < 5 {
 			break
-- 
2.43.0


From 95e62fb075eb3358fd66ad6e3be1fcc113663da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 36/75] fix: do not fill up the incomplete last block or page
 of a file with zeros

---
 recovery/redo/parse.go  | 5 ++++-
 recovery/utils/utils.go | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 5c22ae1..70e6e63 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -90,7 +90,7 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		for {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
-			if err != nil {
+			if err != nil || len(block) < OS_FILE_LOG_BLOCK_SIZE {
 				break
 			}
 
@@ -155,6 +155,9 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	if err != nil {
 		return err
 	}
+	if len(data) < OS_FILE_LOG_BLOCK_SIZE {
+		return fmt.Errorf("the log file header is not complete")
+	}
 
 	logHeaderFormat := utils.MatchReadFrom4(data[pos:])
 	pos += 4
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 01254ce..e38b860 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -209,12 +209,13 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	_, err := file.Read(bytes)
+	n, err := file.Read(bytes)
 	if err != nil {
 		return nil, err
 	}
 
-	return bytes, nil
+	// The last bytes of the file may be fewer than wanted.
+	return bytes[:n], nil
 }
 
 // MatchReadFrom1 ...
-- 
2.43.0


From 0b25fe448fcf1aae09a4d92f8fd1778b275d911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 37/75] fix: do not rely on the creator field of the log header
 to end with a zero byte

---
 recovery/redo/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 70e6e63..6cc2b01 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -168,7 +168,10 @@ func (parse *Parse) readRedoLogFileHeader(file *os.File) error {
 	logHeaderStartLsn := utils.MatchReadFrom8(data[pos:])
 	pos += 8
 
-	creator := data[pos : bytes.IndexByte(data[pos:], 0x00)+pos]
+	creator := data[pos : pos+32]
+	if end := bytes.IndexByte(creator, 0x00); end >= 0 {
+		creator = creator[:end]
+	}
 	pos += 32 // 32 bytes, NULL terminated string, filled with NULL bytes
 
 	checksum := data[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:]
-- 
2.43.0


From f2507308a46e0aed0cbd5cdd72b30de6084dbc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 38/75] fix: end the log file at a block with an impossible
 data length

---
 recovery/redo/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 6cc2b01..bdf5f48 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -101,6 +101,11 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				break
 			}
 
+			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
+				logs.Error("damaged log block, the data length is ", blockHeader.BlockDataLen)
+				break
+			}
+
 			// LOG_BLOCK_TRL_SIZE, for checksum.
 			if blockHeader.BlockDataLen >= OS_FILE_LOG_BLOCK_SIZE {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
-- 
2.43.0


From 3559fb7cef8d3d37fc46d2952c01c84e0ce23cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 39/75] fix: accept the global flags before the subcommand

---
 cmd/db-recovery/command.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 4a038d0..34f675e 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -96,7 +96,8 @@ func NewFromDataFileCommand() *cobra.Command {
 func FromDataFile(cmd *cobra.Command, args []string) {
 
 	// init logger
-	flag.Parse()
+	// The arguments are cobra's, glog only wants its flags to be parsed.
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
@@ -149,7 +150,8 @@ func NewFromRedoFileCommand() *cobra.Command {
 func FromRedoFile(cmd *cobra.Command, args []string) {
 
 	// init logger
-	flag.Parse()
+	// The arguments are cobra's, glog only wants its flags to be parsed.
+	_ = flag.CommandLine.Parse(nil)
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-- 
2.43.0


From 547b87b6a6216d8da037d0785b1548e3933ba59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 40/75] fix: exit with a status and a message when the recovery
 fails

---
 cmd/db-recovery/command.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 34f675e..83dcca9 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -17,6 +17,7 @@ package main
 import (
 	"flag"
 	"fmt"
+	"os"
 	"runtime"
 	"strings"
 
@@ -101,7 +102,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 
 	isRecovery := false
@@ -110,7 +111,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		fmt.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 
 	if OpType == "RecoveryData" {
@@ -120,7 +121,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
 	}
 
 	// flush logs
@@ -155,7 +156,7 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	err := logs.InitLogs(LogPath, LogLevel)
 	if err != nil {
 		fmt.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 
 	p := redo.NewParse(TableName, DBName)
@@ -163,13 +164,14 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
-		return
+		fmt.Println("parse redo failed, error: ", err.Error())
+		os.Exit(1)
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
 		fmt.Println("parse redo failed, error: ", err.Error())
-		return
+		os.Exit(1)
 	}
 
 	// flush logs
-- 
2.43.0


From e1f4fa21a6a43499289bac762a580d9f4e9c7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 41/75] fix: report an error while reading a data file

---
 recovery/ibdata/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 05fbbab..72f16ed 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -17,6 +17,7 @@ package ibdata
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"sort"
 	"strings"
@@ -230,6 +231,10 @@ func (parse *Parse) parseFile(path string) ([]Page, error) {
 	for ; ; position++ {
 		// Read a page from data file.
 		data, err := utils.ReadNextBytes(file, DefaultPageSize)
+		if err != nil && err != io.EOF {
+			logs.Error("read data from file failed, error: ", err.Error())
+			return pages, err
+		}
 		if len(data) < DefaultPageSize {
 			if len(data) != 0 {
 				logs.Warn("next data bytes no more than 1 page, please check DefaultPageSize!")
-- 
2.43.0


From 75bd222bdf2b448f52bb2a87d605f6b6f05b7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 42/75] fix: write the log of a failed recovery to the log
 files

---
 cmd/db-recovery/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/db-recovery/command.go b/cmd/db-recovery/command.go
index 83dcca9..8b3e09d 100644
--- a/cmd/db-recovery/command.go
+++ b/cmd/db-recovery/command.go
@@ -111,6 +111,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDictPage(SysDataFile)
 	if err != nil {
 		fmt.Println(err.Error())
+		logs.FlushLogs()
 		os.Exit(1)
 	}
 
@@ -121,6 +122,7 @@ func FromDataFile(cmd *cobra.Command, args []string) {
 	err = p.ParseDataPage(TableFile, DBName, TableName, isRecovery)
 	if err != nil {
 		fmt.Println(err)
+		logs.FlushLogs()
 		os.Exit(1)
 	}
 
@@ -165,12 +167,14 @@ func FromRedoFile(cmd *cobra.Command, args []string) {
 	if err != nil {
 		logs.Error("parse redo failed, error: ", err.Error())
 		fmt.Println("parse redo failed, error: ", err.Error())
+		logs.FlushLogs()
 		os.Exit(1)
 	}
 
 	err = p.ParseRedoLogs(strings.Split(RedoFile, ","))
 	if err != nil {
 		fmt.Println("parse redo failed, error: ", err.Error())
+		logs.FlushLogs()
 		os.Exit(1)
 	}
 
-- 
2.43.0


From 2b5ef7f82675f84fe48a6009526aed1f9e7f62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 43/75] fix: read whole pages and blocks from pipes

---
 recovery/utils/utils.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index e38b860..d953018 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -19,6 +19,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"math"
 	"os"
@@ -209,8 +210,9 @@ func RecGetNthFieldOffs(offsets []uint64, n int, len *uint64) uint64 {
 func ReadNextBytes(file *os.File, number int) ([]byte, error) {
 	bytes := make([]byte, number)
 
-	n, err := file.Read(bytes)
-	if err != nil {
+	// A pipe may give fewer bytes with one read.
+	n, err := io.ReadFull(file, bytes)
+	if err != nil && err != io.ErrUnexpectedEOF {
 		return nil, err
 	}
 
-- 
2.43.0


From a8ba8178faec34b2f3e739d2b42ba73f3089d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 44/75] fix: keep the fraction of TIME, DATETIME and TIMESTAMP
 values

TIME(n), DATETIME(n) and TIMESTAMP(n) values have one to three more bytes.
They were ignored, so the fraction was lost, and a negative TIME with a
fraction came out one second off.
---
 recovery/utils/utils.go | 46 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d953018..d9ea4e6 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -585,13 +585,22 @@ func ParseData(DataType uint64, MySQLType uint64,
 		switch MySQLType {
 		// TODO: deal with version 2.
 		case MYSQL_TYPE_TIME:
+			if FieldLen > 3 {
+				return ParseTimeFraction(data[:FieldLen]), nil
+			}
 			FormatTime := ParseTime(data)
 			return FormatTime, nil
 		case MYSQL_TYPE_TIMESTAMP:
 			FormatTimeStamp := ParseTimeStamp(data)
+			if FieldLen > 4 {
+				FormatTimeStamp += ParseFraction(data[4:FieldLen])
+			}
 			return FormatTimeStamp, nil
 		case MYSQL_TYPE_DATETIME:
 			FormatDateTime := ParseDateTime(data)
+			if FieldLen > 5 && data[0]&0x80 != 0 {
+				FormatDateTime += ParseFraction(data[5:FieldLen])
+			}
 			return FormatDateTime, nil
 		case MYSQL_TYPE_BIT:
 			// A bit literal is written in binary.
@@ -902,6 +911,43 @@ func ParseTimeStamp(data []byte) string {
 	return tm
 }
 
+// ParseFraction ... the fraction of a second is one, two or three bytes, in
+// units of two, four or six decimals.
+func ParseFraction(data []byte) string {
+	switch len(data) {
+	case 1:
+		return fmt.Sprintf(".%02d", MatchReadFrom1(data))
+	case 2:
+		return fmt.Sprintf(".%04d", MatchReadFrom2(data))
+	case 3:
+		return fmt.Sprintf(".%06d", MatchReadFrom3(data))
+	}
+	return ""
+}
+
+// ParseTimeFraction ... a time with a fraction is one number, so a negative
+// time borrows from the fraction.
+func ParseTimeFraction(data []byte) string {
+	var ltime int64
+	for _, b := range data {
+		ltime = ltime<<8 | int64(b)
+	}
+	shift := uint(8 * (len(data) - 3))
+	ltime -= 0x800000 << shift
+	sign := ""
+	if ltime < 0 {
+		sign = "-"
+		ltime = -ltime
+	}
+
+	fraction := make([]byte, len(data)-3)
+	for i := range fraction {
+		fraction[i] = byte(ltime >> (shift - uint(8*(i+1))))
+	}
+	ltime = (ltime >> shift) | 0x800000
+	return sign + ParseTime([]byte{byte(ltime >> 16), byte(ltime >> 8), byte(ltime)}) + ParseFraction(fraction)
+}
+
 // ParseFloat ...
 func ParseFloat(data []byte) float32 {
 	bits := binary.LittleEndian.Uint32(data[:4])
-- 
2.43.0


From ba9c9b301aa526867603297b23fca9504d3bc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 45/75] fix: read DATETIME and TIMESTAMP columns created before
 5.6

They are integers in the dictionary: TIMESTAMP was printed as seconds since
the epoch, which MySQL does not take for a time, and DATETIME without leading
zeros, which moves years before 1000 and the zero date.
---
 recovery/utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index d9ea4e6..b657a56 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -636,6 +636,15 @@ func ParseData(DataType uint64, MySQLType uint64,
 			}
 			FormatYear := MatchReadFrom1(data) + 1900
 			return FormatYear, nil
+		case MYSQL_TYPE_TIMESTAMP:
+			// The seconds of a table created before 5.6.
+			return ParseTimeStamp(data), nil
+		case MYSQL_TYPE_DATETIME:
+			// The decimal number of a table created before 5.6, a signed
+			// integer and so stored with the sign bit set.
+			number := append([]byte{}, data[:8]...)
+			number[0] &^= 0x80
+			return ParseDateTime(number), nil
 		default:
 			if IsUnsigned {
 				return GetUintValue(FixLength, data[:FieldLen]), nil
-- 
2.43.0


From be4549298a696b6a23234d82aef8687601b3b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 46/75] fix: CHAR of a single byte charset, ucs2 and utf32 has
 a fixed length

InnoDB stores CHAR columns with a length byte only when the characters of
their charset have different lengths. Every charset but latin1_swedish_ci was
taken for such a one, so rows with an ascii, latin1_bin or cp1251 CHAR column
were read from the wrong place.
---
 recovery/ibdata/parse.go |  7 +++++++
 recovery/utils/utils.go  | 21 +++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 72f16ed..e95b722 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -483,6 +483,13 @@ func (parse *Parse) getAllColumns() error {
 				TempFieldLen = c[7].FieldValue.(uint64)
 			}
 
+			// A CHAR column of a charset whose characters all have the same
+			// length is stored with a fixed length in every row format.
+			collation := c[6].FieldValue.(uint64) >> 16 & 0x7FFF
+			if c[5].FieldValue.(uint64) == utils.DATA_MYSQL && utils.IsFixedWidthCollation(collation) {
+				c[5].FieldValue = utils.DATA_CHAR
+			}
+
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index b657a56..efd7be0 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -754,6 +754,27 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 	}
 }
 
+// IsFixedWidthCollation ... the characters of single byte charsets, ucs2 and
+// utf32 all have the same length.
+func IsFixedWidthCollation(collation uint64) bool {
+	switch collation {
+	case 0, 1, 84, // unknown, big5
+		12, 91, // ujis
+		13, 88, // sjis
+		19, 85, // euckr
+		24, 86, // gb2312
+		28, 87, // gbk
+		33, 76, 83, // utf8
+		45, 46, // utf8mb4
+		54, 55, 56, 62, // utf16, utf16le
+		95, 96, // cp932
+		97, 98: // eucjpms
+		return false
+	}
+	// 101..124 is utf16, from 192 on there are utf8, utf8mb4 and gb18030.
+	return collation <= 100 || collation >= 125 && collation <= 191
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From 425b330b52a4c5a1fcfda5ed02d7da12bb567c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 47/75] fix: print ucs2, utf16 and utf32 text as bytes

Their bytes stood raw between the quotes, where MySQL reads them as characters
of the client's charset; padding of CHAR was cut in the middle of a character.
---
 recovery/ibdata/parse.go |  8 ++++++++
 recovery/utils/utils.go  | 22 ++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index e95b722..0938076 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -490,6 +490,14 @@ func (parse *Parse) getAllColumns() error {
 				c[5].FieldValue = utils.DATA_CHAR
 			}
 
+			// No client can send text in these charsets, so print its bytes.
+			switch c[5].FieldValue.(uint64) {
+			case utils.DATA_CHAR, utils.DATA_MYSQL, utils.DATA_VARMYSQL, utils.DATA_BLOB:
+				if utils.IsWideCollation(collation) {
+					IsBinary = true
+				}
+			}
+
 			t.Columns = append(t.Columns,
 				Columns{
 					FieldName: c[4].FieldValue.(string),
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index efd7be0..124e798 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -580,6 +580,9 @@ func ParseData(DataType uint64, MySQLType uint64,
 	case DATA_VARCHAR:
 		return string(data[:FieldLen]), nil
 	case DATA_CHAR:
+		if *IsBinary {
+			return ParseBlob(data[:FieldLen]), nil
+		}
 		return string(data[:FieldLen]), nil
 	case DATA_FIXBINARY:
 		switch MySQLType {
@@ -662,8 +665,14 @@ func ParseData(DataType uint64, MySQLType uint64,
 		// TODO: support
 		logs.Info("the decimal data type, not support.")
 	case DATA_VARMYSQL:
+		if *IsBinary {
+			return ParseBlob(data[:FieldLen]), nil
+		}
 		return string(data[:FieldLen]), nil
 	case DATA_MYSQL:
+		if *IsBinary {
+			return ParseBlob(data[:FieldLen]), nil
+		}
 		// Only the padding of the column is not part of the value.
 		return strings.TrimRight(string(data[:FieldLen]), " "), nil
 	case DATA_BLOB:
@@ -775,6 +784,19 @@ func IsFixedWidthCollation(collation uint64) bool {
 	return collation <= 100 || collation >= 125 && collation <= 191
 }
 
+// IsWideCollation ... the characters of ucs2, utf16, utf16le and utf32 have at
+// least two bytes.
+func IsWideCollation(collation uint64) bool {
+	switch collation {
+	case 35, 90, 159, 54, 55, 56, 62, 60, 61:
+		return true
+	}
+	// utf16, ucs2 and utf32
+	return collation >= 101 && collation <= 124 ||
+		collation >= 128 && collation <= 151 ||
+		collation >= 160 && collation <= 183
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From ae9a0360a451b0b275af1c5212be41e8632d2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 48/75] fix: read the values which are stored on other pages

The row has the start of a long TEXT, BLOB, VARCHAR or VARBINARY value and a
reference of 20 bytes to the pages with the rest; the start and the bytes of
the reference were printed as the value.
---
 recovery/ibdata/const.go | 13 +++++++++
 recovery/ibdata/parse.go | 58 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+)

diff --git a/recovery/ibdata/const.go b/recovery/ibdata/const.go
index d15552b..54ffd57 100644
--- a/recovery/ibdata/const.go
+++ b/recovery/ibdata/const.go
@@ -24,6 +24,19 @@ const DefaultPageSize int = 16384
 // #define FIL_PAGE_INDEX		17855	/*!< B-tree node */
 const FilPageIndex uint64 = 17855
 
+// FilPageTypeBlob ...
+// #define FIL_PAGE_TYPE_BLOB	10	/*!< Uncompressed BLOB page */
+const FilPageTypeBlob uint64 = 10
+
+// FilPageData is where the data of a page starts, after the page file header.
+// #define FIL_PAGE_DATA		38U
+const FilPageData uint64 = 38
+
+// BtrExternFieldRefSize is the size of the reference to the rest of a long value.
+// mysql-5.7.19/storage/innobase/include/btr0types.h
+// #define BTR_EXTERN_FIELD_REF_SIZE	FIELD_REF_SIZE
+const BtrExternFieldRefSize int = 20
+
 // The root page number of the data dictionary.
 // Use it can find the sys tables index root page.
 const (
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 0938076..5a445ce 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -33,6 +33,8 @@ type Parse struct {
 	TableMap map[uint64]Tables
 	// TODO: change to map. store page data.
 	D *sync.Map
+	// The pages of long values in the data file, by page number.
+	blobPages map[uint64][]byte
 }
 
 // NewParse create parse
@@ -170,6 +172,14 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		return err
 	}
 
+	// The pages of long values, the row only has a reference to the first one.
+	parse.blobPages = make(map[uint64][]byte)
+	for _, page := range pages {
+		if page.fh.FIL_PAGE_TYPE == FilPageTypeBlob {
+			parse.blobPages[page.fh.FIL_PAGE_OFFSET] = page.OriginalData
+		}
+	}
+
 	for _, page := range pages {
 
 		logs.Debug("page.fh.FIL_PAGE_TYPE is ", page.fh.FIL_PAGE_TYPE, "page.fh.FIL_PAGE_OFFSET", page.fh.FIL_PAGE_OFFSET)
@@ -991,6 +1001,12 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 			continue
 		}
 
+		// #define REC_OFFS_EXTERNAL	((ulint) 1 << 30)
+		if offsets[3+i]&(1<<30) != 0 {
+			data = parse.readExternField(data[:fieldLen])
+			fieldLen = uint64(len(data))
+		}
+
 		// Parse the page record.
 		value, err := utils.ParseData(columns[i].FieldType, columns[i].MySQLType, data, fieldLen,
 			int(utils.GetFixedLength(columns[i].FieldType, columns[i].FieldLen)),
@@ -1008,6 +1024,48 @@ func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns [
 	return c, dataLen
 }
 
+// readExternField reads a value which is not completely stored in the row: it has the start
+// of the value and a reference to the list of pages which have the rest.
+// Reference mysql-5.7.19/storage/innobase/btr/btr0cur.cc btr_copy_externally_stored_field
+func (parse *Parse) readExternField(data []byte) []byte {
+	if len(data) < BtrExternFieldRefSize {
+		logs.Error("the reference to the rest of the value is too short, len is ", len(data))
+		return data
+	}
+	localLen := len(data) - BtrExternFieldRefSize
+	ref := data[localLen:]
+	value := append([]byte{}, data[:localLen]...)
+
+	pageNo := utils.MatchReadFrom4(ref[4:])
+	offset := utils.MatchReadFrom4(ref[8:])
+	// The two highest bits tell who owns the pages.
+	externLen := utils.MatchReadFrom8(ref[12:]) &^ (3 << 62)
+
+	seen := make(map[uint64]bool)
+	for externLen > 0 {
+		page, ok := parse.blobPages[pageNo]
+		if !ok || seen[pageNo] || offset+8 > uint64(len(page)) {
+			logs.Error("the page of a long value is not found, page number is ", pageNo)
+			break
+		}
+		seen[pageNo] = true
+
+		partLen := utils.MatchReadFrom4(page[offset:])
+		pageNo = utils.MatchReadFrom4(page[offset+4:])
+		part := page[offset+8:]
+		if partLen > externLen || partLen > uint64(len(part)) {
+			logs.Error("the page of a long value is damaged, the part len is ", partLen)
+			break
+		}
+		value = append(value, part[:partLen]...)
+		externLen -= partLen
+
+		// The next pages start with the part.
+		offset = FilPageData
+	}
+	return value
+}
+
 // Make the sys tables column info
 // Reference mysql-5.7.19/storage/innobase/dict/dict0boot.cc
 func (parse *Parse) makeSysTablesColumns() []Columns {
-- 
2.43.0


From bc14c4c392d529d2652aba8cd903306d53387434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 49/75] fix: skip old values on other pages in undo records

The length of such a field is marked with UNIV_EXTERN_STORAGE_FIELD. The
update statement was lost; now it has the columns whose old values are in the
log.
---
 recovery/redo/const.go |  5 +++++
 recovery/redo/mlog.go  | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index 582b462..d30aebe 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -241,6 +241,11 @@ const (
 // storage/innobase/include/univ.i
 const UNIV_SQL_NULL = 0xFFFFFFFF
 
+// UNIV_EXTERN_STORAGE_FIELD marks the length of a field which is stored on other pages.
+// mysql-5.7.19/storage/innobase/include/univ.i
+// #define UNIV_EXTERN_STORAGE_FIELD (UNIV_SQL_NULL - UNIV_PAGE_SIZE_DEF)
+const UNIV_EXTERN_STORAGE_FIELD = UNIV_SQL_NULL - 16384
+
 // Define the Undo record type.
 // Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
 const (
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index abd915d..389494a 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -203,6 +203,27 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			if fLen == UNIV_SQL_NULL {
 				value = nil
 				fLen = 0
+			} else if fLen >= UNIV_EXTERN_STORAGE_FIELD {
+				// The old value is on other pages, the log has only its start and the
+				// reference to the pages, which purge gives back for use by others.
+				if fLen == UNIV_EXTERN_STORAGE_FIELD {
+					// The length in the row and the length in the log.
+					_, num, err = utils.MatchParseCompressed(data, *pos)
+					if err != nil {
+						return err
+					}
+					*pos += num
+					fLen, num, err = utils.MatchParseCompressed(data, *pos)
+					if err != nil {
+						return err
+					}
+					*pos += num
+				} else {
+					fLen -= UNIV_EXTERN_STORAGE_FIELD
+				}
+				logs.Warn("the old value of column ", c.FieldName, " is not in the log")
+				*pos += fLen
+				continue
 			} else if *pos+fLen > uint64(len(data)) {
 				return fmt.Errorf("data is too short")
 			} else {
-- 
2.43.0


From 1af6a3e1fcab6cbdd4beae666f845f53d3b38b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 50/75] fix: tell rows which are deleted but not purged from
 the others

They are still in the list of the rows of the page, with the delete flag. They
were printed as existing rows and RecoveryData did not print them.
---
 recovery/ibdata/parse.go     | 37 ++++++++++++++++++++++++++++++++++++
 recovery/ibdata/structure.go |  2 ++
 2 files changed, 39 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 5a445ce..b0e8df1 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -186,6 +186,17 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 
 		parse.parsePageHeader(&page)
 
+		isDataLeaf := page.fh.FIL_PAGE_TYPE == FilPageIndex &&
+			page.ph.PAGE_LEVEL == uint64(0) &&
+			page.ph.PAGE_MAX_TRX_ID == uint64(0)
+
+		if isRecovery && isDataLeaf {
+			// A row which is deleted but not purged is still in the list of the rows.
+			allColumns := parse.parsePage(page.OriginalData, len(page.OriginalData)-len(page.data),
+				fields, false, page.ph.PAGE_FREE)
+			parse.makeReplaceIntoStatement(parse.selectRows(allColumns, true), tableName, dbName)
+		}
+
 		if isRecovery {
 			// If page have delete data, the page free and garbage should not be zero.
 			if page.ph.PAGE_N_RECS == uint64(0) && page.ph.PAGE_FREE == uint64(0) {
@@ -211,6 +222,9 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			!(isRecovery && page.ph.PAGE_FREE == 0) {
 			allColumns := parse.parsePage(page.OriginalData, len(page.OriginalData)-len(page.data),
 				fields, isRecovery, page.ph.PAGE_FREE)
+			if !isRecovery {
+				allColumns = parse.selectRows(allColumns, false)
+			}
 			if len(allColumns) == 0 {
 				logs.Info("have no data")
 				continue
@@ -954,6 +968,7 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 			}
 
 			c, _ = parse.parseRecords(data, origin, offsets, columns)
+			c[0].IsDeleted = parse.isDeletedRecord(data, offset)
 			totalLen += utils.RecOffsSize(&offsets)
 			allColumns = append(allColumns, c)
 
@@ -987,6 +1002,28 @@ func (parse *Parse) parsePage(data []byte, pos int, columns []Columns, isRecover
 	return allColumns
 }
 
+// isDeletedRecord tells whether a record is deleted. It stays in its list until it is purged.
+func (parse *Parse) isDeletedRecord(data []byte, offset uint64) bool {
+	// #define REC_OLD_INFO_BITS	6
+	infoBits := data[offset-6]
+	if utils.PageIsCompact(data) != 0 {
+		// #define REC_NEW_INFO_BITS	5
+		infoBits = data[offset-5]
+	}
+	// #define REC_INFO_DELETED_FLAG	0x20UL
+	return infoBits&0x20 != 0
+}
+
+// selectRows returns the rows which are deleted or those which are not.
+func (parse *Parse) selectRows(allColumns [][]Columns, isDeleted bool) (rows [][]Columns) {
+	for _, columns := range allColumns {
+		if columns[0].IsDeleted == isDeleted {
+			rows = append(rows, columns)
+		}
+	}
+	return rows
+}
+
 // Parse cluster index leaf page records, it corresponds to a row of data in the table.
 // Reference https://dev.mysql.com/doc/internals/en/innodb-overview.html
 func (parse *Parse) parseRecords(d []byte, o []byte, offsets []uint64, columns []Columns) ([]Columns, uint64) {
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 9c1ad6a..680791a 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -37,6 +37,8 @@ type Columns struct {
 	IsBinary   bool
 	IsUnsigned bool
 	TableID    uint64
+	// The row of the value is deleted, set in the first column.
+	IsDeleted bool
 }
 
 // Indexes store the table index info.
-- 
2.43.0


From 6d9bcf5efe630e5eb9119477fa41daa3fe817629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 51/75] fix: tell deleted dictionary rows from the others

Rows of renamed and dropped tables and of dropped indexes stay delete-marked
in the dictionary until they are purged.
---
 recovery/ibdata/parse.go     | 16 ++++++++++++++++
 recovery/ibdata/structure.go |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index b0e8df1..9c7431f 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -469,6 +469,10 @@ func (parse *Parse) getAllColumns() error {
 	for _, c := range AllPageColumns {
 
 		v, ok := parse.TableMap[c[0].FieldValue.(uint64)]
+		if ok && c[0].IsDeleted && !v.IsDeleted {
+			// An old row of the table.
+			continue
+		}
 		if ok {
 			t := v
 
@@ -566,6 +570,10 @@ func (parse *Parse) getAllIndexes() error {
 	for _, columns := range allPageColumns {
 		var index map[uint64]Indexes
 		v, ok := parse.TableMap[columns[0].FieldValue.(uint64)]
+		if columns[0].IsDeleted && !(ok && v.IsDeleted) {
+			// A dropped index, or an index of a dropped table.
+			continue
+		}
 		if ok {
 			t := v
 
@@ -681,11 +689,19 @@ func (parse *Parse) getAllTables() error {
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
+
+			// The row with the name a table had before it was renamed is deleted.
+			t, ok := parse.TableMap[columns[3].FieldValue.(uint64)]
+			if ok && columns[0].IsDeleted && !t.IsDeleted {
+				continue
+			}
+
 			parse.TableMap[columns[3].FieldValue.(uint64)] =
 				Tables{
 					DBName:    databaseName,
 					TableName: tableName,
 					NullCount: 0,
+					IsDeleted: columns[0].IsDeleted,
 					SpaceId:   columns[9].FieldValue.(uint64)}
 		}
 	}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index 680791a..a32596e 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -22,6 +22,8 @@ type Tables struct {
 	Indexes   map[uint64]Indexes
 	NullCount int
 	SpaceId   uint64
+	// The table was dropped, its dictionary rows are not purged yet.
+	IsDeleted bool
 }
 
 // Columns store the table columns info.
-- 
2.43.0


From cfcd1ebb2986147f2dc33201450a08f70d71b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 52/75] fix: do not fail the dictionary for a table whose
 columns are not found

---
 recovery/ibdata/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 9c7431f..b23aea4 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -398,6 +398,10 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 func (parse *Parse) addInternalColumns() {
 	for tableID, table := range parse.TableMap {
 		for _, idx := range table.Indexes {
+			if idx.IsClusterKey() && idx.FieldNum > uint64(len(table.Columns)) {
+				logs.Error("the columns of table ", table.TableName, " are not found")
+				continue
+			}
 			if idx.IsClusterKey() {
 				// primary key exists, add DB_TRX_ID, DB_ROLL_PTR after primary field.
 				TrxColumns := parse.addInternalColumn("DB_TRX_ID", tableID, idx.FieldNum)
-- 
2.43.0


From 8edbc8e129b4b3c93991dc0d6a7178821ddf0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 53/75] fix: forget the tables of the dictionary read before

---
 recovery/ibdata/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index b23aea4..3502ccb 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -56,6 +56,11 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 		}
 	}()
 
+	// The tables of a dictionary that was read before are not in this one.
+	for tableID := range parse.TableMap {
+		delete(parse.TableMap, tableID)
+	}
+
 	pages, err := parse.parseFile(path)
 	if err != nil {
 		logs.Error("parse system data file failed, error: ", err.Error())
-- 
2.43.0


From 374b341e7957ccf31247cb566f7ab82729df3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 54/75] fix: do not print a line for each decimal value

The output is SQL statements.
---
 recovery/utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 124e798..c375f62 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -610,7 +610,7 @@ func ParseData(DataType uint64, MySQLType uint64,
 			return strconv.FormatUint(GetUintValue(FixLength, data[:FieldLen]), 2), nil
 		case MYSQL_TYPE_NEWDECIMAL:
 			// TODO: support it.
-			fmt.Println("test MYSQL_TYPE_NEWDECIMAL")
+			logs.Warn("the decimal data type, not support.")
 		case MYSQL_TYPE_STRING:
 			*IsBinary = true
 			return ParseBlob(data[:FieldLen]), nil
-- 
2.43.0


From f0f5d4241d4cf2c05e095689e35e0e244251b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 55/75] fix: read the geometry columns of 5.7

They are not fixed length columns.
---
 recovery/ibdata/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 3502ccb..6de0fea 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -507,6 +507,12 @@ func (parse *Parse) getAllColumns() error {
 			// mysql-5.7.19/storage/innobase/include/data0type.ic
 			MySQLType = c[6].FieldValue.(uint64) & 0xFF
 
+			// #define DATA_GEOMETRY	14
+			if c[5].FieldValue.(uint64) == 14 {
+				// It is stored like a blob, and was one before 5.7.
+				c[5].FieldValue = utils.DATA_BLOB
+			}
+
 			IsBinary := false
 			if c[5].FieldValue.(uint64) == utils.DATA_BLOB {
 				if (c[6].FieldValue.(uint64) & 1024) != 0 {
-- 
2.43.0


From e08dd528d74fdea115834f3dd157a7c913e02e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 56/75] fix: leave the hidden FTS_DOC_ID column out of the
 statements

---
 recovery/ibdata/format.go    | 2 +-
 recovery/ibdata/parse.go     | 7 ++++++-
 recovery/ibdata/structure.go | 2 ++
 recovery/redo/mlog.go        | 4 +++-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 2d4b483..adda9fa 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -29,7 +29,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			// Skip internal field.
 			if column.FieldName == "DB_ROW_ID" ||
 				column.FieldName == "DB_TRX_ID" ||
-				column.FieldName == "DB_ROLL_PTR" {
+				column.FieldName == "DB_ROLL_PTR" || column.IsHidden {
 				continue
 			}
 
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 6de0fea..44ebf27 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -513,6 +513,10 @@ func (parse *Parse) getAllColumns() error {
 				c[5].FieldValue = utils.DATA_BLOB
 			}
 
+			// #define DATA_FTS_DOC_ID	3
+			// A column of the user with this name is a bigint.
+			IsHidden := c[4].FieldValue.(string) == "FTS_DOC_ID" && MySQLType == 3
+
 			IsBinary := false
 			if c[5].FieldValue.(uint64) == utils.DATA_BLOB {
 				if (c[6].FieldValue.(uint64) & 1024) != 0 {
@@ -551,7 +555,8 @@ func (parse *Parse) getAllColumns() error {
 					MaxLen:    c[7].FieldValue.(uint64),
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
-					IsBinary: IsBinary})
+					IsBinary: IsBinary,
+					IsHidden: IsHidden})
 
 			parse.TableMap[c[0].FieldValue.(uint64)] = t
 		}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index a32596e..d8ff2f3 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -41,6 +41,8 @@ type Columns struct {
 	TableID    uint64
 	// The row of the value is deleted, set in the first column.
 	IsDeleted bool
+	// InnoDB added the column, the user does not know it.
+	IsHidden bool
 }
 
 // Indexes store the table index info.
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 389494a..35142fd 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -236,7 +236,9 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			}
 
 			c.FieldValue = value
-			columns = append(columns, c)
+			if !c.IsHidden {
+				columns = append(columns, c)
+			}
 			*pos += fLen
 
 			logs.Debug("values is ", value)
-- 
2.43.0


From 15f34e3af9cd13182fc67047561b76ced6f8ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 57/75] fix: read the rows of tables with virtual columns

Virtual columns are in the dictionary, but not in the rows.
---
 recovery/ibdata/format.go    | 29 ++++++++++++++++++++++++++++-
 recovery/ibdata/parse.go     | 17 +++++++++++++++++
 recovery/ibdata/structure.go |  4 ++++
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index adda9fa..891ccef 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -24,7 +24,7 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
 		firstCol := true
 
-		for _, column := range columns {
+		for _, column := range parse.addVirtualColumns(columns) {
 
 			// Skip internal field.
 			if column.FieldName == "DB_ROW_ID" ||
@@ -39,6 +39,12 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				buf.WriteByte(',')
 			}
 
+			if column.IsVirtual {
+				// The server computes the value.
+				buf.WriteString("DEFAULT")
+				continue
+			}
+
 			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil {
 				buf.WriteString("b")
 			}
@@ -72,3 +78,24 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 	}
 
 }
+
+// addVirtualColumns puts the virtual columns of the table at their places between the columns of the row.
+func (parse *Parse) addVirtualColumns(columns []Columns) []Columns {
+	virtualColumns := parse.TableMap[columns[0].TableID].VirtualColumns
+	var all []Columns
+	var pos uint64
+	for _, column := range columns {
+		isInternal := column.FieldName == "DB_ROW_ID" ||
+			column.FieldName == "DB_TRX_ID" || column.FieldName == "DB_ROLL_PTR"
+		for !isInternal && len(virtualColumns) > 0 && virtualColumns[0].FieldPos <= pos {
+			all = append(all, virtualColumns[0])
+			virtualColumns = virtualColumns[1:]
+			pos++
+		}
+		all = append(all, column)
+		if !isInternal {
+			pos++
+		}
+	}
+	return append(all, virtualColumns...)
+}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 44ebf27..10544c6 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -353,6 +353,10 @@ func (parse *Parse) parseFilHeader(data []byte) (Page, error) {
 // // TODO: why some table fields is not sort?
 func (parse *Parse) sortColumns() {
 	for _, table := range parse.TableMap {
+		virtualColumns := table.VirtualColumns
+		sort.SliceStable(virtualColumns, func(i, j int) bool {
+			return virtualColumns[i].FieldPos < virtualColumns[j].FieldPos
+		})
 		columns := table.Columns
 		sort.SliceStable(columns, func(i, j int) bool {
 			return columns[i].FieldPos < columns[j].FieldPos
@@ -485,6 +489,19 @@ func (parse *Parse) getAllColumns() error {
 		if ok {
 			t := v
 
+			// #define DATA_VIRTUAL	8192
+			if c[6].FieldValue.(uint64)&8192 != 0 {
+				// The row does not have it. The low bytes are the position in the table.
+				t.VirtualColumns = append(t.VirtualColumns,
+					Columns{
+						FieldName: c[4].FieldValue.(string),
+						FieldPos:  c[1].FieldValue.(uint64) & 0xFFFF,
+						TableID:   c[0].FieldValue.(uint64),
+						IsVirtual: true})
+				parse.TableMap[c[0].FieldValue.(uint64)] = t
+				continue
+			}
+
 			IsNull := false
 			IsUnsigned := false
 			var MySQLType uint64
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index d8ff2f3..f9ea1a2 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -24,6 +24,8 @@ type Tables struct {
 	SpaceId   uint64
 	// The table was dropped, its dictionary rows are not purged yet.
 	IsDeleted bool
+	// The generated columns which are not stored in the rows.
+	VirtualColumns []Columns
 }
 
 // Columns store the table columns info.
@@ -41,6 +43,8 @@ type Columns struct {
 	TableID    uint64
 	// The row of the value is deleted, set in the first column.
 	IsDeleted bool
+	// A generated column which is not stored, the position is that in the table.
+	IsVirtual bool
 	// InnoDB added the column, the user does not know it.
 	IsHidden bool
 }
-- 
2.43.0


From 3f6aa06ba912744c1a5ba30f1d245c7b5a597d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 58/75] fix: pass over virtual columns in undo records

---
 recovery/redo/const.go |  9 +++++++++
 recovery/redo/mlog.go  | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/recovery/redo/const.go b/recovery/redo/const.go
index d30aebe..2ec5765 100644
--- a/recovery/redo/const.go
+++ b/recovery/redo/const.go
@@ -246,6 +246,15 @@ const UNIV_SQL_NULL = 0xFFFFFFFF
 // #define UNIV_EXTERN_STORAGE_FIELD (UNIV_SQL_NULL - UNIV_PAGE_SIZE_DEF)
 const UNIV_EXTERN_STORAGE_FIELD = UNIV_SQL_NULL - 16384
 
+// REC_MAX_N_FIELDS is added to the position of a virtual column.
+// mysql-5.7.19/storage/innobase/include/rem0types.h
+// #define REC_MAX_N_FIELDS	(1024 - 1)
+const REC_MAX_N_FIELDS = 1024 - 1
+
+// VIRTUAL_COL_UNDO_FORMAT_1 marks virtual columns that are logged with their places in the indexes.
+// mysql-5.7.19/storage/innobase/include/trx0rec.h
+const VIRTUAL_COL_UNDO_FORMAT_1 = 0xF1
+
 // Define the Undo record type.
 // Reference mysql-5.7.19/storage/innobase/include/trx0rec.h
 const (
diff --git a/recovery/redo/mlog.go b/recovery/redo/mlog.go
index 35142fd..b17f91e 100644
--- a/recovery/redo/mlog.go
+++ b/recovery/redo/mlog.go
@@ -181,6 +181,8 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 		*pos += num
 
 		var i uint64
+		hasVirtual := false
+		hasIndexPos := false
 		for i = 0; i < columnNum; i++ {
 			Pos, num, err := utils.MatchParseCompressed(data, *pos)
 			if err != nil {
@@ -190,6 +192,32 @@ func (parse *Parse) mlogUndoInsert(data []byte, pos *uint64) error {
 			logs.Debug("Pos is ", Pos, " num is ", num)
 			*pos += num
 
+			if Pos >= REC_MAX_N_FIELDS {
+				// The first virtual column has a mark in front if they have their
+				// places in the indexes. Old and new value follow.
+				if !hasVirtual {
+					hasVirtual = true
+					hasIndexPos = utils.MatchReadFrom1(data[*pos:]) == VIRTUAL_COL_UNDO_FORMAT_1
+					if hasIndexPos {
+						*pos++
+					}
+				}
+				if hasIndexPos {
+					*pos += utils.MatchReadFrom2(data[*pos:])
+				}
+				for j := 0; j < 2; j++ {
+					fLen, num, err := utils.MatchParseCompressed(data, *pos)
+					if err != nil {
+						return err
+					}
+					*pos += num
+					if fLen != UNIV_SQL_NULL {
+						*pos += fLen
+					}
+				}
+				continue
+			}
+
 			c, err := parse.getColumnByPos(Table, Pos)
 			if err != nil {
 				return err
-- 
2.43.0


From 9150ccce77cf71e5b49c30f993631f61c2ae432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 59/75] fix: quote names that contain backticks

---
 recovery/ibdata/format.go |  3 ++-
 recovery/redo/parse.go    | 10 +++++-----
 recovery/utils/utils.go   |  5 +++++
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 891ccef..2541517 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -21,7 +21,8 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 			return columns[i].FieldPos < columns[j].FieldPos
 		})
 
-		buf.WriteString(fmt.Sprintf("replace into `%s`.`%s` values (", database, table))
+		buf.WriteString(fmt.Sprintf("replace into %s.%s values (",
+			utils.QuoteName(database), utils.QuoteName(table)))
 		firstCol := true
 
 		for _, column := range parse.addVirtualColumns(columns) {
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index bdf5f48..012d3b9 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -569,9 +569,9 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	for i, c := range columns {
 		var SetValue string
 		if c.FieldValue != nil {
-			SetValue = fmt.Sprintf("`%s`=%s", c.FieldName, parse.makeLiteral(*c, c.FieldValue))
+			SetValue = fmt.Sprintf("%s=%s", utils.QuoteName(c.FieldName), parse.makeLiteral(*c, c.FieldValue))
 		} else {
-			SetValue = fmt.Sprintf("`%s`=NULL", c.FieldName)
+			SetValue = fmt.Sprintf("%s=NULL", utils.QuoteName(c.FieldName))
 		}
 		if i == (len(columns) - 1) {
 			SetValues += SetValue
@@ -583,7 +583,7 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("`%s`=%s", v.ColumnName,
+		whereCondition := fmt.Sprintf("%s=%s", utils.QuoteName(v.ColumnName),
 			parse.makeLiteral(parse.getColumnsByName(table, v.ColumnName), v.ColumnValue))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
@@ -592,8 +592,8 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		}
 	}
 
-	query := fmt.Sprintf("update `%s`.`%s` set %s where %s;", table.DBName,
-		table.TableName, SetValues, whereConditions)
+	query := fmt.Sprintf("update %s.%s set %s where %s;", utils.QuoteName(table.DBName),
+		utils.QuoteName(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
 	fmt.Println(query)
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index c375f62..4579fe3 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -1055,6 +1055,11 @@ func EscapeValue(colValue string) string {
 	return colBuffer.String()
 }
 
+// QuoteName quotes the name of a database, table or column.
+func QuoteName(name string) string {
+	return "`" + strings.Replace(name, "`", "``", -1) + "`"
+}
+
 // GetFilesFromOS ...
 func GetFilesFromOS(FilePath string) ([]string, error) {
 	c := fmt.Sprintf("ls -lrt %s|grep ibd|awk '{print $9}'|awk -F '.' '{print $1}'", FilePath)
-- 
2.43.0


From b21d852921f9265101f89790fa2cd3e61b9c763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 60/75] fix: decode the names of databases and tables

The dictionary has them in the form of file names.
---
 recovery/ibdata/parse.go |  2 ++
 recovery/utils/utils.go  | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 10544c6..b16e005 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -726,6 +726,8 @@ func (parse *Parse) getAllTables() error {
 			} else {
 				tableName = columns[0].FieldValue.(string)
 			}
+			databaseName = utils.DecodeName(databaseName)
+			tableName = utils.DecodeName(tableName)
 
 			// The row with the name a table had before it was renamed is deleted.
 			t, ok := parse.TableMap[columns[3].FieldValue.(uint64)]
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 4579fe3..968b7d6 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -1060,6 +1060,26 @@ func QuoteName(name string) string {
 	return "`" + strings.Replace(name, "`", "``", -1) + "`"
 }
 
+// DecodeName returns the name of a database or table, which the dictionary has in the
+// form of a file name: other characters than letters, digits and underscores are
+// written as @ and their code.
+func DecodeName(name string) string {
+	var buf strings.Builder
+	for len(name) > 0 {
+		if name[0] == '@' && len(name) > 4 {
+			code, err := strconv.ParseUint(name[1:5], 16, 16)
+			if err == nil {
+				buf.WriteRune(rune(code))
+				name = name[5:]
+				continue
+			}
+		}
+		buf.WriteByte(name[0])
+		name = name[1:]
+	}
+	return buf.String()
+}
+
 // GetFilesFromOS ...
 func GetFilesFromOS(FilePath string) ([]string, error) {
 	c := fmt.Sprintf("ls -lrt %s|grep ibd|awk '{print $9}'|awk -F '.' '{print $1}'", FilePath)
-- 
2.43.0


From b14b63cf6220b880bf1443e28e01ee265e489f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 61/75] fix: read redo logs that wrapped from their oldest
 block on

---
 recovery/redo/parse.go     | 61 ++++++++++++++++++++++++++++++++------
 recovery/redo/structure.go |  7 +++++
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 012d3b9..c898c91 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -68,7 +68,8 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 //	* https://dev.mysql.com/doc/dev/mysql-server/8.0.11/PAGE_INNODB_REDO_LOG_FORMAT.html
 //	* http://mysql.taobao.org/monthly/2017/09/07/
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
-	var data []byte
+	var blocks []logBlock
+	var slots uint32
 	for _, LogFile := range logFileList {
 		file, err := os.Open(LogFile)
 		if err != nil {
@@ -87,7 +88,7 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 		}
 
 		// parse left redo log block
-		for {
+		for ; ; slots++ {
 			// when parsing the redo log file, record the read position.
 			block, err := utils.ReadNextBytes(file, OS_FILE_LOG_BLOCK_SIZE)
 			if err != nil || len(block) < OS_FILE_LOG_BLOCK_SIZE {
@@ -98,12 +99,12 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			// The redo block consists of redo log blockHeader and redo log data.
 			blockHeader, err := parse.readRedoBlockHeader(block)
 			if err != nil || blockHeader.BlockDataLen == 0 {
-				break
+				continue
 			}
 
 			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
 				logs.Error("damaged log block, the data length is ", blockHeader.BlockDataLen)
-				break
+				continue
 			}
 
 			// LOG_BLOCK_TRL_SIZE, for checksum.
@@ -112,17 +113,59 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			}
 
 			// Add all redo block data.
-			data = append(data, block[LOG_BLOCK_HDR_SIZE:blockHeader.BlockDataLen]...)
+			blocks = append(blocks, logBlock{header: blockHeader, slot: slots, data: block[:blockHeader.BlockDataLen]})
 		}
 		file.Close()
 	}
 
 	// Start parse redo log data.
-	err := parse.parseRedoBlockData(data)
-	if err != nil {
-		logs.Error("parse redo block data failed, error: ", err.Error())
+	var firstErr error
+	for _, data := range joinLogBlocks(blocks, slots) {
+		err := parse.parseRedoBlockData(data)
+		if err != nil {
+			logs.Error("parse redo block data failed, error: ", err.Error())
+			if firstErr == nil {
+				firstErr = err
+			}
+		}
 	}
-	return err
+	return firstErr
+}
+
+// joinLogBlocks puts the blocks in the order they were written and joins their data, anew
+// behind each place where blocks are missing. The files are written in a circle, so when
+// the log is longer than the files the oldest block follows the newest one.
+func joinLogBlocks(blocks []logBlock, slots uint32) [][]byte {
+	// The number of a block less its place is the same on one round. Numbers have 30 bits.
+	oldest := 0
+	isRoundBefore := func(old, new logBlock) bool {
+		return (new.header.BlockNumber-new.slot-old.header.BlockNumber+old.slot)&0x3FFFFFFF == slots
+	}
+	for i := 1; i < len(blocks); i++ {
+		if isRoundBefore(blocks[i], blocks[i-1]) && isRoundBefore(blocks[len(blocks)-1], blocks[0]) {
+			oldest = i
+		}
+	}
+
+	var all [][]byte
+	var last *logBlock
+	for i := range blocks {
+		block := &blocks[(oldest+i)%len(blocks)]
+		if last != nil && (last.slot+1)%slots == block.slot && len(last.data) == OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE {
+			all[len(all)-1] = append(all[len(all)-1], block.data[LOG_BLOCK_HDR_SIZE:]...)
+			last = block
+			continue
+		}
+
+		// The start of the first records of the block may be missing.
+		last = nil
+		first := int(block.header.FirstRecOffset)
+		if first >= LOG_BLOCK_HDR_SIZE && first <= len(block.data) {
+			all = append(all, append([]byte{}, block.data[first:]...))
+			last = block
+		}
+	}
+	return all
 }
 
 //	storage/innobase/include/log0log.ic
diff --git a/recovery/redo/structure.go b/recovery/redo/structure.go
index 10a8e64..be03111 100644
--- a/recovery/redo/structure.go
+++ b/recovery/redo/structure.go
@@ -87,3 +87,10 @@ type BlockHeader struct {
 	FirstRecOffset uint16
 	CheckpointNum  uint32
 }
+
+// logBlock is a block with data and its place in the files.
+type logBlock struct {
+	header BlockHeader
+	slot   uint32
+	data   []byte
+}
-- 
2.43.0


From 98673cdc8559aaa8871b38393d89a51473611fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 62/75] fix: read rows of tables keyed by the start of a column

---
 recovery/ibdata/format.go    |  2 +-
 recovery/ibdata/parse.go     | 20 +++++++++++++++++++-
 recovery/ibdata/structure.go |  3 +++
 recovery/utils/utils.go      | 34 ++++++++++++++++++++++++++++++++++
 4 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 2541517..13b73b0 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -87,7 +87,7 @@ func (parse *Parse) addVirtualColumns(columns []Columns) []Columns {
 	var pos uint64
 	for _, column := range columns {
 		isInternal := column.FieldName == "DB_ROW_ID" ||
-			column.FieldName == "DB_TRX_ID" || column.FieldName == "DB_ROLL_PTR"
+			column.FieldName == "DB_TRX_ID" || column.FieldName == "DB_ROLL_PTR" || column.IsHidden
 		for !isInternal && len(virtualColumns) > 0 && virtualColumns[0].FieldPos <= pos {
 			all = append(all, virtualColumns[0])
 			virtualColumns = virtualColumns[1:]
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index b16e005..fbbcb16 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -366,6 +366,12 @@ func (parse *Parse) sortColumns() {
 			sort.SliceStable(fields, func(i, j int) bool {
 				return fields[i].ColumnPos < fields[j].ColumnPos
 			})
+			for i, field := range fields {
+				// dict_process_sys_fields_rec: in an index of prefixes the low bytes are the length.
+				if i == 0 && field.ColumnPos > 0 || field.ColumnPos > 0xFFFF {
+					field.PrefixLen = field.ColumnPos & 0xFFFF
+				}
+			}
 		}
 	}
 }
@@ -392,6 +398,16 @@ func (parse *Parse) moveColumns2First(fields []*Fields, columns []Columns) []Col
 		for i := 0; i < len(rest); i++ {
 			if field.ColumnName == rest[i].FieldName {
 				first = append(first, rest[i])
+				if field.PrefixLen > 0 {
+					// The key has a copy of the start of the column.
+					prefix := &first[len(first)-1]
+					prefix.IsHidden = true
+					if prefix.FieldLen > field.PrefixLen {
+						prefix.FieldLen = field.PrefixLen
+					}
+					field.PrefixNum = field.PrefixLen / prefix.MaxCharLen
+					break
+				}
 				rest = append(rest[:i], rest[i+1:]...)
 				break
 			}
@@ -573,7 +589,9 @@ func (parse *Parse) getAllColumns() error {
 					IsNUll:    IsNull, IsUnsigned: IsUnsigned,
 					TableID:  c[0].FieldValue.(uint64),
 					IsBinary: IsBinary,
-					IsHidden: IsHidden})
+					IsHidden: IsHidden,
+					// The length of key prefixes is in bytes.
+					MaxCharLen: utils.MaxCharLen(collation)})
 
 			parse.TableMap[c[0].FieldValue.(uint64)] = t
 		}
diff --git a/recovery/ibdata/structure.go b/recovery/ibdata/structure.go
index f9ea1a2..99e74d0 100644
--- a/recovery/ibdata/structure.go
+++ b/recovery/ibdata/structure.go
@@ -36,6 +36,7 @@ type Columns struct {
 	FieldPos   uint64
 	FieldLen   uint64
 	MaxLen     uint64
+	MaxCharLen uint64
 	FieldValue interface{}
 	IsNUll     bool
 	IsBinary   bool
@@ -69,6 +70,8 @@ func (idx Indexes) IsClusterKey() bool {
 type Fields struct {
 	ColumnPos  uint64
 	ColumnName string
+	PrefixLen  uint64 // bytes of the column in the index, 0: all
+	PrefixNum  uint64 // characters of them
 	//ColumnType  uint64
 	ColumnValue interface{}
 }
diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 968b7d6..9a173e9 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -797,6 +797,40 @@ func IsWideCollation(collation uint64) bool {
 		collation >= 160 && collation <= 183
 }
 
+// MaxCharLen returns how many bytes a character has at most.
+func MaxCharLen(collation uint64) uint64 {
+	switch collation {
+	case 1, 84, // big5
+		13, 88, // sjis
+		19, 85, // euckr
+		24, 86, // gb2312
+		28, 87, // gbk
+		35, 90, 159, // ucs2
+		95, 96: // cp932
+		return 2
+	case 12, 91, // ujis
+		97, 98, // eucjpms
+		33, 76, 83, 223: // utf8
+		return 3
+	case 45, 46, 255, // utf8mb4
+		54, 55, 56, 62, // utf16, utf16le
+		60, 61, // utf32
+		248, 249, 250: // gb18030
+		return 4
+	}
+	switch {
+	case collation >= 128 && collation <= 151: // ucs2
+		return 2
+	case collation >= 192 && collation <= 215: // utf8
+		return 3
+	case collation >= 101 && collation <= 124, // utf16
+		collation >= 160 && collation <= 183, // utf32
+		collation >= 224 && collation <= 247: // utf8mb4
+		return 4
+	}
+	return 1
+}
+
 // GetMaxLength ...
 func GetMaxLength(MySQLType uint64) {
 	// TODO: impl
-- 
2.43.0


From 745df965231a9762e84b74280922d39c6f11ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 63/75] fix: compare the start of a column with the key of an
 update

---
 recovery/redo/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index c898c91..f27781e 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -626,7 +626,11 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 	var whereConditions string
 
 	for j, v := range primaryColumns {
-		whereCondition := fmt.Sprintf("%s=%s", utils.QuoteName(v.ColumnName),
+		columnName := utils.QuoteName(v.ColumnName)
+		if v.PrefixLen > 0 {
+			columnName = fmt.Sprintf("left(%s,%d)", columnName, v.PrefixNum)
+		}
+		whereCondition := fmt.Sprintf("%s=%s", columnName,
 			parse.makeLiteral(parse.getColumnsByName(table, v.ColumnName), v.ColumnValue))
 		if j == (len(primaryColumns) - 1) {
 			whereConditions += whereCondition
-- 
2.43.0


From f9636ed08cc63b7973cfc78db87884a4228beeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 64/75] fix: read the DECIMAL of tables created before 5.0

---
 recovery/utils/utils.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 9a173e9..7a68247 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -662,8 +662,8 @@ func ParseData(DataType uint64, MySQLType uint64,
 		return FormatDouble, nil
 
 	case DATA_DECIMAL:
-		// TODO: support
-		logs.Info("the decimal data type, not support.")
+		// The DECIMAL of before 5.0 is stored as text.
+		return strings.Trim(string(data[:FieldLen]), " "), nil
 	case DATA_VARMYSQL:
 		if *IsBinary {
 			return ParseBlob(data[:FieldLen]), nil
@@ -747,7 +747,8 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 	//case DATA_SYS:
 	//case DATA_FLOAT:
 	//case DATA_DOUBLE:
-	//case DATA_DECIMAL:
+	case DATA_DECIMAL:
+		return 0
 	case DATA_VARMYSQL:
 		return 0
 	//return FieldLen / 3
-- 
2.43.0


From 19ad31fc666064517754da8fb80063520ad919a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 65/75] fix: read CHAR columns of more than 768 bytes with the
 length they have

---
 recovery/utils/utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 7a68247..5b76e3c 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -758,6 +758,12 @@ func GetFixedLength(DataType uint64, FieldLen uint64) uint64 {
 		return 0
 	case DATA_BINARY:
 		return FieldLen
+	case DATA_CHAR:
+		if FieldLen > 768 {
+			// DICT_MAX_FIXED_COL_LEN: it has a length like a variable length column.
+			return 0
+		}
+		return FieldLen
 	//case DATA_MTYPE_MAX:
 	default:
 		return FieldLen
-- 
2.43.0


From 70ef20d43c362c2f911dde9b7db265bb1ac0b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 66/75] fix: do not join a redo log block to one of another
 round

When a crash tears a write, a block of an earlier round may still stand between
the new ones. Its bytes were read as the rest of a record of the block before.
---
 recovery/redo/parse.go     | 27 ++++++++++++++++++++-------
 recovery/redo/structure.go |  1 +
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index f27781e..29e0d4f 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -16,7 +16,9 @@ package redo
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
+	"hash/crc32"
 	"os"
 
 	"github.com/zbdba/db-recovery/recovery/ibdata"
@@ -112,8 +114,11 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				blockHeader.BlockDataLen -= LOG_BLOCK_TRL_SIZE
 			}
 
+			sum := crc32.Checksum(block[:OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE], crc32.MakeTable(crc32.Castagnoli))
+			intact := sum == binary.BigEndian.Uint32(block[OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE:])
+
 			// Add all redo block data.
-			blocks = append(blocks, logBlock{header: blockHeader, slot: slots, data: block[:blockHeader.BlockDataLen]})
+			blocks = append(blocks, logBlock{header: blockHeader, slot: slots, data: block[:blockHeader.BlockDataLen], intact: intact})
 		}
 		file.Close()
 	}
@@ -138,20 +143,28 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 func joinLogBlocks(blocks []logBlock, slots uint32) [][]byte {
 	// The number of a block less its place is the same on one round. Numbers have 30 bits.
 	oldest := 0
-	isRoundBefore := func(old, new logBlock) bool {
-		return (new.header.BlockNumber-new.slot-old.header.BlockNumber+old.slot)&0x3FFFFFFF == slots
+	round := func(i int) uint32 {
+		return (blocks[i].header.BlockNumber - blocks[i].slot) & 0x3FFFFFFF
 	}
-	for i := 1; i < len(blocks); i++ {
-		if isRoundBefore(blocks[i], blocks[i-1]) && isRoundBefore(blocks[len(blocks)-1], blocks[0]) {
-			oldest = i
+	if n := len(blocks); n > 0 && (round(0)-round(n-1))&0x3FFFFFFF == slots {
+		for i := range blocks {
+			if round(i) == round(0) {
+				oldest = i + 1
+			}
 		}
 	}
 
+	// When a write was torn, a block of a round before may stand between the new ones.
+	isNext := func(block, next *logBlock) bool {
+		inOrder := (next.header.BlockNumber-block.header.BlockNumber)&0x3FFFFFFF == 1
+		return (block.slot+1)%slots == next.slot && (inOrder || !block.intact || !next.intact)
+	}
+
 	var all [][]byte
 	var last *logBlock
 	for i := range blocks {
 		block := &blocks[(oldest+i)%len(blocks)]
-		if last != nil && (last.slot+1)%slots == block.slot && len(last.data) == OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE {
+		if last != nil && isNext(last, block) && len(last.data) == OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE {
 			all[len(all)-1] = append(all[len(all)-1], block.data[LOG_BLOCK_HDR_SIZE:]...)
 			last = block
 			continue
diff --git a/recovery/redo/structure.go b/recovery/redo/structure.go
index be03111..65af18c 100644
--- a/recovery/redo/structure.go
+++ b/recovery/redo/structure.go
@@ -93,4 +93,5 @@ type logBlock struct {
 	header BlockHeader
 	slot   uint32
 	data   []byte
+	intact bool // the checksum matches
 }
-- 
2.43.0


From 4dc56cbc430bae50b2ef6d92152ba18100d566dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 67/75] fix: do not read the trailer of a log block as data

A damaged data length of 509 to 511 bytes made the checksum part of a record.
---
 recovery/redo/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 29e0d4f..c0623f0 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -104,7 +104,9 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 				continue
 			}
 
-			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE {
+			// The data ends before the trailer, only the length of a full block is that of the block.
+			isFull := blockHeader.BlockDataLen == OS_FILE_LOG_BLOCK_SIZE
+			if blockHeader.BlockDataLen < LOG_BLOCK_HDR_SIZE || blockHeader.BlockDataLen > OS_FILE_LOG_BLOCK_SIZE-LOG_BLOCK_TRL_SIZE && !isFull {
 				logs.Error("damaged log block, the data length is ", blockHeader.BlockDataLen)
 				continue
 			}
-- 
2.43.0


From 1bf770a281571f1ea2d9607ac78b9d0b3d755215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 68/75] fix: print the numbers of ENUM and SET values without
 quotes

---
 recovery/ibdata/format.go | 6 ++++++
 recovery/redo/parse.go    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 13b73b0..673ac2f 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -46,6 +46,12 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 				continue
 			}
 
+			if column.FieldType == utils.DATA_INT && column.MySQLType == utils.MYSQL_TYPE_STRING && column.FieldValue != nil {
+				// The number of an ENUM or SET. With quotes it could be the name of another member.
+				buf.WriteString(fmt.Sprintf("%v", column.FieldValue))
+				continue
+			}
+
 			if column.MySQLType == utils.MYSQL_TYPE_BIT && column.FieldValue != nil {
 				buf.WriteString("b")
 			}
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index c0623f0..713ba70 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -601,6 +601,10 @@ func (parse *Parse) validateLogHeader(logType uint64, spaceID uint64) bool {
 
 // makeLiteral writes a column value as a SQL literal.
 func (parse *Parse) makeLiteral(column ibdata.Columns, value interface{}) string {
+	if column.FieldType == utils.DATA_INT && column.MySQLType == utils.MYSQL_TYPE_STRING {
+		// The number of an ENUM or SET. With quotes it could be the name of another member.
+		return fmt.Sprintf("%v", value)
+	}
 	literal := "'" + utils.EscapeValue(fmt.Sprintf("%v", value)) + "'"
 	switch {
 	case column.MySQLType == utils.MYSQL_TYPE_BIT:
-- 
2.43.0


From bd1b2cbc9ed8e38c994bb5ee2acd53bcb8cc157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 69/75] fix: write FLOAT values of updates with the precision
 conditions are compared with

---
 recovery/redo/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 713ba70..f3284bd 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -605,6 +605,10 @@ func (parse *Parse) makeLiteral(column ibdata.Columns, value interface{}) string
 		// The number of an ENUM or SET. With quotes it could be the name of another member.
 		return fmt.Sprintf("%v", value)
 	}
+	if f, ok := value.(float32); ok {
+		// Conditions are compared with double precision.
+		value = float64(f)
+	}
 	literal := "'" + utils.EscapeValue(fmt.Sprintf("%v", value)) + "'"
 	switch {
 	case column.MySQLType == utils.MYSQL_TYPE_BIT:
-- 
2.43.0


From af554c12cbd076fa97c34bf26264acee833890da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 70/75] fix: write a FLOAT that is not read back from its
 shortest text with more digits

---
 recovery/utils/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recovery/utils/utils.go b/recovery/utils/utils.go
index 5b76e3c..d24f62d 100644
--- a/recovery/utils/utils.go
+++ b/recovery/utils/utils.go
@@ -656,6 +656,10 @@ func ParseData(DataType uint64, MySQLType uint64,
 		}
 	case DATA_FLOAT:
 		FormatFloat := ParseFloat(data)
+		if d, err := strconv.ParseFloat(fmt.Sprint(FormatFloat), 64); err == nil && float32(d) != FormatFloat {
+			// The server reads the shortest text as a double first, and that as another number.
+			return float64(FormatFloat), nil
+		}
 		return FormatFloat, nil
 	case DATA_DOUBLE:
 		FormatDouble := ParseDouble(data)
-- 
2.43.0


From dcf541b99382051ebd900bf17cd62197902d4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:20 +0000
Subject: [PATCH 71/75] fix: print the updates of the log files before one that
 is cut in its headers

---
 recovery/redo/parse.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index f3284bd..43f60cb 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -72,6 +72,7 @@ func (parse *Parse) ParseDictPage(ibdataPath string) error {
 func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	var blocks []logBlock
 	var slots uint32
+	var firstErr error
 	for _, LogFile := range logFileList {
 		file, err := os.Open(LogFile)
 		if err != nil {
@@ -79,6 +80,15 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 			return err
 		}
 
+		// A log that is cut in the headers of a file still has the updates of the files before.
+		if info, err := file.Stat(); err == nil && len(blocks) > 0 && info.Mode().IsRegular() &&
+			info.Size() > 0 && info.Size() < 4*OS_FILE_LOG_BLOCK_SIZE {
+			firstErr = fmt.Errorf("the log file %s is not complete", LogFile)
+			logs.Error(firstErr.Error())
+			file.Close()
+			break
+		}
+
 		// parse redo log header
 		if err = parse.readRedoLogFileHeader(file); err != nil {
 			return err
@@ -126,7 +136,6 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	}
 
 	// Start parse redo log data.
-	var firstErr error
 	for _, data := range joinLogBlocks(blocks, slots) {
 		err := parse.parseRedoBlockData(data)
 		if err != nil {
-- 
2.43.0


From 6387a108a1352db7909ff1ba805f91b3055ecbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 72/75] fix: forget the pages of a dictionary that was read
 before

---
 recovery/ibdata/parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index fbbcb16..73e1a9d 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -60,6 +60,8 @@ func (parse *Parse) ParseDictPage(path string) (err error) {
 	for tableID := range parse.TableMap {
 		delete(parse.TableMap, tableID)
 	}
+	// Nor are its pages.
+	parse.D = new(sync.Map)
 
 	pages, err := parse.parseFile(path)
 	if err != nil {
-- 
2.43.0


From 2d719e6f40ae20a59e434ecadde512765021744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:05 +0000
Subject: [PATCH 73/75] fix: a statement that cannot be written fails the run

---
 recovery/ibdata/format.go |  6 +++++-
 recovery/ibdata/parse.go  | 10 ++++++++++
 recovery/redo/parse.go    | 16 +++++++++++++++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/recovery/ibdata/format.go b/recovery/ibdata/format.go
index 673ac2f..f1fdc29 100644
--- a/recovery/ibdata/format.go
+++ b/recovery/ibdata/format.go
@@ -79,7 +79,11 @@ func (parse *Parse) makeReplaceIntoStatement(AllColumns [][]Columns, table strin
 		query = buf.String()
 		buf.Reset()
 
-		fmt.Println(query)
+		if _, err := fmt.Println(query); err != nil {
+			logs.Error("write statement failed, error: ", err.Error())
+			parse.outputErr = err
+			return
+		}
 		logs.Debug("query is ", query)
 
 	}
diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 73e1a9d..21f0336 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -35,6 +35,8 @@ type Parse struct {
 	D *sync.Map
 	// The pages of long values in the data file, by page number.
 	blobPages map[uint64][]byte
+	// The error of a statement that could not be written.
+	outputErr error
 }
 
 // NewParse create parse
@@ -179,6 +181,8 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 		return err
 	}
 
+	parse.outputErr = nil
+
 	// The pages of long values, the row only has a reference to the first one.
 	parse.blobPages = make(map[uint64][]byte)
 	for _, page := range pages {
@@ -202,6 +206,9 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 			allColumns := parse.parsePage(page.OriginalData, len(page.OriginalData)-len(page.data),
 				fields, false, page.ph.PAGE_FREE)
 			parse.makeReplaceIntoStatement(parse.selectRows(allColumns, true), tableName, dbName)
+			if parse.outputErr != nil {
+				return parse.outputErr
+			}
 		}
 
 		if isRecovery {
@@ -239,6 +246,9 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 
 			// Make replace into statement.
 			parse.makeReplaceIntoStatement(allColumns, tableName, dbName)
+			if parse.outputErr != nil {
+				return parse.outputErr
+			}
 		}
 	}
 	return nil
diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 43f60cb..995ba2a 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -38,6 +38,9 @@ type Parse struct {
 
 	// The database name which you want to recovery.
 	DBName string
+
+	// The error of a statement that could not be written.
+	outputErr error
 }
 
 // NewParse ...
@@ -136,8 +139,12 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 	}
 
 	// Start parse redo log data.
+	parse.outputErr = nil
 	for _, data := range joinLogBlocks(blocks, slots) {
 		err := parse.parseRedoBlockData(data)
+		if parse.outputErr != nil {
+			return parse.outputErr
+		}
 		if err != nil {
 			logs.Error("parse redo block data failed, error: ", err.Error())
 			if firstErr == nil {
@@ -675,5 +682,12 @@ func (parse *Parse) makeSQL(table ibdata.Tables, primaryColumns []*ibdata.Fields
 		utils.QuoteName(table.TableName), SetValues, whereConditions)
 
 	logs.Debug("query is ", query)
-	fmt.Println(query)
+	if parse.outputErr != nil {
+		// The statements are written up to the first one that cannot be.
+		return
+	}
+	if _, err := fmt.Println(query); err != nil {
+		logs.Error("write statement failed, error: ", err.Error())
+		parse.outputErr = err
+	}
 }
-- 
2.43.0


From c00a2ce06b515dcf4f73e193281e0de22c29507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 74/75] fix: close a redo log file whose headers cannot be read

---
 recovery/redo/parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recovery/redo/parse.go b/recovery/redo/parse.go
index 995ba2a..e24b3fd 100644
--- a/recovery/redo/parse.go
+++ b/recovery/redo/parse.go
@@ -94,11 +94,13 @@ func (parse *Parse) ParseRedoLogs(logFileList []string) error {
 
 		// parse redo log header
 		if err = parse.readRedoLogFileHeader(file); err != nil {
+			file.Close()
 			return err
 		}
 
 		// parse redo log checkpoint
 		if err = parse.readRedoLogFileCheckpoint(file); err != nil {
+			file.Close()
 			return err
 		}
 
-- 
2.43.0


From 70bb6251acc0d694945ecd3bfb272735164c6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:35 +0000
Subject: [PATCH 75/75] fix: a data file without a page fails the run

---
 recovery/ibdata/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recovery/ibdata/parse.go b/recovery/ibdata/parse.go
index 21f0336..418b01e 100644
--- a/recovery/ibdata/parse.go
+++ b/recovery/ibdata/parse.go
@@ -173,6 +173,11 @@ func (parse *Parse) ParseDataPage(path string, dbName string, tableName string,
 	if err != nil {
 		return err
 	}
+	if len(pages) == 0 {
+		err = fmt.Errorf("no page in the data file %s", path)
+		logs.Error(err.Error())
+		return err
+	}
 
 	// Get table fields info from data dict.
 	fields, err := parse.getTableColumnsFromDict(dbName, tableName)
-- 
2.43.0

