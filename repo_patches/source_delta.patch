From 2e6fcd263a1576505fb88a2a487700d0eeaba955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 01/75] fix: keep the line number of a parse in its parser, not
 in a package variable

Two goroutines parsing different strings raced on globalLineNum, and each
could report the other's line number in its error message.
---
 parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 48847af..12b531f 100644
--- a/parser.go
+++ b/parser.go
@@ -91,8 +91,6 @@ func init() {
 	uintSliceRegexp = regexp.MustCompile(uintSliceRegexpString)
 }
 
-var globalLineNum int
-
 const globalErrorLimit int = 10
 
 var globalErrorCount int
@@ -284,8 +282,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 	var readError error
 	var stringReader *strings.Reader = strings.NewReader(s)
 	var inputReader *bufio.Reader = bufio.NewReader(stringReader)
-	globalLineNum = 1
-	for ; ; globalLineNum++ {
+	p.lineNum = 1
+	for ; ; p.lineNum++ {
 		line, readError = inputReader.ReadString('\n')
 		line = strings.TrimSpace(line)
 
@@ -651,7 +649,7 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 }
 
 func (p *parser) gotFilePos() string {
-	return fmt.Sprintf("%s:%d:", p.fileName, globalLineNum)
+	return fmt.Sprintf("%s:%d:", p.fileName, p.lineNum)
 }
 
 func file_line() string {
@@ -1286,6 +1284,7 @@ func rangeForIntegerType(min int64, max uint64) string {
 // parser definition: fields and methods.
 type parser struct {
 	fileName string // Needed for printing file and line diagnostics.
+	lineNum  int    // Needed for printing file and line diagnostics.
 }
 
 // Needed for printing file and line diagnostics.
-- 
2.43.0


From f00ae13808b6ae9028e901423fa93ad6b1834861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 02/75] fix: reject text before a rune, NaN or time value
 instead of skipping it

The rune, NaN and time patterns were not anchored to the start of the
value, so junk in front of the value was silently discarded.
---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 12b531f..46e3cc9 100644
--- a/parser.go
+++ b/parser.go
@@ -119,7 +119,7 @@ var boolRegexp *regexp.Regexp = regexp.MustCompile(`^\b(true|false)\b`)
 
 // Note: (\\') successfully parses '\'' It needs to go before ([^']*)
 //             This may not be terribly efficient, awaiting a more specific regular expresssion.
-const runeRegexpString string = `'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
+const runeRegexpString string = `^'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
 
 var runeRegexp *regexp.Regexp = regexp.MustCompile(runeRegexpString)
 
@@ -137,7 +137,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^(([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn]))`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
@@ -149,7 +149,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From c6a0d5836c4329548b28cb8b517c8069dfec9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 03/75] fix: parse times with 1 to 9 fractional digits

String() writes times as RFC3339Nano, which drops trailing zeros, and the
parser then refused its own output.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 46e3cc9..cad2e3c 100644
--- a/parser.go
+++ b/parser.go
@@ -149,7 +149,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From 1a350fef28ff74e219d2c44fdd07512ed087b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 04/75] fix: parse the infinities that String() writes as +Inf
 and -Inf

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index cad2e3c..5c48419 100644
--- a/parser.go
+++ b/parser.go
@@ -137,7 +137,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^(([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn]))`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^(([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([-+]Inf)|([Nn][Aa][Nn]))`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
-- 
2.43.0


From 8fa691393a826b3d1b899a96aff4cadf8a4d0644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 05/75] fix: write 64-bit integers exactly in padded table
 strings

StringPadded() formatted integer cells by way of float64, so values above
2^53 were written as a different number.
---
 gotables.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index a47e0fe..b6dfbdd 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1331,15 +1331,16 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
+					// It's an integer. Don't convert it to float: large 64-bit values would lose precision.
+					toWrite = matrix[col][row]
+				} else { // It's a float.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
 						bits = 32
 					case "float64":
 						bits = 64
-					default:
-						bits = 64 // For int and other non-float integrals.
 					}
 					// Convert back to float so we can format it again in light of the maximum precision in the column.
 					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-- 
2.43.0


From 5f69c0edf9022f5841c1a1a1dddaab345eab145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 06/75] fix: write byte, []byte, []uint8 and time.Time cells in
 unpadded strings

StringUnpadded() returned an empty string for a table with such a column.
---
 gotables.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index b6dfbdd..5415d8c 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1203,6 +1203,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var runeVal rune
 				var tVal bool
 				var ui8Val uint8
+				var ui8SliceVal []uint8
 				var ui16Val uint16
 				var ui32Val uint32
 				var ui64Val uint64
@@ -1215,6 +1216,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var f32Val float32
 				var f64Val float64
 				var tableVal *Table
+				var timeVal time.Time
 				buf.WriteString(horizontalSep)
 				switch table.colTypes[colIndex] {
 				case "string":
@@ -1228,9 +1230,12 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					ui8SliceVal = row[colIndex].([]uint8)
+					buf.WriteString(fmt.Sprintf("%v", ui8SliceVal))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
@@ -1272,6 +1277,9 @@ func (table *Table) _String(horizontalSeparator byte) string {
 					buf.WriteByte(91) // Opening square bracket.
 					buf.WriteString(tableName)
 					buf.WriteByte(93) // Closing square bracket.
+				case "time.Time":
+					timeVal = row[colIndex].(time.Time)
+					buf.WriteString(timeVal.Format(time.RFC3339Nano))
 				default:
 					log.Printf("%s #1 ERROR IN %s: unknown type: %s\n",
 						UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex])
-- 
2.43.0


From fcf8e5c27fdff5af87bfdc80e3eb1d40fa339823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 07/75] fix: write the table set name in unpadded table set
 strings

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index 5415d8c..2250bd1 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.tableSetName != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.tableSetName))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
-- 
2.43.0


From 342bd9ea0a7d1cf15d4961ff8f44ef55d9dc6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 08/75] fix: escape strings and runes written in struct shape

A string containing a double quote, backslash or newline was written raw
between double quotes and could not be parsed back.
---
 gotables.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 2250bd1..66f3e85 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1644,11 +1644,11 @@ func printStruct(table *Table) string {
 			switch table.colTypes[colIndex] {
 			case "string":
 				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note 2: Special chars are escaped (as in tabular shape) so that the string can be parsed.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
 				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				s += " = " + strconv.QuoteRune(table.rows[RowIndexZero][colIndex].(rune))
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From 1a1feae774dc23a341e8c0e5544a6029475f8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 09/75] fix: accept only ASCII letters and digits in names

isValidName() tested bytes as if they were runes, so that some names with
multi-byte or invalid UTF-8 chars were accepted by NewTable() and
AppendCol() which the parser and other formats then refused.
---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5c48419..2e5e43c 100644
--- a/parser.go
+++ b/parser.go
@@ -26,6 +26,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 /*
@@ -805,11 +806,12 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	// Compare with namePattern: names are ASCII. Bytes of a multi-byte char are neither letters nor numbers.
+	if name[0] >= utf8.RuneSelf || !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
+		if name[i] >= utf8.RuneSelf || !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
 			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
 		}
 	}
-- 
2.43.0


From edb63ac440fcc4b8949918302a672bde6c172a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 10/75] fix: swap the cells too when swapping columns

SwapCols() and SwapColsByColIndex() swapped only the names and types of
the columns, so the cells of a table with rows no longer matched their
columns, and printing such a table panicked.
---
 sort.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sort.go b/sort.go
index 4f107b4..7c229b1 100644
--- a/sort.go
+++ b/sort.go
@@ -952,6 +952,10 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for _, row := range table.rows {
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -987,6 +991,10 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for _, row := range table.rows {
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From b162ccb2ec891ec6db0c02988e7090279bd471b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 11/75] fix: do not panic in SearchLast() for values before the
 first row

---
 sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 7c229b1..e28b572 100644
--- a/sort.go
+++ b/sort.go
@@ -1060,7 +1060,8 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	// Mirrored: searchIndex is -1 if the search values are before the first row.
+	if searchIndex >= 0 && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From f1b01119827554c6a147a578c2c43c7c8c5bb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 12/75] fix: order NaN before other floats when sorting and
 searching

NaN compared equal to every value, which is not an ordering: a key column
with NaN in it left the other rows unsorted.
---
 sort.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index e28b572..5099ec8 100644
--- a/sort.go
+++ b/sort.go
@@ -442,7 +442,8 @@ var compare_float32 compareFunc = func(i, j interface{}) int {
 	} else if float32i > float32j {
 		return +1
 	} else {
-		return 0
+		// Equal, or one or both are NaN. Sort NaN before all other values, as the Go sort package does.
+		return compare_NaN(float32i != float32i, float32j != float32j)
 	}
 }
 
@@ -453,6 +454,18 @@ var compare_float64 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float64i > float64j {
 		return +1
+	} else {
+		// Equal, or one or both are NaN. Sort NaN before all other values, as the Go sort package does.
+		return compare_NaN(float64i != float64i, float64j != float64j)
+	}
+}
+
+// Order NaN before non-NaN.
+func compare_NaN(isNaNi bool, isNaNj bool) int {
+	if isNaNi && !isNaNj {
+		return -1
+	} else if !isNaNi && isNaNj {
+		return +1
 	} else {
 		return 0
 	}
-- 
2.43.0


From d3d1f67ae2075896f90a6a2e9c88164ae3bcf606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 13/75] fix: keep sort keys in step with deleted and renamed
 columns

Sort(), Search() and CompareRows() panicked after a sort key column had
been deleted or renamed.
---
 gotables.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gotables.go b/gotables.go
index 66f3e85..0105cda 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1878,6 +1878,13 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 	// From Ivo Balbaert p182 for deleting a single element from a slice.
 	table.colTypes = append(table.colTypes[:colIndex], table.colTypes[colIndex+1:]...)
 
+	// A deleted col can no longer be a sort key.
+	for keyIndex := len(table.sortKeys) - 1; keyIndex >= 0; keyIndex-- {
+		if table.sortKeys[keyIndex].colName == colName {
+			table.sortKeys = append(table.sortKeys[:keyIndex], table.sortKeys[keyIndex+1:]...)
+		}
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		//		if isValidRow, err := table.IsValidRow(rowIndex); !isValidRow { where(fmt.Sprintf("%s\n", err)) }
 		var row []interface{} = table.rows[rowIndex]
@@ -2667,6 +2674,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// Rename col in sort keys (if any).
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f8fb96793e4f67dd35f9cc3df776a9c23c4eb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:49 +0000
Subject: [PATCH 14/75] fix: keep the existing sort keys when SetSortKeys()
 fails

---
 sort.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sort.go b/sort.go
index 5099ec8..985a811 100644
--- a/sort.go
+++ b/sort.go
@@ -171,11 +171,13 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var previousSortKeys SortKeys = table.sortKeys
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = previousSortKeys
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
-- 
2.43.0


From f0c72e973ce76fe739030d245687ff376fd9cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 15/75] fix: merge tables which have no key in common

Merge() returned an error if there was not at least one duplicate key.
---
 merge.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..e335ffa 100644
--- a/merge.go
+++ b/merge.go
@@ -242,6 +242,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var duplicateCount int // Number of rows tagged for deletion.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,6 +437,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			duplicateCount++
 		}
 	}
 
@@ -448,16 +451,18 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
+	if duplicateCount > 0 {
+		// Find the block of rows to delete.
+		first, last, err := merged.SearchRange(true)
+		if err != nil {
+			return nil, err
+		}
 
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From 04b1e1cafa85397d9f5c3e59644965888ca8fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 16/75] fix: merge a table with zero rows like any other table

Merge() returned the other input table itself (sorted in place, without
the columns of the empty table, with duplicates, and not renamed).
---
 merge.go | 35 -----------------------------------
 1 file changed, 35 deletions(-)

diff --git a/merge.go b/merge.go
index e335ffa..40b6de8 100644
--- a/merge.go
+++ b/merge.go
@@ -79,23 +79,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil
 	}
 
-	// Local function.
-	sortMerged := func(localMerged *Table) (*Table, error) {
-		if localMerged.SortKeyCount() == 0 {
-			err = setSortKeysBetweenTables()
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		err = localMerged.Sort()
-		if err != nil {
-			return nil, err
-		}
-
-		return localMerged, nil
-	}
-
 	if table1 == nil {
 		err = fmt.Errorf("func (table1 *Table) %s(table2 *Table): table1 is <nil>", UtilFuncName())
 		return merged, err
@@ -106,24 +89,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
-	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
-	}
-
-	// TODO: this value of merged is never used (SA4006)
-	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
-	}
-
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
-- 
2.43.0


From 05b3699fd7e0dd37048ba1bfdbdc749d3709924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 17/75] fix: merge byte, rune, []byte, time.Time and *Table
 cells

Merge() and SortUnique() failed on tables with columns of these types as
soon as there was a duplicate key.
---
 merge.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 40b6de8..b5230da 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -280,7 +281,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "rune", "int64", "int":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -308,7 +309,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "byte", "uint16", "uint32", "uint64", "uint":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -378,6 +379,29 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex1)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex2)
+					if err != nil {
+						return nil, err
+					}
+					if !isZeroCell(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex2, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isZeroCell(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex1, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
@@ -452,6 +476,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// True if val is the zero value of a col type which has no zero literal to compare with.
+func isZeroCell(val interface{}) bool {
+	switch cell := val.(type) {
+	case []byte:
+		return len(cell) == 0
+	case time.Time:
+		return cell.IsZero()
+	case *Table:
+		return cell == nil || cell.isNilTable
+	}
+	return false
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
-- 
2.43.0


From f809085c18660e6f7cfa4bec9a4cc16cc027cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 18/75] fix: do not panic in OrderColsBySortKeys() if a sort
 key is repeated

---
 sort.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sort.go b/sort.go
index 985a811..180b35f 100644
--- a/sort.go
+++ b/sort.go
@@ -873,17 +873,22 @@ func (table *Table) OrderColsBySortKeys() error {
 	var err error
 	var newOrder []string = make([]string, table.ColCount()) // List of new colNames.
 	var key int
+	var row int
 
 	// Populate new order ...
 
-	// First slots with key col names.
+	// First slots with key col names. The same col can be a sort key more than once.
+	var isOrdered map[string]bool = map[string]bool{}
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		if !isOrdered[keyName] {
+			isOrdered[keyName] = true
+			newOrder[row] = keyName
+			row++
+		}
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
-- 
2.43.0


From 65edeb8eb389a807399975694570fc0fd51a1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 19/75] fix: encode and decode sort keys in GOB instead of
 panicking

---
 gob.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gob.go b/gob.go
index 978b96b..7897928 100644
--- a/gob.go
+++ b/gob.go
@@ -70,11 +70,11 @@ func (table *Table) exportTable() (*TableExported, error) {
 
 	tableExported.SortKeys = []SortKeyExported{}
 	for keyIndex, _ := range table.sortKeys {
-		tableExported.SortKeys[keyIndex] = SortKeyExported{}
+		// Note: gob does not encode SortFunc. Method importTable() looks it up by type.
+		tableExported.SortKeys = append(tableExported.SortKeys, SortKeyExported{})
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
 		tableExported.SortKeys[keyIndex].ColType = table.sortKeys[keyIndex].colType
 		tableExported.SortKeys[keyIndex].Reverse = table.sortKeys[keyIndex].reverse
-		tableExported.SortKeys[keyIndex].SortFunc = table.sortKeys[keyIndex].sortFunc
 	}
 
 	tableExported.StructShape = table.isStructShape
@@ -131,15 +131,6 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
-	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
-		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
-	}
-
 	table.isStructShape = tableExported.StructShape
 
 	isValid, err = table.IsValidTable()
@@ -147,6 +138,15 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	table.sortKeys = []sortKey{}
+	for keyIndex, _ := range tableExported.SortKeys {
+		err = table.AppendSortKey(tableExported.SortKeys[keyIndex].ColName)
+		if err != nil {
+			return nil, err
+		}
+		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
+	}
+
 	return table, nil
 }
 
-- 
2.43.0


From 23fca46faa5c638c156393db05048b3a18bd3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 20/75] fix: recognise valid byte, rune, []byte, []uint8,
 time.Time and *Table cell values

---
 gotables.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 0105cda..446c3d9 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3166,10 +3166,22 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	valueTypeName := fmt.Sprintf("%T", value)
+	var isValid bool
+	switch colType {
+	case "byte":
+		isValid = valueTypeName == "uint8"
+	case "rune":
+		isValid = valueTypeName == "int32"
+	case "[]byte":
+		isValid = valueTypeName == "[]uint8"
+	case "*Table":
+		isValid = valueTypeName == "*gotables.Table"
+	default:
+		isValid = valueTypeName == colType
+	}
 
-	if valueTypeName != colType {
+	if !isValid {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From 5812cd358d01b59645cccfb81dc4af2e550ee972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 21/75] fix: return the error found by IsValidTable() in column
 names

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 446c3d9..80eb02c 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2833,7 +2833,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From da5dd970fa15512cf19710b8c6b37c29153c9016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 22/75] fix: reject empty GOB buffers and cells whose value
 does not match the column type

---
 gob.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gob.go b/gob.go
index 7897928..f5e7ec4 100644
--- a/gob.go
+++ b/gob.go
@@ -138,6 +138,15 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
+		for colIndex := 0; colIndex < colCount; colIndex++ {
+			isValid, err = table.IsValidCellValue(table.colNames[colIndex], table.rows[rowIndex][colIndex])
+			if !isValid {
+				return nil, err
+			}
+		}
+	}
+
 	table.sortKeys = []sortKey{}
 	for keyIndex, _ := range tableExported.SortKeys {
 		err = table.AppendSortKey(tableExported.SortKeys[keyIndex].ColName)
@@ -191,6 +200,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s() tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
@@ -253,6 +266,11 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	var tableSet *TableSet
 	var err error
+
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer is empty: expecting a table set header", UtilFuncName())
+	}
+
 	tableSet, err = NewTableSet("")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6eb8c506e7c1c6e343ac5492c6bd353316e5e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 23/75] fix: write strings and runes as JSON strings, not as Go
 strings

---
 json.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..753525a 100644
--- a/json.go
+++ b/json.go
@@ -12,6 +12,7 @@ import (
 	_ "strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 type circRefMap map[*Table]struct{}
@@ -143,7 +144,13 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				var jsonStr string
+				jsonStr, err = quoteJSON(val.(string))
+				if err != nil {
+					return fmt.Errorf("%s: table [%s] col %q row %d: %v",
+						UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, err)
+				}
+				buf.WriteString(jsonStr)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -164,7 +171,16 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					if !utf8.ValidRune(val.(rune)) {
+						return fmt.Errorf("%s: table [%s] col %q row %d: cannot represent rune %d in JSON",
+							UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val.(rune))
+					}
+					var jsonStr string
+					jsonStr, err = quoteJSON(valStr)
+					if err != nil {
+						return err
+					}
+					buf.WriteString(jsonStr)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
@@ -531,7 +547,11 @@ func (tableSet *TableSet) GetTableSetAsJSON() (jsonTableSetString string, err er
 	var buf bytes.Buffer
 
 	buf.WriteByte(123) // Opening brace outermost
-	buf.WriteString(fmt.Sprintf(`"tableSetName":%q,`, tableSet.Name()))
+	tableSetName, err := quoteJSON(tableSet.Name())
+	if err != nil {
+		return "", fmt.Errorf("%s: table set name: %v", UtilFuncName(), err)
+	}
+	buf.WriteString(fmt.Sprintf(`"tableSetName":%s,`, tableSetName))
 	buf.WriteString(`"tables":[`) // Opening array of tables
 
 	var tableCount int = tableSet.TableCount()
@@ -674,6 +694,23 @@ func NewTableFromJSONByTableName(jsonString string, tableName string) (table *Ta
 	return
 }
 
+// Quote s as a JSON string. A Go quoted string (see %q) is not always a valid JSON string.
+func quoteJSON(s string) (jsonString string, err error) {
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("cannot represent invalid UTF-8 in JSON: %q", s)
+	}
+
+	var buf bytes.Buffer
+	encoder := json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	err = encoder.Encode(s)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(buf.String(), "\n"), nil
+}
+
 func indentJSON(jsonString string) (jsonStringIndented string, err error) {
 
 	var buf bytes.Buffer
-- 
2.43.0


From 04f74827e81019455e34b281ae747bb96517e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 24/75] fix: return an error for NaN and infinities, which JSON
 cannot represent

---
 json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json.go b/json.go
index 753525a..5179ca0 100644
--- a/json.go
+++ b/json.go
@@ -158,6 +158,11 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				if err != nil {
 					return err
 				}
+				switch valStr {
+				case "NaN", "+Inf", "-Inf":
+					return fmt.Errorf("%s: table [%s] col %q row %d: cannot represent %s in JSON",
+						UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, valStr)
+				}
 				buf.WriteString(valStr)
 
 			// rune vs int32
-- 
2.43.0


From 046b6ef6ccefdddbb25a315eeab57b1540215ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 25/75] fix: decode JSON numbers exactly and reject those that
 do not fit the column type

---
 json.go | 129 ++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 103 insertions(+), 26 deletions(-)

diff --git a/json.go b/json.go
index 5179ca0..8157f39 100644
--- a/json.go
+++ b/json.go
@@ -5,11 +5,11 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -415,47 +415,84 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
-					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
-					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
-					}
+					var number json.Number = cell.(json.Number)
+					var intVal int64
+					var uintVal uint64
+					var floatVal float64
 
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
+						intVal, err = jsonNumberToInt(number, 64)
+						if err == nil {
+							err = table.SetInt64ByColIndex(colIndex, rowIndex, intVal)
+						}
 					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
+						uintVal, err = jsonNumberToUint(number, 64)
+						if err == nil {
+							err = table.SetUint64ByColIndex(colIndex, rowIndex, uintVal)
+						}
 					case "float32":
-						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						floatVal, err = strconv.ParseFloat(number.String(), 32)
+						if err == nil {
+							err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(floatVal))
+						}
 					case "float64":
-						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						floatVal, err = strconv.ParseFloat(number.String(), 64)
+						if err == nil {
+							err = table.SetFloat64ByColIndex(colIndex, rowIndex, floatVal)
+						}
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
+						intVal, err = jsonNumberToInt(number, strconv.IntSize)
+						if err == nil {
+							err = table.SetIntByColIndex(colIndex, rowIndex, int(intVal))
+						}
 					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
+						uintVal, err = jsonNumberToUint(number, strconv.IntSize)
+						if err == nil {
+							err = table.SetUintByColIndex(colIndex, rowIndex, uint(uintVal))
+						}
 					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						uintVal, err = jsonNumberToUint(number, 8)
+						if err == nil {
+							err = table.SetByteByColIndex(colIndex, rowIndex, byte(uintVal))
+						}
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						intVal, err = jsonNumberToInt(number, 8)
+						if err == nil {
+							err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(intVal))
+						}
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						intVal, err = jsonNumberToInt(number, 16)
+						if err == nil {
+							err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(intVal))
+						}
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						intVal, err = jsonNumberToInt(number, 32)
+						if err == nil {
+							err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(intVal))
+						}
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						uintVal, err = jsonNumberToUint(number, 8)
+						if err == nil {
+							err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uintVal))
+						}
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						uintVal, err = jsonNumberToUint(number, 16)
+						if err == nil {
+							err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uintVal))
+						}
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						uintVal, err = jsonNumberToUint(number, 32)
+						if err == nil {
+							err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uintVal))
+						}
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
 					}
 					// Single error handler for all the calls in this switch statement.
 					if err != nil {
-						err := fmt.Errorf("could not convert JSON float64 to gotables %s", colType)
+						err := fmt.Errorf("could not convert JSON number %s to gotables %s", number, colType)
 						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 					}
 				case bool:
@@ -464,14 +501,19 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
+					var uintVal uint64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, isNumber := sliceVal.(json.Number)
+						if !isNumber {
+							return nil, fmt.Errorf("%s %s: expecting a number in %s but found: %v",
+								UtilFuncSource(), UtilFuncName(), colType, sliceVal)
+						}
+						uintVal, err = jsonNumberToUint(number, 8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
+							err := fmt.Errorf("could not convert JSON number %s to byte", number)
 							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(uintVal))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
@@ -699,6 +741,41 @@ func NewTableFromJSONByTableName(jsonString string, tableName string) (table *Ta
 	return
 }
 
+// The limit below which every integer is exactly representable as float64.
+const maxExactFloat64Int float64 = 1 << 53
+
+// Convert number to a signed integer. It is an error if number does not fit in bitSize or is not an integer.
+func jsonNumberToInt(number json.Number, bitSize int) (int64, error) {
+	intVal, err := strconv.ParseInt(number.String(), 10, bitSize)
+	if err == nil {
+		return intVal, nil
+	}
+
+	// It may be an integer written with a decimal point or an exponent.
+	floatVal, floatErr := number.Float64()
+	if floatErr != nil || floatVal != math.Trunc(floatVal) || math.Abs(floatVal) >= maxExactFloat64Int {
+		return 0, err
+	}
+
+	return strconv.ParseInt(strconv.FormatFloat(floatVal, 'f', -1, 64), 10, bitSize)
+}
+
+// Convert number to an unsigned integer. It is an error if number does not fit in bitSize or is not an integer.
+func jsonNumberToUint(number json.Number, bitSize int) (uint64, error) {
+	uintVal, err := strconv.ParseUint(number.String(), 10, bitSize)
+	if err == nil {
+		return uintVal, nil
+	}
+
+	// It may be an integer written with a decimal point or an exponent.
+	floatVal, floatErr := number.Float64()
+	if floatErr != nil || floatVal != math.Trunc(floatVal) || math.Abs(floatVal) >= maxExactFloat64Int {
+		return 0, err
+	}
+
+	return strconv.ParseUint(strconv.FormatFloat(floatVal, 'f', -1, 64), 10, bitSize)
+}
+
 // Quote s as a JSON string. A Go quoted string (see %q) is not always a valid JSON string.
 func quoteJSON(s string) (jsonString string, err error) {
 	if !utf8.ValidString(s) {
-- 
2.43.0


From 02b1eb5de93ae848601eeb777bd595698a30f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 26/75] fix: return an error instead of panicking on malformed
 JSON tables, rows and cells

---
 json.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index 8157f39..9cd6c54 100644
--- a/json.go
+++ b/json.go
@@ -336,7 +336,11 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
+		colMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colMap) != 1 {
+			return nil, fmt.Errorf("expecting one col name and type in JSON metadata but got: %v", colNameAndType)
+		}
+		for colName, val = range colMap {
 			// There's only one map element here: colName and colType.
 		}
 		var ok bool
@@ -367,11 +371,21 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
+		row, isSlice := val.([]interface{})
+		if !isSlice {
+			return nil, fmt.Errorf("expecting a slice of cells in JSON row %d but got: %v", rowIndex, val)
+		}
+		if len(row) > table.ColCount() {
+			return nil, fmt.Errorf("expecting %d cells in JSON row %d but got: %d", table.ColCount(), rowIndex, len(row))
+		}
 		for colIndex, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
+			cellMap, isMap := val.(map[string]interface{})
+			if !isMap || len(cellMap) != 1 {
+				return nil, fmt.Errorf("expecting one col name and value in JSON row %d col %d but got: %v", rowIndex, colIndex, val)
+			}
 			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
+			for _, cell = range cellMap {
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
@@ -382,6 +396,10 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting a string of 1 rune but found: %q",
+								UtilFuncSource(), UtilFuncName(), stringVal)
+						}
 						var runeVal rune = runeSlice[0]
 						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 					case "time.Time":
@@ -682,7 +700,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
+		tableMap, exists = tableMapInterface.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s: expecting a JSON table but found: %v", UtilFuncName(), tableMapInterface)
+		}
 
 		var table *Table
 		table, err = newTableFromJSON_recursive(tableMap)
-- 
2.43.0


From c926dead00afc468df7520c6aee6b1301c4f0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 27/75] fix: return the error found by GetTableSetAsYAML()

---
 yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index 09d961b..757a32a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -377,13 +377,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
-- 
2.43.0


From d66a0744984bf1a63867ff4412a09cf6b92e2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 28/75] fix: decode YAML float64 cells which have no fractional
 part

---
 yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml.go b/yaml.go
index 757a32a..d84cb78 100644
--- a/yaml.go
+++ b/yaml.go
@@ -229,6 +229,8 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
 				case "float32":
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
+				case "float64":
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
 				case "time.Time":
 					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
-- 
2.43.0


From fa334c5e7eec00d6661de9faac6e98f3ef842c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 29/75] fix: reject YAML numbers that do not fit the column
 type instead of truncating them

---
 yaml.go | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index d84cb78..43c812f 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,6 +3,7 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"math"
 	_ "os"
 	_ "strings"
 	"time"
@@ -202,6 +203,13 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
 			case int:
 				var intVal = row[colIndex].(int)
+				if !intFitsColType(intVal, table.colTypes[colIndex]) {
+					err = fmt.Errorf("%s %s: table [%s] row %d: %d does not fit in col %s of type %s",
+						UtilFuncSource(), UtilFuncName(), table.Name(), rowIndex, intVal,
+						table.colNames[colIndex], table.colTypes[colIndex])
+					table = nil
+					return
+				}
 				switch table.colTypes[colIndex] {
 				case "int":
 					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
@@ -253,6 +261,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				switch table.colTypes[colIndex] {
 				case "float32":
 					var float64Val float64 = row[colIndex].(float64)
+					if math.IsInf(float64(float32(float64Val)), 0) && !math.IsInf(float64Val, 0) {
+						err = fmt.Errorf("%s %s: table [%s] row %d: %g does not fit in col %s of type float32",
+							UtilFuncSource(), UtilFuncName(), table.Name(), rowIndex, float64Val, table.colNames[colIndex])
+						table = nil
+						return
+					}
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
@@ -321,7 +335,13 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 						sliceVal = row[colIndex].([]interface{})
 						byteSliceVal = make([]byte, len(sliceVal))
 						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
+							intVal, isInt := sliceVal[i].(int)
+							if !isInt || !intFitsColType(intVal, "byte") {
+								err = fmt.Errorf("%s %s: table [%s] row %d: expecting bytes in col %s but found: %v",
+									UtilFuncSource(), UtilFuncName(), table.Name(), rowIndex, table.colNames[colIndex], sliceVal[i])
+								table = nil
+								return
+							}
 							byteSliceVal[i] = byte(intVal)
 						}
 					case interface{}:
@@ -370,6 +390,27 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	return
 }
 
+// YAML integers are decoded as int, and then converted to the type of the col.
+func intFitsColType(intVal int, colType string) bool {
+	switch colType {
+	case "int8":
+		return intVal >= math.MinInt8 && intVal <= math.MaxInt8
+	case "int16":
+		return intVal >= math.MinInt16 && intVal <= math.MaxInt16
+	case "int32", "rune":
+		return int64(intVal) >= math.MinInt32 && int64(intVal) <= math.MaxInt32
+	case "uint8", "byte":
+		return intVal >= 0 && intVal <= math.MaxUint8
+	case "uint16":
+		return intVal >= 0 && intVal <= math.MaxUint16
+	case "uint32":
+		return intVal >= 0 && int64(intVal) <= math.MaxUint32
+	case "uint", "uint64":
+		return intVal >= 0
+	}
+	return true
+}
+
 func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From b54b74ad3149e6a47963576a23b98f70a84e558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 30/75] fix: return an error instead of panicking on malformed
 YAML tables, rows and cells

---
 yaml.go | 84 ++++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/yaml.go b/yaml.go
index 43c812f..624325e 100644
--- a/yaml.go
+++ b/yaml.go
@@ -57,18 +57,24 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	var tablesMap []interface{}
 	var anyVal interface{}
 	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
 
+	tablesMap, exists = anyVal.([]interface{})
+	if !exists {
+		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is not a sequence", UtilFuncSource(), UtilFuncName())
+	}
+
 	var tableMap map[string]interface{}
 
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but found: %v", UtilFuncSource(), UtilFuncName(), anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
@@ -137,7 +143,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
+		colMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colMap) != 1 {
+			err = fmt.Errorf("expecting one col name and type in YAML metadata but got: %v", colNameAndType)
+			return nil, err
+		}
+		for colName, typeVal = range colMap {
 			// There's only one map element here: colName and colType.
 		}
 		colType, ok := typeVal.(string)
@@ -174,7 +185,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
+			rowSlice, isSlice := el1.([]interface{})
+			if !isSlice {
+				err = fmt.Errorf("expecting a sequence of cells in YAML row %d but got: %v", i, el1)
+				return nil, err
+			}
+			for _, el2 := range rowSlice {
 				data[i] = append(data[i], el2)
 			}
 		}
@@ -197,6 +213,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) > table.ColCount() {
+			err = fmt.Errorf("expecting %d cells in YAML row %d but got: %d", table.ColCount(), rowIndex, len(row))
+			return nil, err
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
 			switch row[colIndex].(type) {
 			case uint:
@@ -239,8 +259,6 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
 					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
 				default:
@@ -291,34 +309,31 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 			case interface{}:
 				switch table.colTypes[colIndex] {
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
-
-				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
-
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
-
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
-
-				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
-
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
-
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
-
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
+				case "uint", "uint64":
+					// YAML decodes an integer which is too large for int as uint64.
+					uint64Val, isUint64 := row[colIndex].(uint64)
+					if !isUint64 || (table.colTypes[colIndex] == "uint" && uint64Val > math.MaxUint) {
+						err = fmt.Errorf("%s %s: table [%s] row %d: expecting type %s in col %s but found: %v",
+							UtilFuncSource(), UtilFuncName(), table.Name(), rowIndex, table.colTypes[colIndex],
+							table.colNames[colIndex], row[colIndex])
+						table = nil
+						return
+					}
+					if table.colTypes[colIndex] == "uint" {
+						err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+					} else {
+						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+					}
 
 				case "*Table":
 					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
+					nestedMap, isMap := row[colIndex].(map[string]interface{})
+					if !isMap {
+						err = fmt.Errorf("%s %s: expecting a nested table in col %s but found: %v",
+							UtilFuncSource(), UtilFuncName(), table.colNames[colIndex], row[colIndex])
+						return nil, err
+					}
+					tableOut, err = newTableFromYAML_recursive(nestedMap)
 					if err != nil {
 						return
 					}
@@ -344,8 +359,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 							}
 							byteSliceVal[i] = byte(intVal)
 						}
-					case interface{}:
 					default:
+						err = fmt.Errorf("%s %s: table [%s] row %d: expecting bytes in col %s but found: %v",
+							UtilFuncSource(), UtilFuncName(), table.Name(), rowIndex, table.colNames[colIndex], row[colIndex])
+						table = nil
+						return
 					}
 					switch table.colTypes[colIndex] {
 					case "[]byte":
-- 
2.43.0


From 9112fb5a6bd28478a08347fd2cd02751e70d56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 31/75] fix: return an error from Set...ByColIndex() and zero
 value setters for a col or row out of range

---
 helpers.go | 110 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 90 insertions(+), 20 deletions(-)

diff --git a/helpers.go b/helpers.go
index 83fc552..0110024 100644
--- a/helpers.go
+++ b/helpers.go
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1614,7 +1668,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// This may help with reporting errors.
 	newVal.parentTable = table
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -4855,6 +4915,11 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
+	hasCell, err := table.HasCellByColIndex(colIndex, rowIndex)
+	if !hasCell {
+		return err
+	}
+
 	var colType = table.colTypes[colIndex]
 
 	switch colType {
@@ -4937,6 +5002,11 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
-- 
2.43.0


From 15c961a06a5ceeaf1875b73b45f4b8f1c6a4cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 32/75] fix: set the parent of a nested table only if the
 nested table is set

---
 helpers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/helpers.go b/helpers.go
index 0110024..5c471fa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -898,6 +895,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -1665,9 +1665,6 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColTypeByColIndex(colIndex)
 	if err != nil {
 		return err
@@ -1690,6 +1687,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
-- 
2.43.0


From 22af294b976d347e12ca6ca1588db069ec0d4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 33/75] fix: check the nested table in each cell of a nested
 table, not the same cell of the root table

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 480072e..af7af85 100644
--- a/tree.go
+++ b/tree.go
@@ -337,7 +337,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 940d0e2f49ef633aeb70ea5755bf3c8707d6d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 34/75] fix: return the errors that Walk() promises for a nil
 WalkSafe and a circular reference

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index af7af85..5533449 100644
--- a/tree.go
+++ b/tree.go
@@ -84,7 +84,7 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkNestedTables && walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
@@ -162,7 +162,7 @@ func (table *Table) Walk(
 						if exists { // Invalid table with circular reference!
 							// Construct CircRefError.
 							circError := NewCircRefError(table, nestedTable, "")
-							err = fmt.Errorf("visitCell(): %s", circError) // Wrap circError in err.
+							err = fmt.Errorf("visitCell(): %w", circError) // Wrap circError in err.
 							return err
 						} else {
 							// Add this nested table to the map.
-- 
2.43.0


From 215d27ceb1676a99f6b58ae1712934c085db87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 35/75] fix: do not write to nested tables while walking them

---
 tree.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/tree.go b/tree.go
index 5533449..e91f368 100644
--- a/tree.go
+++ b/tree.go
@@ -172,9 +172,6 @@ func (table *Table) Walk(
 						}
 					}
 
-					// Down into nested table.
-					nestedTable.depth++
-
 					// Recursive call to visit nested tables.
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
@@ -182,9 +179,6 @@ func (table *Table) Walk(
 					if err != nil {
 						return
 					}
-
-					// Back up from nested table.
-					nestedTable.depth--
 				}
 			}
 		}
-- 
2.43.0


From fd6826e5e74d596046553e52b60fee63ecec2fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 36/75] fix: return an error from GetCellInfoByColIndex() for a
 cell that does not exist

---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index e91f368..82d4b61 100644
--- a/tree.go
+++ b/tree.go
@@ -213,6 +213,11 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 		return cellInfo, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	hasCell, err := table.HasCellByColIndex(colIndex, rowIndex)
+	if !hasCell {
+		return cellInfo, err
+	}
+
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-- 
2.43.0


From 4514e8355f182a2de8b7bfe3aa679e4e2a2b5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 37/75] fix: return a copy from CopyDeep() and leave the
 original as it was

---
 tree.go | 77 +++++++++++++++++++++++++++------------------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/tree.go b/tree.go
index 82d4b61..0211dec 100644
--- a/tree.go
+++ b/tree.go
@@ -405,61 +405,56 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
+	isNilTable, err := table.IsNilTable()
+	if err != nil {
+		return nil, err
+	}
+	if isNilTable {
+		return NewNilTable(), nil // New reference just to be on the safe side.
+	}
 
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	hasCircularReference, err := table.HasCircularReference()
+	if hasCircularReference {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
+	tableCopy, err = table.CopyCols()
+	if err != nil {
+		return nil, err
+	}
+	tableCopy.isStructShape = table.isStructShape
+	tableCopy.sortKeys = append(tableCopy.sortKeys, table.sortKeys...)
 
-			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
-			if err != nil {
-				return
-			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		err = tableCopy.AppendRow()
+		if err != nil {
+			return nil, err
+		}
 
-			var isNilTable bool
-			isNilTable, err = nestedTable.IsNilTable()
+		for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
+			var val interface{}
+			val, err = table.GetValByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return
+				return nil, err
 			}
 
-			var nestedTableCopy *Table
-			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
-			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+			switch val.(type) {
+			case *Table:
+				var nestedTableCopy *Table
+				nestedTableCopy, err = val.(*Table).CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
+				err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
+			case []byte:
+				err = tableCopy.SetValByColIndex(colIndex, rowIndex, append([]byte{}, val.([]byte)...))
+			default:
+				err = tableCopy.SetValByColIndex(colIndex, rowIndex, val)
 			}
-
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
 			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				return nil, err
 			}
 		}
-		tableCopy = cell.Table
-
-		return
-	}
-
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
 	}
 
 	return
-- 
2.43.0


From c9f6c3f1f4d8274fd2ef804b4961e3887f323599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 38/75] fix: do not rename nested tables in StringNested()

---
 gotables.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gotables.go b/gotables.go
index 80eb02c..c2d434d 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4552,11 +4552,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-var globalDepth int
 func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
-//where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
-globalDepth++
-
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4608,19 +4604,19 @@ globalDepth++
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
+				// Rename a copy of the table header, so that the nested table itself is not changed.
+				var renamedTable Table = *nestedTable
+				err = renamedTable.SetName(newName)
 				if err != nil {
 					return
 				}
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
 			}
 		}
 	}
 
-	globalDepth--
-
 	return
 }
-- 
2.43.0


From 1684481575bcf10096eefc9c1df5311c15aed4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 39/75] fix: return instead of overflowing the stack when a
 table is nested inside itself

---
 gotables.go | 42 ++++++++++++++++++++++++++++++++++--------
 yaml.go     |  7 +++++++
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/gotables.go b/gotables.go
index c2d434d..6861b6c 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3309,13 +3309,25 @@ func isExportableName(name string) bool {
 	Useful for testing.
 */
 func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
+	return table1.equals_recursive(table2, map[*Table]struct{}{})
+}
+
+func (table1 *Table) equals_recursive(table2 *Table, ancestors circRefMap) (equals bool, err error) {
 
 	if table1 == nil {
-		return false, fmt.Errorf("table1.%s(table2): table1 is nil", UtilFuncNameNoParens())
+		return false, fmt.Errorf("table1.Equals(table2): table1 is nil")
+	}
+
+	// Do not descend forever into a table which is nested inside itself.
+	_, isAncestor := ancestors[table1]
+	if isAncestor {
+		return false, fmt.Errorf("table1.Equals(table2): %w", NewCircRefError(table1, table1, ""))
 	}
+	ancestors[table1] = EmptyStruct
+	defer delete(ancestors, table1)
 
 	if table2 == nil {
-		return false, fmt.Errorf("table1.%s(table2): table2 is nil", UtilFuncNameNoParens())
+		return false, fmt.Errorf("table1.Equals(table2): table2 is nil")
 	}
 
 	// Compare NilTable status.
@@ -3437,16 +3449,16 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				}
 
 				// Recursive call to compare nested tables.
-				equals, err := nestedTable1.Equals(nestedTable2)
+				equals, err := nestedTable1.equals_recursive(nestedTable2, ancestors)
 				if !equals {
 
 					if nestedTable1.parentTable != nil {
 						// Hmmm. Maybe the error message will be composed with each recursive call?
 						parentTableName := nestedTable1.parentTable.Name()
-						return equals, fmt.Errorf("%v (parent table [%s] colIndex=%d colName=%q rowIndex=%d)",
+						return equals, fmt.Errorf("%w (parent table [%s] colIndex=%d colName=%q rowIndex=%d)",
 							err, parentTableName, colIndex, colName, rowIndex)
 					} else {
-						return equals, fmt.Errorf("%v (nested table)", err)
+						return equals, fmt.Errorf("%w (nested table)", err)
 					}
 				}
 			} else if isTime {
@@ -4521,7 +4533,11 @@ func (table *Table) IsTableCol(colName string) (isTableCol bool, err error) {
 }
 
 func (table *Table) StringNested() (stringNested string) {
-	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested)
+	var ancestors circRefMap = map[*Table]struct{}{}
+	if table != nil {
+		ancestors[table] = EmptyStruct
+	}
+	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested, ancestors)
 	return
 }
 
@@ -4552,7 +4568,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
+func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string, ancestors circRefMap) {
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4595,6 +4611,15 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 //				tailName := fmt.Sprintf("__from_table_%s_col_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
 				tailName := fmt.Sprintf("__FROM_%s_%s_%d%s", parentTableName, colName, rowIndex, parentTailName)
 */
+				// Do not descend forever into a table which is nested inside itself.
+				_, isAncestor := ancestors[nestedTable]
+				if isAncestor {
+					_, _ = os.Stderr.WriteString(fmt.Sprintf("%s ERROR table.%s: %s\n", UtilFuncSource(), UtilFuncName(),
+						NewCircRefError(table, nestedTable, "")))
+					continue
+				}
+				ancestors[nestedTable] = EmptyStruct
+
 				headName := nestedTable.Name()
 				var tailName string
 				if debug {
@@ -4613,7 +4638,8 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested, ancestors)
+				delete(ancestors, nestedTable)
 			}
 		}
 	}
diff --git a/yaml.go b/yaml.go
index 624325e..883acea 100644
--- a/yaml.go
+++ b/yaml.go
@@ -470,6 +470,13 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 			return
 		}
 
+		// Do not descend forever into a table which is nested inside itself.
+		var hasCircularReference bool
+		hasCircularReference, err = table.HasCircularReference()
+		if hasCircularReference {
+			return
+		}
+
 		var yamlTable map[string]interface{}
 		yamlTable, err = table.getTableAsMap()
 		if err != nil {
-- 
2.43.0


From aa6017a58a9ac8b3bcdb6f37a7de0e21485ffa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 40/75] fix: compare nested tables by column name in Equals(),
 as for other columns

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 6861b6c..dc890cf 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3443,7 +3443,7 @@ func (table1 *Table) equals_recursive(table2 *Table, ancestors circRefMap) (equa
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From c730b9124d05da49573730cf6c0d13f72e5e9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 41/75] fix: return the error found by GetTableAsCSV()

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index dc890cf..b255912 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1764,7 +1764,7 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			var sVal string
 			sVal, err = table.GetValAsStringByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return "", nil
+				return "", err
 			}
 
 			// Handle special case of NaN which needs to be written as "" which is ,, in CSV.
-- 
2.43.0


From 7c518a441127e309784dd86d6ead6e041ce8d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 42/75] fix: generate Go code that compiles for *Table and
 time.Time columns

---
 generate.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generate.go b/generate.go
index 949cbdc..c015713 100644
--- a/generate.go
+++ b/generate.go
@@ -71,6 +71,9 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		buf.WriteString("\t")
 		buf.WriteString(colName)
 		buf.WriteString(" ")
+		if IsTableColType(colType) {
+			colType = "*gotables.Table" // The generated code is not in package gotables.
+		}
 		buf.WriteString(colType)
 		buf.WriteString("\n")
 	}
@@ -325,6 +328,12 @@ func typeProper(typeName string) string {
 
 // Returns getter/setter name without Get/Set prefix
 func accessorName(typeName string) string {
+	switch typeName {
+	case "*Table":
+		return "Table"
+	case "time.Time":
+		return "Time"
+	}
 	if strings.HasPrefix(typeName, "[]") {
 		return fmt.Sprintf("%sSlice", typeProper(typeName[2:]))
 	} else {
-- 
2.43.0


From a049b336f447cfa547d0758ade34f3ff6400e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 43/75] fix: generate Go code that compiles for columns named
 after its variables

---
 generate.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/generate.go b/generate.go
index c015713..955137c 100644
--- a/generate.go
+++ b/generate.go
@@ -158,38 +158,35 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 		                return nil, fmt.Errorf("TypeStructSliceFromTable_MyTable(slice []MyTable) slice is <nil>")
 		        }
 
+		        var err error
+
 		        var MyTable []MyTable = make([]MyTable, table.RowCount())
 
 		        for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-		                f, err := table.GetFloat32("f", rowIndex)
+		                MyTable[rowIndex].f, err = table.GetFloat32("f", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].f = f
 
-		                b, err := table.GetBool("b", rowIndex)
+		                MyTable[rowIndex].b, err = table.GetBool("b", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].b = b
 
-		                i, err := table.GetInt("i", rowIndex)
+		                MyTable[rowIndex].i, err = table.GetInt("i", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].i = i
 
-		                str, err := table.GetString("str", rowIndex)
+		                MyTable[rowIndex].str, err = table.GetString("str", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].str = str
 
-		                bb, err := table.GetByteSlice("bb", rowIndex)
+		                MyTable[rowIndex].bb, err = table.GetByteSlice("bb", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].bb = bb
 		        }
 
 		        return MyTable, nil
@@ -243,6 +240,9 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
 	buf.WriteString("\t}\n\n")
 
+	if table.ColCount() > 0 {
+		buf.WriteString("\tvar err error\n\n")
+	}
 	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, table.RowCount())\n\n", tableName, tableName, tableName))
 
 	buf.WriteString("\tfor rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {\n")
@@ -257,11 +257,11 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\t%s, err := table.%s(%q, rowIndex)\n", colName, getterName(colType), colName))
+		// Assign to the field directly. A variable named after the col could hide table or err.
+		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s, err = table.%s(%q, rowIndex)\n", tableName, colName, getterName(colType), colName))
 		buf.WriteString("\t\tif err != nil {\n")
 		buf.WriteString("\t\t\treturn nil, err\n")
 		buf.WriteString("\t\t}\n")
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s = %s\n", tableName, colName, colName))
 		sep = "\n"
 	}
 
-- 
2.43.0


From b728807aea80b8f98a534a374c6a2a3bb6eb795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 44/75] fix: shuffle pseudorandomly without the global random
 number generator

---
 gotables.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index b255912..d3db7ac 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4348,9 +4348,10 @@ func (table *Table) ShufflePseudorandom() error {
 
 	// This forces rand.Shuffle() to start from scratch on each call.
 	// Otherwise there is a surprise side effect if a rand function is called elsewhere.
-	rand.Seed(0)
+	// Not rand.Seed() because it has no effect in programs built for Go 1.24 or later.
+	pseudorandom := rand.New(rand.NewSource(0))
 
-	rand.Shuffle(len(table.rows), func(i, j int) {
+	pseudorandom.Shuffle(len(table.rows), func(i, j int) {
 		table.rows[i], table.rows[j] = table.rows[j], table.rows[i]
 	})
 
-- 
2.43.0


From 3219f385b5c7330db788f37d0427a6d352d15175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 45/75] fix: use the sort keys of nestable in Nest() if table
 has none

---
 nest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nest.go b/nest.go
index 38bb58a..1069b5f 100644
--- a/nest.go
+++ b/nest.go
@@ -56,7 +56,7 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d1233ef8e1a27e29a9bfc555d2f1769a6f9390f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 46/75] fix: nest a table with no rows where no rows of
 nestable match

---
 nest.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/nest.go b/nest.go
index 1069b5f..3001474 100644
--- a/nest.go
+++ b/nest.go
@@ -110,15 +110,29 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 			}
 		}
 
-		firstRow, lastRow, err := nestable.SearchRange(keys...)
+		err = nestable.checkSearchArguments(keys...)
 		if err != nil {
 			return err
 		}
 
 		nestTableName := nestColName
-		newTable, err := nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
-		if err != nil {
-			return err
+		var newTable *Table
+		firstRow, lastRow, err := nestable.SearchRange(keys...)
+		if err == nil {
+			newTable, err = nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
+			if err != nil {
+				return err
+			}
+		} else {
+			// No rows of nestable match this row. Nest a table with no rows.
+			newTable, err = NewTable(nestTableName)
+			if err != nil {
+				return err
+			}
+			err = newTable.AppendColsFromTable(nestable)
+			if err != nil {
+				return err
+			}
 		}
 
 		err = table.SetString(nestColName, rowIndex, newTable.StringUnpadded())
-- 
2.43.0


From aca55f48dd7d017ba0faa4d3965d3c33a88fdadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 47/75] fix: do not append a nil table to a table set

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index d3db7ac..57f8625 100644
--- a/gotables.go
+++ b/gotables.go
@@ -426,6 +426,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("%s tableSet.%s newTable is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
-- 
2.43.0


From 2e6bd5643e92d22b7c9b9397212795c73fc93dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 48/75] fix: append no rows in AppendRowsFromTable() if it
 fails

---
 gotables.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index 57f8625..f259f99 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3550,10 +3550,9 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 	return nil
 }
 
-func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) error {
+func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) (err error) {
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
-	var err error
 
 	if toTable == nil {
 		return fmt.Errorf("toTable.table.%s: table is <nil>", UtilFuncName())
@@ -3585,6 +3584,14 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// If any row cannot be appended, append none of them.
+	var rowCount int = toTable.RowCount()
+	defer func() {
+		if err != nil {
+			toTable.rows = toTable.rows[:rowCount]
+		}
+	}()
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From 71a056deb5dd3cda0897dd3877a7f28457a8a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 49/75] fix: append no cols in AppendColsFromTable() if it
 fails

---
 gotables.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index f259f99..2101795 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3495,7 +3495,7 @@ func (table1 *Table) equals_recursive(table2 *Table, ancestors circRefMap) (equa
 
 	Column order is ignored. Identical duplicate columns are ignored.
 */
-func (table *Table) AppendColsFromTable(fromTable *Table) error {
+func (table *Table) AppendColsFromTable(fromTable *Table) (err error) {
 
 	if table == nil {
 		return fmt.Errorf("%s table.%s(fromTable) table is <nil>", UtilFuncSource(), UtilFuncName())
@@ -3509,13 +3509,21 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
-	var err error
-
 	colsTable, err := fromTable.GetColInfoAsTable()
 	if err != nil {
 		return err
 	}
 
+	// If any col cannot be appended, append none of them.
+	var colCount int = table.ColCount()
+	defer func() {
+		if err != nil {
+			for table.ColCount() > colCount {
+				_ = table.DeleteColByColIndex(table.ColCount() - 1)
+			}
+		}
+	}()
+
 	for rowIndex := 0; rowIndex < colsTable.RowCount(); rowIndex++ {
 		colName, err := colsTable.GetString("colName", rowIndex)
 		if err != nil {
-- 
2.43.0


From d82995b6303a21424415b2ba455f91d245558048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 50/75] fix: keep the existing sort directions when
 SetSortKeysReverse() fails

---
 sort.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sort.go b/sort.go
index 180b35f..e1b3e75 100644
--- a/sort.go
+++ b/sort.go
@@ -199,9 +199,12 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	var previousSortKeys SortKeys = append(newSortKeys(), table.sortKeys...)
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
+			table.sortKeys = previousSortKeys
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
 			return errSortKey
 		}
-- 
2.43.0


From 0c3759362d9221fdfb10c20bbcc752ea10945add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 51/75] fix: leave sort keys as they were when Merge() or
 SortUnique() fails

---
 merge.go | 8 ++++++++
 sort.go  | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/merge.go b/merge.go
index b5230da..b535075 100644
--- a/merge.go
+++ b/merge.go
@@ -90,6 +90,14 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
+	// If the tables cannot be merged leave both as they were.
+	var sortKeys1, sortKeys2 SortKeys = table1.sortKeys, table2.sortKeys
+	defer func() {
+		if err != nil {
+			table1.sortKeys, table2.sortKeys = sortKeys1, sortKeys2
+		}
+	}()
+
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
diff --git a/sort.go b/sort.go
index e1b3e75..23b866f 100644
--- a/sort.go
+++ b/sort.go
@@ -1295,6 +1295,8 @@ func (inputTable *Table) SortUnique(sortCols ...string) (newTableUnique *Table,
 		return nil, fmt.Errorf("inputTable.%s table is <nil>", UtilFuncName())
 	}
 
+	var sortKeys SortKeys = inputTable.sortKeys
+
 	if len(sortCols) > 0 {
 		// Sort mode (1)
 		err := inputTable.SetSortKeys(sortCols...)
@@ -1311,6 +1313,7 @@ func (inputTable *Table) SortUnique(sortCols ...string) (newTableUnique *Table,
 	// Merge() eliminates duplicates (based on keys) and fills in zero and missing values where available.
 	newTableUnique, err = inputTable.Merge(inputTable)
 	if err != nil {
+		inputTable.sortKeys = sortKeys
 		return nil, err
 	}
 
-- 
2.43.0


From 97055836cd2cc6366173c825dc1562e1b5b0242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 52/75] fix: leave both tables as they were when Nest() fails

---
 nest.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/nest.go b/nest.go
index 3001474..8b8b742 100644
--- a/nest.go
+++ b/nest.go
@@ -55,6 +55,34 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 	}
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
+	var keyedTable *Table = table
+	if table.SortKeyCount() == 0 {
+		keyedTable = nestable
+	}
+
+	// Check the keys and the nest col before changing either table.
+	for _, key := range keyedTable.sortKeys {
+		colType, err := table.ColType(key.colName)
+		if err != nil {
+			return err
+		}
+		nestableColType, err := nestable.ColType(key.colName)
+		if err != nil {
+			return err
+		}
+		if colType != nestableColType {
+			return fmt.Errorf("[%s].%s([%s], %q): sort key %q has different types: %s and %s",
+				table.Name(), UtilFuncName(), nestable.Name(), nestColName, key.colName, colType, nestableColType)
+		}
+	}
+	if isValid, err := IsValidColName(nestColName); !isValid {
+		return err
+	}
+	if hasCol, _ := table.HasCol(nestColName); hasCol {
+		return fmt.Errorf("[%s].%s([%s], %q): col already exists: %s",
+			table.Name(), UtilFuncName(), nestable.Name(), nestColName, nestColName)
+	}
+
 	if table.SortKeyCount() == 0 {
 		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
-- 
2.43.0


From 84d25e458f1c1f01a48a1c4e5e167735bb510584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 53/75] fix: reject junk in struct lines instead of ignoring it

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 2e5e43c..0248b05 100644
--- a/parser.go
+++ b/parser.go
@@ -400,6 +400,10 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 					}
 				*/
 
+				if !structHasRowData && len(lineSplit) > 2 {
+					return nil, fmt.Errorf("#6 %s looks like struct without data but found: %s", p.gotFilePos(), line)
+				}
+
 				if structHasRowData {
 					// Find the equals sign byte location within the string so we can locate the value data after equals.
 					// We know it's there (from the line split above), so don't check for nil returned.
@@ -408,7 +412,7 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 						return nil, fmt.Errorf("%s expecting <name> <type> = <value> but found: %s", p.gotFilePos(), line)
 					}
 					// Just because the first line is isStructShape with data doesn't mean subsequent lines are.
-					if len(lineSplit) < 4 {
+					if len(lineSplit) < 4 || lineSplit[structEqualsIndex] != "=" {
 						return nil, fmt.Errorf("#5 %s looks like struct with data but found: %s", p.gotFilePos(), line)
 					}
 					var valueData string = line[rangeFound[1]:]        // Just after = equals sign.
-- 
2.43.0


From 4c9799a773cfb6f929a8d37fd87ef07208e03ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 54/75] fix: name the file and line of a duplicate col name

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index 0248b05..2d51fdf 100644
--- a/parser.go
+++ b/parser.go
@@ -727,6 +727,12 @@ func (p *parser) getColNames(colNames []string) ([]string, error) {
 				return nil, fmt.Errorf("%s %s", p.gotFilePos(), err) // Default error.
 			}
 		}
+
+		for j := 0; j < i; j++ {
+			if colNames[j] == colNames[i] {
+				return nil, fmt.Errorf("%s col [%s] already exists", p.gotFilePos(), colNames[i])
+			}
+		}
 	}
 
 	return colNames, nil
-- 
2.43.0


From 0ff00665793500eb8fb349a6d9a2809126340309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 55/75] fix: report col names without col types at the end of
 the text

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 2d51fdf..7c28ffb 100644
--- a/parser.go
+++ b/parser.go
@@ -527,6 +527,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 		}
 
 		if readError == io.EOF {
+			if expecting == _COL_TYPES {
+				return nil, fmt.Errorf("%s expecting row of col names to be followed by a row of col types", p.gotFilePos())
+			}
 			return tables, nil // It's not an error to reach EOF. It just means end of document.
 		}
 	}
-- 
2.43.0


From b0d129a51f67acf6ac61308a7aff724a1f451557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 56/75] fix: reject a JSON fraction which is not exactly an
 integer in an integer column

---
 json.go | 62 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/json.go b/json.go
index 9cd6c54..784cae9 100644
--- a/json.go
+++ b/json.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"math"
 	_ "os"
 	"reflect"
 	"regexp"
@@ -762,39 +761,54 @@ func NewTableFromJSONByTableName(jsonString string, tableName string) (table *Ta
 	return
 }
 
-// The limit below which every integer is exactly representable as float64.
-const maxExactFloat64Int float64 = 1 << 53
-
 // Convert number to a signed integer. It is an error if number does not fit in bitSize or is not an integer.
 func jsonNumberToInt(number json.Number, bitSize int) (int64, error) {
-	intVal, err := strconv.ParseInt(number.String(), 10, bitSize)
-	if err == nil {
-		return intVal, nil
-	}
-
-	// It may be an integer written with a decimal point or an exponent.
-	floatVal, floatErr := number.Float64()
-	if floatErr != nil || floatVal != math.Trunc(floatVal) || math.Abs(floatVal) >= maxExactFloat64Int {
-		return 0, err
-	}
-
-	return strconv.ParseInt(strconv.FormatFloat(floatVal, 'f', -1, 64), 10, bitSize)
+	return strconv.ParseInt(jsonNumberAsInteger(number), 10, bitSize)
 }
 
 // Convert number to an unsigned integer. It is an error if number does not fit in bitSize or is not an integer.
 func jsonNumberToUint(number json.Number, bitSize int) (uint64, error) {
-	uintVal, err := strconv.ParseUint(number.String(), 10, bitSize)
-	if err == nil {
-		return uintVal, nil
+	return strconv.ParseUint(jsonNumberAsInteger(number), 10, bitSize)
+}
+
+// An integer may be written with a decimal point or an exponent. Return its digits if it is exactly an integer,
+// or otherwise return number unchanged.
+func jsonNumberAsInteger(number json.Number) string {
+	const maxDigits int = 20 // No 64-bit integer has more digits than this.
+
+	var s string = number.String()
+	var sign string
+	if strings.HasPrefix(s, "-") {
+		sign, s = "-", s[1:]
 	}
 
-	// It may be an integer written with a decimal point or an exponent.
-	floatVal, floatErr := number.Float64()
-	if floatErr != nil || floatVal != math.Trunc(floatVal) || math.Abs(floatVal) >= maxExactFloat64Int {
-		return 0, err
+	var exponent int
+	if expIndex := strings.IndexAny(s, "eE"); expIndex >= 0 {
+		var err error
+		exponent, err = strconv.Atoi(s[expIndex+1:])
+		if err != nil {
+			return number.String()
+		}
+		s = s[:expIndex]
+	}
+	if pointIndex := strings.IndexByte(s, '.'); pointIndex >= 0 {
+		exponent -= len(s) - pointIndex - 1
+		s = s[:pointIndex] + s[pointIndex+1:]
+	}
+
+	for exponent < 0 && strings.HasSuffix(s, "0") {
+		s = s[:len(s)-1]
+		exponent++
+	}
+	s = strings.TrimLeft(s, "0")
+	if s == "" {
+		return "0"
+	}
+	if exponent < 0 || exponent > maxDigits {
+		return number.String()
 	}
 
-	return strconv.ParseUint(strconv.FormatFloat(floatVal, 'f', -1, 64), 10, bitSize)
+	return sign + s + strings.Repeat("0", exponent)
 }
 
 // Quote s as a JSON string. A Go quoted string (see %q) is not always a valid JSON string.
-- 
2.43.0


From fac23dc34482bd7a48103c15c858c8b8bc523fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 57/75] fix: quote YAML strings which start with a line break
 or space

---
 yaml.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index 883acea..890552b 100644
--- a/yaml.go
+++ b/yaml.go
@@ -5,8 +5,10 @@ import (
 	"fmt"
 	"math"
 	_ "os"
-	_ "strings"
+	"strings"
 	"time"
+	"unicode"
+	"unicode/utf8"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -442,7 +444,7 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	}
 
 	var yamlBytes []byte
-	yamlBytes, err = yaml.Marshal(yamlMap)
+	yamlBytes, err = yaml.Marshal(yamlQuoteStrings(yamlMap))
 	if err != nil {
 		return "", err
 	}
@@ -452,6 +454,37 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	return
 }
 
+/*
+	yaml.Marshal() writes a string with line breaks as a literal block. If its first line is empty
+	or is indented, that block is not always read back as the same string. Double-quote such strings.
+*/
+func yamlQuoteStrings(anyVal interface{}) interface{} {
+	switch val := anyVal.(type) {
+	case string:
+		firstRune, _ := utf8.DecodeRuneInString(val)
+		if strings.Contains(val, "\n") && unicode.IsSpace(firstRune) && utf8.ValidString(val) {
+			return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: val}
+		}
+	case map[string]interface{}:
+		for key := range val {
+			val[key] = yamlQuoteStrings(val[key])
+		}
+	case []map[string]interface{}:
+		for i := range val {
+			yamlQuoteStrings(val[i])
+		}
+	case []interface{}:
+		for i := range val {
+			val[i] = yamlQuoteStrings(val[i])
+		}
+	case [][]interface{}:
+		for i := range val {
+			yamlQuoteStrings(val[i])
+		}
+	}
+	return anyVal
+}
+
 func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From daf4d11272649affef9635c4aff1bcbfe66ffb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 58/75] fix: detect a first col missing from the col names
 lookup

---
 gotables.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 2101795..825bc84 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2887,7 +2887,8 @@ func (table *Table) isValidColNamesMap() (bool, error) {
 	}
 
 	for colIndex := 0; colIndex < len(table.colNamesMap); colIndex++ {
-		if table.colNamesMap[table.colNames[colIndex]] != colIndex {
+		mapIndex, exists := table.colNamesMap[table.colNames[colIndex]]
+		if !exists || mapIndex != colIndex {
 			return false, fmt.Errorf("table [%s] inconsistent table.colNamesMap: colNamesMap[%q] != colIndex %d",
 				table.Name(), table.colNames[colIndex], colIndex)
 		}
-- 
2.43.0


From 80fd4c3779782804a5df75cd4a092ea8b9b4adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 59/75] fix: AppendRowsFromTable refuses rows that a table
 without columns does not have

---
 gotables.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gotables.go b/gotables.go
index 825bc84..f67931e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3593,6 +3593,15 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// A table without columns has no cells to show that a row is missing.
+	if firstRow <= lastRow {
+		for _, fromRow := range []int{firstRow, lastRow} {
+			if hasRow, err := fromTable.HasRow(fromRow); !hasRow {
+				return err
+			}
+		}
+	}
+
 	// If any row cannot be appended, append none of them.
 	var rowCount int = toTable.RowCount()
 	defer func() {
-- 
2.43.0


From 41c055c02b11afcd2e0a789f65352fa532fa0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 60/75] fix: RowByRowIndex of a missing row is an error

---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index 0211dec..4353318 100644
--- a/tree.go
+++ b/tree.go
@@ -279,6 +279,11 @@ func (table *Table) RowByRowIndex(rowIndex int) (row Row, err error) {
 		return row, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return row, err
+	}
+
 	row.Table = table
 	row.RowIndex = rowIndex
 
-- 
2.43.0


From 7b4c0ccc916db66e63ea5a813b02b0b777c00e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 61/75] fix: write a CSV record which has only an empty field
 so that it is not skipped

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index f67931e..e953cad 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1784,6 +1784,13 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			}
 		}
 
+		if len(record) == 1 && record[0] == "" {
+			// The only field of this record is empty. CSV readers skip empty lines, so quote the field.
+			csvWriter.Flush()
+			buf.WriteString("\"\"\n")
+			continue
+		}
+
 		err = csvWriter.Write(record)
 		if err != nil {
 			return "", err
-- 
2.43.0


From 9f512f69f9b0f1663791edabc8985b3ef60886b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 62/75] fix: count NewTreeTable() calls without a data race

---
 tree.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index 4353318..71376c4 100644
--- a/tree.go
+++ b/tree.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"strings"
+	"sync/atomic"
 )
 
 var CURRENT_TESTS_VERBOSE bool = false
@@ -578,12 +579,12 @@ func (rootTable *Table) NewTreeTable1(tablesDepth int) (treeTable *Table, err er
 	If there are no type *Table cols in table, or if depth is set to 0, then
 	return table unchanged.
 */
-var globalTreeCalls int
-var globalTreeDepth int
+var globalTreeCalls int64
+var globalTreeDepth int64
 func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
-globalTreeCalls++
+calls := atomic.AddInt64(&globalTreeCalls, 1)
 if CURRENT_TESTS_VERBOSE {
-where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
+where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", calls))
 }
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
@@ -609,11 +610,11 @@ where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
 }
 
 func newTreeTable_recursive(originalTable *Table, table *Table, depth int) (err error) {
-globalTreeDepth++
+recursions := atomic.AddInt64(&globalTreeDepth, 1)
 if CURRENT_TESTS_VERBOSE {
 where(fmt.Sprintf("newTreeTable_recursive(depth=%d)\n", depth))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", globalTreeCalls))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", globalTreeDepth))
+where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", atomic.LoadInt64(&globalTreeCalls)))
+where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", recursions))
 }
 
 	if originalTable == nil {
-- 
2.43.0


From 7ec75c5709237235923a32f7ff25a545ab9a8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 63/75] fix: read the file that was named, not the one its
 cleaned path names

---
 parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 7c28ffb..6667574 100644
--- a/parser.go
+++ b/parser.go
@@ -624,9 +624,14 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 	p.SetFileName(fileName) // For file and line diagnostics.
 
 	if filepath.IsAbs(fileName) {
-		fileName, err = UtilFilepathAbs(fileName)
-		if err != nil {
-			return nil, err
+		const cygwinRootOfAllDrives = "/cygdrive/"
+		if strings.HasPrefix(fileName, cygwinRootOfAllDrives) {
+			// Only a cygwin path is converted. Another path must not be cleaned because
+			// if link is a symbolic link then link/../file need not be the same file as file.
+			fileName, err = UtilFilepathAbs(fileName)
+			if err != nil {
+				return nil, err
+			}
 		}
 		fileName = filepath.ToSlash(fileName)
 	}
-- 
2.43.0


From fd26bc85c56aaad4f337288d667ebc8a8b2e8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 64/75] fix: pad cells wider than a million characters

---
 gotables.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index e953cad..cfdc639 100644
--- a/gotables.go
+++ b/gotables.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 //	"golang.org/x/text/width"
@@ -1373,7 +1374,7 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 					// The padding is to ensure the next column to the right is aligned along a straight edge.
 					toWrite = padTrailingZeros(toWrite)
 				}
-				s = fmt.Sprintf("%s%*s", sep, width[col], toWrite) // Align right
+				s = sep + padding(toWrite, width[col]) + toWrite // Align right
 				if col == rightmostCol {
 					// Padding to the right of the rightmost column is unnecessary. Remove it here.
 					// Remove any jagged space padding to the right of decimal point.
@@ -1385,7 +1386,7 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 					// Don't pad (unnecessarily) to the right of rightmost col if it is left-aligned.
 					s = fmt.Sprintf("%s%s", sep, matrix[col][row]) // With no padding, doesn't need align left with -
 				} else {
-					s = fmt.Sprintf("%s%-*s", sep, width[col], matrix[col][row]) // Align left with -
+					s = sep + matrix[col][row] + padding(matrix[col][row], width[col]) // Align left
 				}
 				buf.WriteString(s)
 			}
@@ -1699,6 +1700,11 @@ func precisionOf(s string) (precision int) {
 	return precision
 }
 
+// The spaces which pad s to width. Not fmt.Sprintf("%*s") because it has a maximum width of 1e6.
+func padding(s string, width int) string {
+	return strings.Repeat(" ", max(0, width-utf8.RuneCountInString(s)))
+}
+
 func setWidths(s string, colIndex int, prenum []int, points []int, precis []int, width []int) {
 	prenum[colIndex] = max(prenum[colIndex], preNumberOf(s))
 	points[colIndex] = max(points[colIndex], pointsOf(s))
-- 
2.43.0


From 9abd5343ffd7e93c7f1728d20cdaad932ee8d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 65/75] fix: reject JSON and YAML data which is not a list of
 rows instead of ignoring it

---
 json.go | 3 +++
 yaml.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/json.go b/json.go
index 784cae9..6a61db0 100644
--- a/json.go
+++ b/json.go
@@ -358,6 +358,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	var data []interface{}
 	data, exists = jsonMap["data"].([]interface{})
 	if !exists {
+		if jsonMap["data"] != nil {
+			return nil, fmt.Errorf("expecting a slice of rows in JSON data but got: %v", jsonMap["data"])
+		}
 		// Zero rows in this table. That's okay.
 		return table, nil
 	}
diff --git a/yaml.go b/yaml.go
index 890552b..f14d063 100644
--- a/yaml.go
+++ b/yaml.go
@@ -196,7 +196,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				data[i] = append(data[i], el2)
 			}
 		}
+	case nil:
+		// Zero rows in this table. That's okay.
 	default:
+		err = fmt.Errorf("expecting a sequence of rows in YAML data but got: %v", whatever)
+		return nil, err
 	}
 
 	whatever, exists = existsInMap(tableMap, "data")
-- 
2.43.0


From a84f13c3cdedcdd446b4a52f1af4fc5fc188fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 66/75] fix: refuse a JSON cell whose col name is not that of
 its col

---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 6a61db0..b67b8bc 100644
--- a/json.go
+++ b/json.go
@@ -386,8 +386,12 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			if !isMap || len(cellMap) != 1 {
 				return nil, fmt.Errorf("expecting one col name and value in JSON row %d col %d but got: %v", rowIndex, colIndex, val)
 			}
+			var cellName string
 			var cell interface{}
-			for _, cell = range cellMap {
+			for cellName, cell = range cellMap {
+				if cellName != table.colNames[colIndex] {
+					return nil, fmt.Errorf("expecting col name %q in JSON row %d col %d but got: %q", table.colNames[colIndex], rowIndex, colIndex, cellName)
+				}
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
-- 
2.43.0


From 5405467f78eb0c68b3f4b6aafba619d3d91ac4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 67/75] fix: refuse JSON with anything after the table set

---
 json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json.go b/json.go
index b67b8bc..d92822b 100644
--- a/json.go
+++ b/json.go
@@ -680,6 +680,12 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 		return nil, err
 	}
 
+	// Do not ignore anything which follows the JSON document.
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, fmt.Errorf("%s: unexpected data after JSON table set", UtilFuncName())
+	}
+
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
 	var exists bool
-- 
2.43.0


From c748d80d6f0cbffc4bc86e3aa6656dd3884e42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 68/75] fix: refuse YAML of more than one document instead of
 dropping all but the first

---
 yaml.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index f14d063..727ccc4 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,6 +3,7 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"io"
 	"math"
 	_ "os"
 	"strings"
@@ -37,11 +38,19 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	}
 
 	var tableSetMap map[string]interface{}
-	err = yaml.Unmarshal([]byte(yamlTableSetString), &tableSetMap)
+	decoder := yaml.NewDecoder(strings.NewReader(yamlTableSetString))
+	err = decoder.Decode(&tableSetMap)
 	if err != nil {
 		return
 	}
 
+	// Do not ignore any further YAML documents.
+	var another yaml.Node
+	err = decoder.Decode(&another)
+	if err != io.EOF {
+		return nil, fmt.Errorf("%s %s: expecting one YAML doc but found more", UtilFuncSource(), UtilFuncName())
+	}
+
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
 	var exists bool
-- 
2.43.0


From a45c9571b62bdbcc20432a9f0f910021986cb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 69/75] fix: refuse GOB with anything after the table or the
 table set header

---
 gob.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gob.go b/gob.go
index f5e7ec4..b79d101 100644
--- a/gob.go
+++ b/gob.go
@@ -298,6 +298,9 @@ func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	if err != nil {
 		return nil, err
 	}
+	if encodedHeader.Len() > 0 {
+		return nil, fmt.Errorf("%s: unexpected data after table set header", UtilFuncName())
+	}
 	tableSet.tableSetName = tableSetHeader.TableSetName
 	tableSet.fileName = tableSetHeader.FileName
 
@@ -334,6 +337,9 @@ func GobDecodeTable(buf []byte) (*Table, error) {
 	if err != nil {
 		return nil, err
 	}
+	if buffer.Len() > 0 {
+		return nil, fmt.Errorf("%s: unexpected data after table", UtilFuncName())
+	}
 
 	tableDecoded, err = tableExported.importTable()
 	if err != nil {
-- 
2.43.0


From 645841790f076d3da1fb4092c9809e6c07217cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 70/75] fix: StringNested took quadratic time and memory in the
 number of nested tables

---
 gotables.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gotables.go b/gotables.go
index cfdc639..a4cc39e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4580,8 +4580,9 @@ func (table *Table) StringNested() (stringNested string) {
 	if table != nil {
 		ancestors[table] = EmptyStruct
 	}
-	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested, ancestors)
-	return
+	var buf strings.Builder
+	table.stringNested_recursive(table.Name(), "", "", 0, &buf, ancestors)
+	return buf.String()
 }
 
 /*
@@ -4611,7 +4612,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string, ancestors circRefMap) {
+func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *strings.Builder, ancestors circRefMap) {
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4630,8 +4631,8 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 		*stringNested += table.String() + "\n"
 	}
 */
-	*stringNested += table.String() + "\n"
-//where("\n" + *stringNested)
+	stringNested.WriteString(table.String() + "\n")
+//where("\n" + stringNested.String())
 //where("-------------------- stringNested_recursive() --------------------")
 
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
-- 
2.43.0


From 3bf4293d8e575115fb88b1883b57f78512bb06ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 71/75] fix: the text of a table set took quadratic time and
 memory in the number of tables

---
 gotables.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gotables.go b/gotables.go
index a4cc39e..0283fd5 100644
--- a/gotables.go
+++ b/gotables.go
@@ -305,21 +305,21 @@ func (tableSet *TableSet) StringPadded() string {
 		return ""
 	}
 	var verticalSep string = ""
-	var s string
+	var buf strings.Builder
 
 	var tableSetName string = tableSet.Name()
 	if tableSetName != "" {
-		s += fmt.Sprintf("[[%s]]\n\n", tableSet.Name())
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
 	}
 
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
 		table = tableSet.tables[i]
-		s += verticalSep
-		s += table.StringPadded()
+		buf.WriteString(verticalSep)
+		buf.WriteString(table.StringPadded())
 		verticalSep = "\n"
 	}
-	return s
+	return buf.String()
 }
 
 func (tableSet *TableSet) StringUnpadded() string {
-- 
2.43.0


From db1ef4e156c629f8f5ba9a3908b8e45742c4627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 72/75] fix: reading column names took quadratic time in their
 number

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 6667574..e5085a6 100644
--- a/parser.go
+++ b/parser.go
@@ -720,6 +720,7 @@ func (p *parser) getTableName(line string) (string, error) {
 }
 
 func (p *parser) getColNames(colNames []string) ([]string, error) {
+	var colNamesSeen = make(map[string]struct{}, len(colNames))
 	for i := 0; i < len(colNames); i++ {
 		isValid, err := IsValidColName(colNames[i])
 		if !isValid {
@@ -736,11 +737,11 @@ func (p *parser) getColNames(colNames []string) ([]string, error) {
 			}
 		}
 
-		for j := 0; j < i; j++ {
-			if colNames[j] == colNames[i] {
-				return nil, fmt.Errorf("%s col [%s] already exists", p.gotFilePos(), colNames[i])
-			}
+		_, exists := colNamesSeen[colNames[i]]
+		if exists {
+			return nil, fmt.Errorf("%s col [%s] already exists", p.gotFilePos(), colNames[i])
 		}
+		colNamesSeen[colNames[i]] = EmptyStruct
 	}
 
 	return colNames, nil
-- 
2.43.0


From be010df2053ee54bbc0e55c9f580ad8ef8743be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 73/75] fix: deleting the last columns one by one, or undoing
 AppendColsFromTable, took quadratic time

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 0283fd5..3fa19e2 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1888,7 +1888,7 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 
 	// Delete colName from colNamesMap. This has to come AFTER deleting the colName from colNames.
 	delete(table.colNamesMap, colName)
-	for localColIndex := 0; localColIndex < len(table.colNames); localColIndex++ {
+	for localColIndex := colIndex; localColIndex < len(table.colNames); localColIndex++ {
 		table.colNamesMap[table.colNames[localColIndex]] = localColIndex
 	}
 
-- 
2.43.0


From 112e1f3a947c37f6dca90b03de3c36d4eac86683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:28 +0000
Subject: [PATCH 74/75] fix: generated conversion compiles for tables named
 table, err or rowIndex

---
 generate.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/generate.go b/generate.go
index 955137c..8db36e3 100644
--- a/generate.go
+++ b/generate.go
@@ -235,17 +235,22 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		tableName, tableName))
 	buf.WriteString("*/\n")
 
-	buf.WriteString(fmt.Sprintf("func %s(table *gotables.Table) ([]%s, error) {\n", funcName, tableName))
-	buf.WriteString("\tif table == nil {\n")
+	// The generated variables must not hide the struct type, which has the name of the table.
+	tableVar := generatedVarName("table", tableName)
+	errVar := generatedVarName("err", tableName)
+	rowIndexVar := generatedVarName("rowIndex", tableName)
+
+	buf.WriteString(fmt.Sprintf("func %s(%s *gotables.Table) ([]%s, error) {\n", funcName, tableVar, tableName))
+	buf.WriteString(fmt.Sprintf("\tif %s == nil {\n", tableVar))
 	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
 	buf.WriteString("\t}\n\n")
 
 	if table.ColCount() > 0 {
-		buf.WriteString("\tvar err error\n\n")
+		buf.WriteString(fmt.Sprintf("\tvar %s error\n\n", errVar))
 	}
-	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, table.RowCount())\n\n", tableName, tableName, tableName))
+	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, %s.RowCount())\n\n", tableName, tableName, tableName, tableVar))
 
-	buf.WriteString("\tfor rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {\n")
+	buf.WriteString(fmt.Sprintf("\tfor %s := 0; %s < %s.RowCount(); %s++ {\n", rowIndexVar, rowIndexVar, tableVar, rowIndexVar))
 	var sep string = ""
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colName, err := table.ColName(colIndex)
@@ -258,9 +263,10 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		}
 		buf.WriteString(sep)
 		// Assign to the field directly. A variable named after the col could hide table or err.
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s, err = table.%s(%q, rowIndex)\n", tableName, colName, getterName(colType), colName))
-		buf.WriteString("\t\tif err != nil {\n")
-		buf.WriteString("\t\t\treturn nil, err\n")
+		buf.WriteString(fmt.Sprintf("\t\t%s[%s].%s, %s = %s.%s(%q, %s)\n",
+			tableName, rowIndexVar, colName, errVar, tableVar, getterName(colType), colName, rowIndexVar))
+		buf.WriteString(fmt.Sprintf("\t\tif %s != nil {\n", errVar))
+		buf.WriteString(fmt.Sprintf("\t\t\treturn nil, %s\n", errVar))
 		buf.WriteString("\t\t}\n")
 		sep = "\n"
 	}
@@ -276,6 +282,14 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 	return typeStruct, nil
 }
 
+// Return the name of a variable in generated code, which differs from the name of the table.
+func generatedVarName(varName string, tableName string) string {
+	if varName == tableName {
+		return varName + "_"
+	}
+	return varName
+}
+
 /*
 	Generate a set of Go functions (as a string) to convert a gotables.TableSet to slices of struct.
 
-- 
2.43.0


From f1409f6a852793eda6b1b4374156d1c813690f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:50 +0000
Subject: [PATCH 75/75] fix: tables with columns named _TABLE_ or _DELETE_ can
 be merged and made unique

---
 merge.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index b535075..14cd07c 100644
--- a/merge.go
+++ b/merge.go
@@ -139,7 +139,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	var tempColCount int // To ignore temporary columns.
 
 	// Add a column to keep track of which columns came from which table.
-	const tableNumberColName = "_TABLE_"
+	var tableNumberColName string = merged.unusedColName("_TABLE_")
 	err = merged.AppendCol(tableNumberColName, "int")
 	if err != nil {
 		return nil, err
@@ -207,7 +207,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Add a column to keep track of which columns are duplicates, to be deleted later.
-	const deleteColName = "_DELETE_"
+	var deleteColName string = merged.unusedColName("_DELETE_")
 	err = merged.AppendCol(deleteColName, "bool")
 	if err != nil {
 		return nil, err
@@ -497,6 +497,17 @@ func isZeroCell(val interface{}) bool {
 	return false
 }
 
+// Return colName, extended where table already has a col of that name.
+func (table *Table) unusedColName(colName string) string {
+	for {
+		_, exists := table.colNamesMap[colName]
+		if !exists {
+			return colName
+		}
+		colName += "_"
+	}
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
-- 
2.43.0

