#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The text below is the source; run this after editing it.
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Tables and table sets survive being written as text and parsed back",
 "Writing any table or table set in the gotables text format and parsing that text gives back a table (set) with the same names, columns, types, row order and exactly equal cell values. This holds for the padded, the unpadded and the struct-shape layouts, and a table of at most one row in struct shape comes back in struct shape. Nested tables are written by name only, so a nested-table cell comes back as a table of that name; the nested form writes each nested table as well.",
 ["inputs"],"every table of the 20 column types, any shape (no columns, no rows, one row, many rows), any finite or non-finite cell value, any string content, in each layout",
 "Tests compare a few hand-written tables with golden strings; the padded and unpadded writers and the parser each have one path per column type and per shape, so the property is about the product of types x values x layouts.",
 ["gotables.go","parser.go"],
 [("padded and unpadded writers","gotables.go: Table.StringPadded, Table.StringUnpadded, TableSet._String, Table.printStruct"),("parser","parser.go: parseString, getRowSlice"),("float padding keeps digits","gotables.go: setWidths, padTrailingZeros, trimTrailingZeros")],
 [("cell values","rows of interface{} values aligned with column names and types","gotables.go: type Table")],["NewTableFromString","NewTableSetFromString","Table.String*","TableSet.String*"])

prop("C02","The parser is total, and what it accepts is valid and has a stable text form",
 "Parsing any string either returns an error or returns a table set in which every table is valid: unique well-formed names, known types, and every row holding exactly one value of the declared type per column. Parsing never panics, exits the process or hangs. Text produced from an accepted input parses again to an equal table set, and writing that again reproduces the same text, and a missing final line break makes no difference.",
 ["inputs"],"every byte string: grammar-generated documents, mutated documents, and arbitrary bytes",
 "Tests feed a fixed list of good and bad strings; the parser is a hand-written state machine over lines and regular expressions whose accepted language is unbounded.",
 ["parser.go","gotables.go"],
 [("line state machine","parser.go: parseString, getTableShape"),("token recognisers","parser.go: getRowSlice and the anchored regular expressions in init"),("name and type validation","parser.go: getTableName, getColNames, getColTypes, IsValidColName, IsValidColType")],
 None,["NewTableSetFromString","NewTableFromString"])

prop("C03","Literals mean exactly what they say; values that do not fit are rejected",
 "Each cell literal in a table text yields exactly the value it denotes in its column's type: integers of every width, floats correctly rounded, booleans, quoted and raw strings, runes, byte slices and RFC 3339 times. A literal that is malformed or outside the range of its column type is rejected with an error; it is never truncated, wrapped or silently replaced. In particular an integer is accepted exactly when it lies within the type's minimum and maximum.",
 ["inputs"],"every literal of every column type, with emphasis on range boundaries, one beyond, exotic spellings and malformed neighbours",
 "Tests try one or two values per type; the boundary and spelling space of 18 textual types cannot be sampled by hand.",
 ["parser.go"],
 [("integer parsing with range per type","parser.go: parseInt, parseUint, getRowSlice, rangeForIntegerType"),("rune, float, time and slice recognisers","parser.go: parseRune, getRowSlice, splitSliceString")],
 None,["NewTableFromString"])

prop("C04","A parse error names the line (and file) that is at fault",
 "When exactly one line of an otherwise valid table text or file is damaged so that the line itself cannot be parsed, the reported error carries the 1-based number of that line. When the text came from a file the error also names that file. This holds regardless of what was parsed before, or is being parsed at the same time.",
 ["inputs","schedules"],"every valid document, every position of a single damaged line within it, also with several parses running concurrently",
 "Tests check that an error is returned, hardly ever which line it names, and never in the presence of another parse.",
 ["parser.go"],
 [("line counter owned by the parser","parser.go: parseString, gotFilePos, file_line")],
 [("lineNum, fileName","position of the line being parsed","parser.go: type parser")],["NewTableSetFromString error","NewTableSetFromFile error"])

prop("C05","JSON round trip preserves tables, nested tables and table sets",
 "Encoding any table or table set as JSON (compact or indented) and decoding it gives back equal names, columns, types, row order and exactly equal cell values, at every level of nesting. A table that JSON cannot represent (a NaN or infinite float, text that is not valid UTF-8, a table nested in itself) is refused with an error and never encoded as something else. Selecting one table of an encoded set by its name yields that table.",
 ["inputs"],"every table of every column type and value including 64-bit extremes, and every finite nesting of tables",
 "Tests round-trip a handful of tables; numeric precision, escaping, nesting depth and empty shapes multiply.",
 ["json.go"],
 [("encoder","json.go: getTableAsJSON_recursive, GetTableSetAsJSON, quoteJSON"),("decoder","json.go: newTableFromJSON_recursive, jsonNumberToInt, jsonNumberToUint, NewTableSetFromJSON, NewTableFromJSONByTableName")],
 None,["GetTableAsJSON*","GetTableSetAsJSON*","NewTableFromJSON*","NewTableSetFromJSON"])

prop("C06","JSON output is valid JSON whose content is the table",
 "Every JSON string produced for a table or table set is one valid RFC 8259 document that an independent JSON reader accepts. That reader finds the table name, the column names and types in column order, and one entry per row and column whose value is the cell's exact value. The compact and the indented forms denote the same document.",
 ["inputs"],"every encodable table, in particular strings and runes with quotes, backslashes, control characters, HTML characters and non-BMP text",
 "Golden-string tests use plain ASCII content and share the library's own reader as oracle.",
 ["json.go"],
 [("string quoting","json.go: quoteJSON"),("hand-written document structure","json.go: getTableAsJSON_recursive, GetTableSetAsJSON, indentJSON")],
 None,["GetTableAsJSON","GetTableAsJSONIndent","GetTableSetAsJSON","GetTableSetAsJSONIndent"])

prop("C07","YAML round trip preserves table sets, including nested tables",
 "Encoding any table set as YAML and decoding it gives back equal names, columns, types, row order and exactly equal cell values, at every level of nesting. A set that cannot be represented is refused with an error and never encoded as something else.",
 ["inputs"],"every table set of every column type and value, including strings that look like YAML syntax or other types, non-finite floats, and every finite nesting",
 "Tests round-trip a few sets; YAML re-types scalars, so each combination of column type and value spelling is its own case.",
 ["yaml.go"],
 [("encoder","yaml.go: GetTableSetAsYAML, GetTableSetAsMap, getTableAsMap"),("decoder with per-type conversion","yaml.go: NewTableSetFromYAML, newTableFromYAML_recursive, intFitsColType")],
 None,["GetTableSetAsYAML","NewTableSetFromYAML"])

prop("C08","GOB round trip preserves tables, table sets and sort keys",
 "Encoding any table or table set without nested-table or time columns in GOB form and decoding it gives back equal names, columns, types, row order, exactly equal cell values (NaN included) and the same sort keys with the same directions. A table that cannot be encoded is refused with an error. Decoding does not depend on the encoder's memory: later changes to either side do not show in the other.",
 ["inputs"],"every table of the GOB-encodable column types, with any values, sort keys and shape, alone or in a set",
 "Tests encode a few tables and do not set sort keys, extreme values or empty shapes.",
 ["gob.go"],
 [("export and import forms","gob.go: exportTable, importTable"),("encode and decode","gob.go: GobEncode, GobDecodeTable, GobDecodeTableSet")],
 None,["GobEncode","NewTableFromGob","NewTableSetFromGob","GobDecodeTable","GobDecodeTableSet"])

prop("C09","Decoders survive hostile JSON, YAML and GOB, and never alter a number",
 "Decoding any JSON, YAML or GOB input returns either an error or a valid table (set) that holds every table, column, row and cell of the input under its own name; it never panics, exits or hangs. A number in the input that does not fit the declared column type is rejected: it is never truncated, wrapped or rounded into an integer column. A value of the wrong kind for its column (text in a number column, a fraction in an integer column, a row that is not a list of cells) is rejected.",
 ["inputs"],"structurally mutated encodings, type- and range-confused cells, truncated and bit-flipped byte streams, arbitrary bytes",
 "Tests decode what the encoder wrote plus a few malformed strings.",
 ["json.go","yaml.go","gob.go"],
 [("JSON conversions","json.go: newTableFromJSON_recursive, jsonNumberToInt, jsonNumberToUint"),("YAML conversions","yaml.go: newTableFromYAML_recursive, intFitsColType, isValidYAML"),("GOB validation","gob.go: importTable")],
 None,["NewTableFromJSON","NewTableSetFromJSON","NewTableSetFromYAML","NewTableFromGob","NewTableSetFromGob"])

prop("C10","Any history of table edits matches a simple reference table",
 "After any sequence of column, row, cell, name and sort-key operations the table holds exactly what a plain ordered list of named typed columns and rows would hold after the same sequence: appending, deleting, renaming, swapping, reordering and setting change what they name and nothing else. New rows and new columns hold zero values. Counts, lookups by name and lookups by index agree with each other, and the table is valid, after every step.",
 ["histories"],"every finite sequence of public mutating operations with valid and invalid arguments, over every column type and initial shape",
 "Tests apply one operation to a fresh table; the column name map, types, rows and sort keys are separate structures that only go out of step over sequences.",
 ["gotables.go","helpers.go","sort.go"],
 [("column bookkeeping","gotables.go: AppendCol, DeleteColByColIndex, RenameCol, appendCols; sort.go: SwapColsByColIndex, OrderColsBySortKeys; gotables.go: ReorderColsByColIndex"),("row bookkeeping","gotables.go: AppendRows, DeleteRows, DeleteRowsAll, AppendRowsFromTable, AppendColsFromTable"),("validity check","gotables.go: IsValidTable, IsValidRow")],
 [("colNames, colTypes, colNamesMap, rows, sortKeys","parallel structures that must stay in step","gotables.go: type Table")],["all Table accessors"])

prop("C11","An operation that returns an error leaves its table unchanged",
 "When a table or table-set operation fails, every table involved (its name, columns, types, cell values, sort keys and shape) and the set's membership are exactly as they were before the call. Operations on missing columns or rows, mistyped values, duplicate or malformed names, incompatible tables, or nil arguments fail with an error; they do not panic and do not partly apply.",
 ["histories","inputs"],"every mutating operation, with every class of invalid argument, in any table state",
 "Tests check that an error comes back and seldom look at the table afterwards.",
 ["gotables.go","helpers.go","sort.go","merge.go","nest.go"],
 [("validate before mutating","gotables.go: AppendCol, SetVal, AppendRowsFromTable, AppendColsFromTable, DeleteRows, RenameCol; sort.go: SetSortKeys, SetSortKeysReverse, OrderColsBySortKeys; nest.go: Nest"),("index and type checks","helpers.go: Set<Type>, Set<Type>ByColIndex")],
 None,["table snapshot before and after each failing call"])

prop("C12","Typed cell access is exact, type-safe and consistent across its forms",
 "A value stored in a cell is returned unchanged by every way of reading that cell (by column name or index, typed or untyped), and no other cell changes. Reading or writing a cell with an accessor of another type, or at a position that does not exist, fails with an error, and the must-succeed forms panic exactly when the plain forms fail. A cell's textual form parses back to the same value.",
 ["inputs"],"every column type x accessor x addressing form x position (valid and not), over boundary and random values",
 "There are about 160 near-identical generated accessors; tests exercise a few values on each and the wrong-type matrix hardly at all.",
 ["helpers.go","gotables.go"],
 [("generated accessors","helpers.go: Get<Type>, Set<Type>, ...ByColIndex, ...MustGet, ...MustSet"),("untyped access","gotables.go: GetVal, SetVal, SetValByColIndex, GetValAsString, JoinColVals"),("zero and NaN setters","gotables.go: SetCellToZeroValue, SetFloatCellToNaN and relatives")],
 None,["Get*/Set* results"])

prop("C13","Sorting yields an ordered permutation by the declared keys",
 "After a successful sort the rows are a permutation of the rows before it, and every row compares not greater than the next under the sort keys taken in order, each key ascending or descending as declared, strings alphabetically (ignoring case first) and NaN before other floats. Rows equal on all keys may come in any order. Sort keys keep naming the same columns when columns are renamed, reordered or deleted, and sorting with no or unknown keys fails without changing the rows.",
 ["inputs","histories"],"every table, every list of sort keys and directions over the sortable column types, including ties, extremes and NaN, after any column edits",
 "Tests sort small tables with distinct values on one or two keys.",
 ["sort.go","gotables.go"],
 [("comparison per type","sort.go: compareFuncs, compare_*"),("multi-key ordering","sort.go: Less, sortByKeys, CompareRows"),("key maintenance","sort.go: SetSortKeys, SetSortKeysReverse, AppendSortKey, DeleteSortKey; gotables.go: RenameCol, DeleteColByColIndex")],
 [("sortKeys","ordered keys with direction and type","sort.go: type sortKey")],["Sort","SortSimple","CompareRows"])

prop("C14","Search finds exactly the rows a linear scan would find",
 "On a table sorted by its keys, searching for key values returns the first, the last, or the range of the rows whose keys equal those values, exactly as a linear scan of the rows would; when no row matches it reports so with an error. This holds for multiple and descending keys and for values below, between and above all rows. Searching never changes the table, and mistyped or miscounted search values are rejected.",
 ["inputs"],"every sorted table (0 to many rows, heavy duplication) and every search tuple, present or absent",
 "Binary search boundary errors depend on row count, duplicates and key direction jointly.",
 ["sort.go"],
 [("binary search","sort.go: searchByKeysFirst, searchByKeysLast, SearchFirst, SearchLast, SearchRange, searchValuesMatchRowValues"),("argument checks","sort.go: checkSearchArguments")],
 None,["Search","SearchFirst","SearchLast","SearchRange","NewTableFromRowsBySearchRange"])

prop("C15","Merging and de-duplicating combine rows by key without loss or invention",
 "Merging two tables with the same sort keys gives one row for every key that occurs in either, in key order, whose every other cell is the first table's value if that is meaningful (not zero, not NaN), otherwise the second's if that is, otherwise zero in preference to NaN; columns of either table all appear. Keeping the unique rows of a table by its sort keys likewise gives exactly one row per distinct key, combining the duplicates. Inputs that are incompatible are refused with an error.",
 ["inputs"],"every pair of tables with unique or duplicated keys, overlapping columns and any cell values",
 "Tests merge two or three fixed pairs; the rule is per key, per column, per value class and per type.",
 ["merge.go","sort.go"],
 [("merge","merge.go: Merge, isZeroCell, copyTableCells"),("unique","sort.go: SortUnique")],
 None,["Merge","SortUnique"])

prop("C16","Copies equal their source and are independent of it",
 "A copy of a table or table set (shallow, deep, by row range, by search range or by column selection) has equal content to the part it copies. Changing cells, rows, columns, names or sort keys of either one never shows in the other; for a deep copy this includes nested tables and the bytes of byte slices. A deep copy also keeps sort keys and layout.",
 ["histories"],"every table, every copying operation, and every sequence of edits to either side afterwards",
 "Aliasing only shows when one side is edited after copying, over all cell kinds and structures.",
 ["gotables.go","tree.go"],
 [("copying","gotables.go: Table.Copy, TableSet.Copy, CopyCols, NewTableFromRows, NewTableFromRowsBySearchRange, NewTableReorderCols; tree.go: CopyDeep")],
 None,["snapshots of both tables around edits"])

prop("C17","Reading, encoding, comparing and validating never change a table",
 "No operation that only reads, prints, encodes, compares, validates, searches, walks, copies or generates code from a table changes anything observable about it or any table nested in it: names, columns, types, values, row order, sort keys and layout stay the same. Repeating such an operation gives the same result.",
 ["inputs","histories"],"every reading operation on every table, including nested, empty and nil tables, in any order",
 "Tests look at results, not at whether the table was left alone.",
 ["gotables.go","json.go","yaml.go","gob.go","sort.go","tree.go","generate.go"],
 [("writers and encoders","gotables.go: String*, GetTableAsCSV; json.go; yaml.go; gob.go; generate.go"),("walkers and validators","tree.go: Walk, IsValidTableNesting, HasCircularReference; gotables.go: Equals, IsValidTable")],
 None,["table snapshot before and after each call"])

prop("C18","Equality is an equivalence that agrees with cell-by-cell comparison",
 "Two tables are reported equal exactly when they have the same name, the same columns by name and type (in any order), the same number of rows and equal values in corresponding cells, nested tables compared the same way; two table sets when they have equal tables in the same order. Equality is therefore symmetric and transitive, and reflexive for tables without NaN. Any single difference in a cell, type, name or count is detected.",
 ["inputs"],"every pair of tables that are equal, permuted in columns, or differ in exactly one place, at any nesting depth",
 "A missed difference is visible only to a test that makes that particular single-place change.",
 ["gotables.go"],
 [("comparison","gotables.go: Table.Equals, equals_recursive, TableSet.Equals, Uint8SliceEquals")],
 None,["Table.Equals","TableSet.Equals"])

prop("C19","A table set is an ordered collection of uniquely named tables",
 "After any sequence of appends, deletions and renames a table set holds exactly the tables an ordered list with unique names would hold; lookups by name and by index agree, and each table keeps its identity and content. Appending a table whose name is taken, renaming to a name that is taken or malformed, and addressing tables that do not exist fail and leave the set unchanged.",
 ["histories"],"every finite sequence of set operations with valid and invalid arguments",
 "Tests apply a few operations to small sets.",
 ["gotables.go"],
 [("membership","gotables.go: AppendTable, DeleteTable, DeleteTableByTableIndex, RenameTable, TableIndex, GetTable, HasTable, IsValidTableSet")],
 None,["TableSet accessors"])

prop("C20","Walking visits every table, row and cell exactly once, in order",
 "Walking a table or table set calls back once for each table set, table, row and cell, in table order, then row order, then column order, descending into a nested table where it occurs, with positions and values that match the table. An error returned by a callback stops the walk and is returned. Walking the same nested tables again, or with some callbacks omitted, visits the same remaining items.",
 ["inputs"],"every table and table set with any finite nesting, every subset of callbacks, and an error injected at any visit",
 "Tests walk two fixed structures and print.",
 ["tree.go"],
 [("walk","tree.go: Table.Walk, TableSet.Walk, GetCellInfoByColIndex, RowByRowIndex")],
 None,["callback event log"])

prop("C21","CSV output is read by a standard CSV reader as the same values",
 "The CSV text of a table is read by a standard CSV reader as one heading record (the column names, or the given substitutes) and one record per row, each field being the exact text of its cell: numbers convert back to the identical value and strings are identical, whatever commas, quotes or line breaks they hold. Only not-a-number floats are written as empty fields. A wrong number of substitute headings is refused.",
 ["inputs"],"every table with at least one column, every cell value and any headings",
 "One golden test with plain values.",
 ["gotables.go"],[("CSV writer","gotables.go: GetTableAsCSV, GetValAsStringByColIndex")],None,["GetTableAsCSV"])

prop("C22","Generated Go code compiles and converts tables to structs and back",
 "For any table the generated struct type and the generated conversion functions are valid Go that compiles, with one field per column, of the column's name and type, in column order. Converting the table to a slice of structs and back with the generated functions gives a table equal to the original, values included. Generating the code does not depend on the cell values.",
 ["programs","inputs"],"every table whose name and column names can be Go identifiers (not keywords), the table name also not one that Go predeclares or names a package that the code imports; every column type, row count and cell value",
 "Existing tests compare generated text with golden text and never compile it.",
 ["generate.go"],[("generators","generate.go: GenerateTypeStruct, GenerateTypeStructSliceFromTable, GenerateTypeStructSliceToTable")],None,["go build and run of the generated program"])

prop("C23","Reordering, reversing and shuffling keep every row and column intact",
 "Reordering or swapping columns moves whole columns (name, type and all cells) and changes nothing else; reversing reverses the row order, and doing it twice restores it; shuffling gives a permutation of the rows with each row intact. The pseudorandom shuffle gives the same order every time for the same table, in every process. Invalid column lists (missing, repeated or unknown columns) are refused.",
 ["inputs","histories"],"every table, every column order and row count",
 "Tests use two- or three-column tables and do not compare whole rows after the move.",
 ["gotables.go","sort.go"],[("reorder","gotables.go: ReorderCols, ReorderColsByColIndex, NewTableReorderCols, NewTableReorderColsByColIndex; sort.go: SwapColsByColIndex, OrderColsBySortKeys"),("row order","gotables.go: Reverse, ShufflePseudorandom, ShuffleRandom")],None,["row and column snapshots"])

prop("C24","Independent tables can be used from many goroutines at once",
 "Goroutines that each work on their own tables and table sets (parsing, editing, sorting, searching, merging, encoding, decoding, generating, walking) never race with each other. Each obtains exactly the results and errors it would obtain running alone.",
 ["schedules"],"every interleaving of independent workloads over the whole public interface",
 "Tests run sequentially; a package-level variable shared by two parsers, encoders or walkers is invisible to them.",
 ["gotables.go","parser.go","helpers.go","json.go","yaml.go","gob.go","sort.go","tree.go","util.go"],
 [("no shared mutable package state","parser.go: type parser; helpers.go and gotables.go package variables guarded or read-only")],
 [("package-level variables","regular expressions, type maps, debug flags","gotables.go, parser.go, sort.go init")],["race detector reports","per-goroutine results compared with a sequential run"])

prop("C25","One unchanging table can be read from many goroutines at once",
 "While no goroutine changes a table or table set, any number of goroutines may read, print, encode, compare, copy, validate, walk, and look up rows and cells in it at once, nested tables included. They never race, and every reader obtains the result a single reader would.",
 ["schedules"],"every interleaving of reading operations on shared tables and table sets, flat and nested",
 "Tests have a single reader; a hidden write in a getter only matters with two.",
 ["gotables.go","json.go","yaml.go","gob.go","tree.go","sort.go"],
 [("readers do not write","gotables.go: accessors, writers, Equals; tree.go: Walk; json.go, yaml.go, gob.go encoders")],None,["race detector reports","results compared with a sequential run"])

prop("C26","A table nested inside itself is detected, and nothing loops on it",
 "For any arrangement of tables nested in one another, the circular-reference check reports a circular reference exactly when some table is reachable from the root more than once along or across nesting, and the walking, validating and encoding operations then return an error that says so. Every operation on such an arrangement terminates without overflowing the stack or ending the process. Arrangements without one are never reported.",
 ["inputs"],"every directed graph of tables: trees, chains, diamonds, self loops and longer cycles, at any depth",
 "Tests build one or two cycles by hand.",
 ["tree.go","gotables.go","json.go","yaml.go","errors.go"],
 [("visited set","tree.go: Walk with WalkSafe, HasCircularReference, IsValidTableNesting, CopyDeep; json.go and yaml.go recursive encoders; gotables.go: equals_recursive, StringNested"),("error type","errors.go: CircRefError")],None,["HasCircularReference","IsValidTableNesting","Walk","GetTableAsJSON","GetTableSetAsYAML","Equals","StringNested","CopyDeep"])

prop("C27","Nesting groups exactly the matching rows of one table under another's keys",
 "Nesting one table in another by shared sort keys puts in each row's cell a table holding exactly the rows of the nested table whose keys equal that row's keys, an empty one where none match; apart from sorting both tables by those keys nothing else in either changes. Incompatible tables or columns are refused with an error and nothing is changed.",
 ["inputs"],"every pair of tables with shared keys of sortable types, any duplication and any unmatched keys",
 "One test with one key and a full match.",
 ["nest.go","sort.go"],[("nest","nest.go: Nest; sort.go: SearchRange")],None,["Nest","GetTable of the nested column"])

prop("C28","Files written hold the whole table, and file errors are reported",
 "Writing a table or table set to a file and reading the file back gives an equal table (set), also when the file existed before with longer content. When writing or reading cannot complete (missing folder, no space, file size limit, unreadable file) an error is returned: success is never reported for a file that does not hold the complete text. Reading one table by name from a file returns that table or an error.",
 ["fault_sequences","inputs"],"every table (set), every pre-existing file content, and write or read faults at any point",
 "Tests write one small file with no faults.",
 ["gotables.go","parser.go"],[("file writers and readers","gotables.go: Table.WriteFile, TableSet.WriteFile, NewTableFromFile, NewTableSetFromFile, NewTableFromFileByTableName; parser.go: parseFile")],None,["file bytes after the call","returned error"])

prop("C29","Padded text lines up in columns, and unpadded text has single spaces",
 "In the padded text of a table (String, and each table of a set) names, types and cells of a numeric column end at the same character position, those of any other column begin at the same position, and the decimal points of a float column stand under one another; fields are separated by at least one space, none at line ends. Unpadded text has exactly one space between fields, and holds the same fields line by line, except that padding may write the same float with another number of decimals. The text of a set is the texts of its tables in order, under the set's name if it has one, separated by empty lines; a table in struct shape has one line for each column instead.",
 ["inputs"],"every table and table set: any number and mix of columns, any names, any cell values including long, non-ASCII and non-finite ones (each character counted as one position)",
 "Tests compare a few small hand-written tables with golden strings; widths, precisions and trailing zeros are computed from all the cells of a column together.",
 ["gotables.go"],[("padded writer","gotables.go: StringPadded, printMatrix, setWidths, padTrailingZeros, printStruct"),("unpadded writer","gotables.go: Table._String, TableSet._String")],None,["Table.String","Table.StringPadded","Table.StringUnpadded","TableSet.String*"])

prop("C30","One rule says which names and types are valid, and every part applies it",
 "A name of a table or column is valid exactly when it is an ASCII letter or underscore followed by any number of ASCII letters, digits and underscores and is not a type name, a column type exactly when it is one of the supported types, and a Go value for a cell exactly when it has the type of the column. The validity checks say so, and every way to make, rename, add or decode a table or column (calls, text, JSON, YAML, GOB) accepts what is valid and refuses with an error what is not, as it does a name that is already taken in the same table or set. A refusal leaves no such table or column behind, and no table with an invalid or repeated name or an unsupported type ever comes out of the library.",
 ["inputs"],"every string as a table name, column name or column type, at any position among any number of others and at any nesting depth, in every call and document format; every Go type of value",
 "Tests try a dozen names on some of the routes; the rule is written down in several places (a loop, regular expressions, maps) which must agree for every string.",
 ["parser.go","gotables.go","json.go","yaml.go","gob.go"],
 [("the rule","parser.go: isValidName, IsValidTableName, IsValidColName, IsValidColType, namePattern, globalColTypesMap"),("where it is applied","gotables.go: NewTable, SetName, AppendCol, RenameCol, NewTableFromMetadata, TableSet.AppendTable, RenameTable; parser.go: getTableName, getColNames, getColTypes; json.go, yaml.go, gob.go decoders")],None,["IsValid*","errors of constructors and decoders","names and types of the tables made"])

prop("C31","Using the library leaves nothing behind in the process",
 "No operation, whether it succeeds or fails, prints on standard output or writes to the default log, and on standard error appears at most the report of a call on a nil table or set or of a circular reference. After it no goroutine, open file or temporary file is left over, and working folder, environment, time zone, umask and log settings are as before. Tables nobody refers to any more are freed, and no amount of work makes the library itself hold on to more and more memory.",
 ["inputs","histories"],"every history of operations on tables and sets, successful or failing, however long",
 "A leak, a stray print or a changed global setting does not fail any assertion of a test, and shows only over many operations or on an error path.",
 ["gotables.go","parser.go","sort.go","json.go","yaml.go","gob.go","tree.go","merge.go","nest.go","generate.go","util.go"],
 [("file access","gotables.go: WriteFile; parser.go: parseFile"),("package state","gotables.go, parser.go, sort.go package variables"),("printing","util.go: UtilPrintCaller and its callers")],None,["file descriptors","goroutines","heap and weak references after garbage collection","standard output and error"])

prop("C32","Work grows in step with the data: no operation turns quadratic",
 "Reading, writing, encoding, decoding, copying, comparing, sorting, searching, merging, nesting, walking and editing take processor time and memory in proportion to the number of rows, columns, nested tables and (up to a few thousand) tables in a set, and to the length of cells, times a logarithm where rows are sorted. Finding rows by their sort keys, a column by its name, or a cell by its place does not take longer in proportion to the table.",
 ["inputs"],"every operation on every large table or table set: many rows, many columns, long cells, many nested tables, many tables, with any column types and any values",
 "Tests use tables of a few rows, where quadratic work takes no noticeable time.",
 ["gotables.go","parser.go","sort.go","json.go","yaml.go","gob.go","tree.go","merge.go","nest.go"],
 [("writers","gotables.go: String, StringPadded, StringUnpadded, StringNested; json.go, yaml.go, gob.go"),("readers","parser.go: parseString; json.go, yaml.go, gob.go decoders"),("sorting and searching","sort.go: Sort, SortUnique, Search*"),("editing","gotables.go: AppendRow, DeleteRows, AppendCol, SetVal, ColIndex")],None,["processor time of the calling thread","bytes allocated"])

prop("C33","The text form is one language: read as written, written as it is read",
 "Text that follows the form ([[name]] of a set, [name] of a table, names, types and rows, or struct lines of name, type and '= value') is read as exactly the tables and values it denotes, however it is laid out: spaces or tabs in any number between fields, indentation, trailing blanks, line ends of either kind, comment lines anywhere, blank lines between tables, a missing last line end, values in any notation and holding any character. What the library writes denotes, to a reader made without it, exactly the tables it was written from: the notation of each value means that value, not merely something its own parser turns back into it. Reading from a string, from a file or one table by its name gives the same.",
 ["inputs"],"every text in the form, with any layout, mix of tables and structs, and values; every table and table set written",
 "Tests read some neatly laid-out texts, and a round trip cannot see a reader and a writer that are wrong alike.",
 ["parser.go","gotables.go"],
 [("reader","parser.go: parseString, getTableShape, getColNames, getColTypes, getRowSlice"),("writers","gotables.go: String, StringPadded, StringUnpadded, printStruct")],None,["tables made from text","text made from tables"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,s)
    assert len(p['title'])<=80,p['id']
    n=p['statement'].count('. ')+1
    assert n<=3,(p['id'],n)
print(len(P))
