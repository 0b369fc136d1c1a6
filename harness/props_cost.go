package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"syscall"
	"time"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C32: the work grows in step with the data

// The same operation is carried out once on n things and, another time, on each of n/costParts of them in costParts
// tables. That is the same number of things in both: processor time and memory must not be a multiple.
const (
	costParts   = 16
	maxTimes    = 6                     // Times as much processor time. Quadratic work takes 16 times as much.
	maxMemory   = 3                     // Times as much memory.
	leastTime   = 60 * time.Millisecond // Less than this is not judged.
	leastMemory = 4 << 20
)

// costInput makes a table or set of a size; everything it needs of the PRNG it has drawn before.
type costInput struct {
	types []string
	pools [][]any
	dim   string
	r     uint64
}

func (in *costInput) table(n int, name string) *g.Table {
	rows, cols := n, len(in.types)
	if in.dim == "columns" {
		rows, cols = 2, n
	}
	if in.dim == "cells" {
		rows = 3
	}
	t := must1(g.NewTable(name))
	for c := 0; c < cols; c++ {
		must0(t.AppendCol(fmt.Sprintf("c%d", c), in.types[c%len(in.types)]))
	}
	must0(t.AppendRows(rows))
	for c := 0; c < cols; c++ {
		pool := in.pools[c%len(in.types)]
		for r := 0; r < rows; r++ {
			v := pool[r%len(pool)]
			if in.dim == "cells" {
				switch x := v.(type) {
				case string:
					v = strings.Repeat("x"+x, n/(len(x)+1))
				case []byte:
					v = []byte(strings.Repeat("x"+string(x), n/(len(x)+1)))
				}
			}
			if m, ok := v.(*MTable); ok {
				if m.Nil {
					continue
				}
				small := must1(g.NewTable(m.Name))
				must0(small.AppendCol("i", "int"))
				must0(small.AppendRow())
				must0(small.SetInt("i", 0, r))
				must0(t.SetTableByColIndex(c, r, small))
				continue
			}
			if c == 0 && in.types[0] == "int" { // Almost all different, in no order.
				v = int(uint64(r) * 0x9e3779b97f4a7c15 % 1000003)
			}
			must0(t.SetValByColIndex(c, r, v))
		}
	}
	return t
}

func (in *costInput) set(n int) *g.TableSet {
	s := must1(g.NewTableSet("s"))
	if in.dim != "tables" {
		must0(s.AppendTable(in.table(n, "t")))
		return s
	}
	small := *in
	small.dim = "rows"
	for i := 0; i < n; i++ {
		must0(s.AppendTable(small.table(1, fmt.Sprintf("t%d", i))))
	}
	return s
}

func must0(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func must1[T any](v T, err error) T {
	must0(err)
	return v
}

type costOp struct {
	name string
	dims string
	prep func(in *costInput, n int) func()
}

// onTable: an operation on a table made for it.
func onTable(f func(t *g.Table, n int)) func(*costInput, int) func() {
	return func(in *costInput, n int) func() {
		t := in.table(n, "t")
		return func() { f(t, n) }
	}
}

func onSet(f func(s *g.TableSet, n int)) func(*costInput, int) func() {
	return func(in *costInput, n int) func() {
		s := in.set(n)
		return func() { f(s, n) }
	}
}

// fromText: reading what was written of the set.
func fromText(write func(*g.TableSet) string, read func(string)) func(*costInput, int) func() {
	return func(in *costInput, n int) func() {
		text := write(in.set(n))
		return func() { read(text) }
	}
}

func sorted(keys int, f func(t *g.Table, i, n int)) func(*costInput, int) func() {
	return func(in *costInput, n int) func() {
		t := in.table(n, "t")
		must0(t.Sort([]string{"c0", "c1"}[:keys]...))
		return func() {
			for i := 0; i < n; i++ {
				f(t, i, n)
			}
		}
	}
}

func row(i int) int { return int(uint64(i) * 0x9e3779b97f4a7c15 % 1000003) }

var costOps = []costOp{
	{"String", "rows columns cells nested", onTable(func(t *g.Table, n int) { _ = t.String() })},
	{"StringUnpadded", "rows columns cells nested", onTable(func(t *g.Table, n int) { _ = t.StringUnpadded() })},
	{"StringNested", "rows columns cells nested", onTable(func(t *g.Table, n int) { _ = t.StringNested() })},
	{"String of a set", "rows cells tables", onSet(func(s *g.TableSet, n int) { _ = s.String() })},
	{"StringUnpadded of a set", "rows cells tables", onSet(func(s *g.TableSet, n int) { _ = s.StringUnpadded() })},
	{"reading padded text", "rows columns cells tables", fromText(func(s *g.TableSet) string { return s.String() }, func(x string) { must1(g.NewTableSetFromString(x)) })},
	{"reading unpadded text", "rows columns cells tables", fromText(func(s *g.TableSet) string { return s.StringUnpadded() }, func(x string) { must1(g.NewTableSetFromString(x)) })},
	{"reading a struct-shaped table", "columns", func(in *costInput, n int) func() {
		t := must1(in.table(n, "t").NewTableFromRows("t", 0, 0))
		must0(t.SetStructShape(true))
		text := t.String()
		return func() { must1(g.NewTableSetFromString(text)) }
	}},
	{"reading comments and empty lines", "rows", func(in *costInput, n int) func() {
		text := strings.Repeat("# comment\n\n", n) + "[t]\n" + strings.Repeat("# x\n", n) + "a int = 1\n" + strings.Repeat("\n# y\n", n)
		return func() { must1(g.NewTableSetFromString(text)) }
	}},
	{"reading a long comment", "cells", func(in *costInput, n int) func() {
		text := "# " + strings.Repeat("comment ", n) + "\n[t]\na int = 1\n"
		return func() { must1(g.NewTableSetFromString(text)) }
	}},
	{"text which is not of a table", "rows", func(in *costInput, n int) func() {
		text := in.table(n, "t").String() + "this is not a row\n"
		return func() {
			if _, err := g.NewTableSetFromString(text); err == nil {
				panic("harness: read")
			}
		}
	}},
	{"GetTableAsJSON", "rows columns cells nested", onTable(func(t *g.Table, n int) { must1(t.GetTableAsJSON()) })},
	{"GetTableAsJSONIndent", "rows columns cells nested", onTable(func(t *g.Table, n int) { must1(t.GetTableAsJSONIndent()) })},
	{"GetTableSetAsJSON", "rows columns cells nested tables", onSet(func(s *g.TableSet, n int) { must1(s.GetTableSetAsJSON()) })},
	{"reading JSON", "rows columns cells nested tables", fromText(func(s *g.TableSet) string { return must1(s.GetTableSetAsJSON()) }, func(x string) { must1(g.NewTableSetFromJSON(x)) })},
	{"GetTableSetAsYAML", "rows columns cells nested tables", onSet(func(s *g.TableSet, n int) { must1(s.GetTableSetAsYAML()) })},
	{"GetTableSetAsMap", "rows columns cells nested tables", onSet(func(s *g.TableSet, n int) { must1(s.GetTableSetAsMap()) })},
	{"reading YAML", "rows columns cells nested tables", fromText(func(s *g.TableSet) string { return must1(s.GetTableSetAsYAML()) }, func(x string) { must1(g.NewTableSetFromYAML(x)) })},
	{"GobEncode", "rows columns cells tables", onSet(func(s *g.TableSet, n int) { must1(s.GobEncode()) })},
	{"reading GOB", "rows columns cells tables", func(in *costInput, n int) func() {
		b := must1(in.set(n).GobEncode())
		return func() { must1(g.NewTableSetFromGob(b)) }
	}},
	{"GetTableAsCSV", "rows columns cells", onTable(func(t *g.Table, n int) { must1(t.GetTableAsCSV()) })},
	{"GenerateTypeStruct", "rows columns", onTable(func(t *g.Table, n int) { must1(t.GenerateTypeStruct()) })},
	{"GenerateTypeStructSliceFromTable", "rows columns", onTable(func(t *g.Table, n int) { must1(t.GenerateTypeStructSliceFromTable()) })},
	{"GenerateTypeStructSliceToTable", "rows columns", onTable(func(t *g.Table, n int) { must1(t.GenerateTypeStructSliceToTable()) })},
	{"Copy", "rows columns cells nested", onTable(func(t *g.Table, n int) { must1(t.Copy()) })},
	{"CopyDeep", "rows columns cells nested", onTable(func(t *g.Table, n int) { must1(t.CopyDeep()) })},
	{"CopyCols", "columns", onTable(func(t *g.Table, n int) { must1(t.CopyCols()) })},
	{"Copy of a set", "rows tables", onSet(func(s *g.TableSet, n int) { must1(s.Copy()) })},
	{"NewTableFromRows", "rows columns nested", onTable(func(t *g.Table, n int) { must1(t.NewTableFromRows("u", 0, t.RowCount()-1)) })},
	{"Equals", "rows columns cells nested", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "t")
		return func() { must1(t.Equals(u)) }
	}},
	{"Equals of sets", "rows columns tables", func(in *costInput, n int) func() {
		t, u := in.set(n), in.set(n)
		return func() { must1(t.Equals(u)) }
	}},
	{"Walk", "rows columns nested", onTable(func(t *g.Table, n int) {
		must0(t.Walk(true, g.WalkSafe{}, func(*g.Table) error { return nil }, func(g.Row) error { return nil }, func(bool, g.CellInfo) error { return nil }))
	})},
	{"Walk of a set", "rows nested tables", onSet(func(s *g.TableSet, n int) {
		must0(s.Walk(true, nil, func(*g.Table) error { return nil }, func(g.Row) error { return nil }, func(bool, g.CellInfo) error { return nil }))
	})},
	{"Sort by one key", "rows", onTable(func(t *g.Table, n int) { must0(t.Sort("c0")) })},
	{"Sort by two keys", "rows", onTable(func(t *g.Table, n int) { must0(t.Sort("c1", "c0")) })},
	{"Sort what is sorted", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		must0(t.Sort("c0"))
		return func() { must0(t.Sort()) }
	}},
	{"Sort what is sorted the other way", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		must0(t.Sort("c0"))
		must0(t.SetSortKeysReverse("c0"))
		return func() { must0(t.Sort()) }
	}},
	{"Sort of equal rows", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		for i := 0; i < n; i++ {
			must0(t.SetValByColIndex(1, i, in.pools[1][0]))
		}
		return func() { must0(t.Sort("c1")) }
	}},
	{"SortSimple", "rows", onTable(func(t *g.Table, n int) { must0(t.SortSimple("c0")) })},
	{"SortUnique", "rows columns cells", onTable(func(t *g.Table, n int) { must1(t.SortUnique("c0")) })},
	{"SortUnique by a key with few values", "rows", onTable(func(t *g.Table, n int) { must1(t.SortUnique("c1")) })},
	{"Merge", "rows columns cells", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "u")
		must0(t.SetSortKeys("c0"))
		must0(u.SetSortKeys("c0"))
		return func() { must1(t.Merge(u)) }
	}},
	{"Nest", "rows columns cells", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "u")
		must0(t.SetSortKeys("c0"))
		must0(u.SetSortKeys("c0"))
		return func() { must0(t.Nest(u, "nest")) }
	}},
	{"Merge of rows with few keys", "rows", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "u")
		must0(t.SetSortKeys("c1"))
		must0(u.SetSortKeys("c1"))
		return func() { must1(t.Merge(u)) }
	}},
	{"Merge with a short table", "rows", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(3, "u")
		must0(t.SetSortKeys("c1", "c0"))
		must0(u.SetSortKeys("c1", "c0"))
		return func() {
			must1(t.Merge(u))
			must1(u.Merge(t))
		}
	}},
	{"Nest of what does not match", "rows", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "u")
		for i := 0; i < n; i++ {
			must0(u.SetIntByColIndex(0, i, -i-1))
		}
		must0(t.SetSortKeys("c0"))
		must0(u.SetSortKeys("c0"))
		return func() { must0(t.Nest(u, "nest")) }
	}},
	{"Nest of many rows under one", "rows", func(in *costInput, n int) func() {
		t, u := in.table(1, "t"), in.table(n, "u")
		v, _ := t.GetVal("c1", 0)
		for i := 0; i < n; i++ {
			must0(u.SetValByColIndex(1, i, v))
		}
		must0(t.SetSortKeys("c1"))
		must0(u.SetSortKeys("c1"))
		return func() { must0(t.Nest(u, "nest")) }
	}},
	{"Sort of a wide table", "columns", onTable(func(t *g.Table, n int) {
		must0(t.Sort("c1", "c0"))
		must0(t.ShufflePseudorandom())
		must0(t.SortSimple("c0"))
	})},
	{"Sort by long cells", "cells", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		key := ""
		for c, typ := range in.types {
			if typ == "string" {
				key = fmt.Sprintf("c%d", c)
			}
		}
		if key == "" {
			key = "c0"
		}
		return func() {
			must0(t.Sort(key))
			v := must1(t.GetVal(key, 1))
			must1(t.SearchFirst(v))
			must1(t.SearchLast(v))
			must1(t.CompareRows(0, 2))
		}
	}},
	{"Search in a wide table", "columns", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		must0(t.Sort("c0", "c1"))
		v, w := must1(t.GetVal("c0", 0)), must1(t.GetVal("c1", 0))
		return func() {
			for i := 0; i < n; i++ {
				must1(t.SearchFirst(v, w))
				_, _ = t.SearchLast(i, w)
				must1(t.CompareRows(0, 1))
			}
		}
	}},
	{"cells of a wide table", "columns", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			v := must1(t.GetValByColIndex(i, 1))
			must0(t.SetValByColIndex(i, 0, v))
			must0(t.SetVal(fmt.Sprintf("c%d", i), 1, v))
			must1(t.GetCellInfoByColIndex(i, 0))
			must1(t.HasCellByColIndex(i, 0))
			must1(t.GetValAsStringByColIndex(i, 0))
		}
	})},
	{"rows looked at", "rows nested", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			must1(t.RowByRowIndex(i))
			must1(t.HasRow(i))
			must1(t.IsValidRow(i))
			must1(t.GetCellInfo("c1", i))
			must1(t.HasCell("c0", i))
		}
	})},
	{"tables that differ at the end", "rows nested", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "t")
		must0(u.SetIntByColIndex(0, n-1, -1))
		return func() {
			if eq, _ := t.Equals(u); eq {
				panic("harness: equal")
			}
		}
	}},
	{"one table of many read", "tables", func(in *costInput, n int) func() {
		s := in.set(n)
		text, j := s.String(), must1(s.GetTableSetAsJSON())
		last := fmt.Sprintf("t%d", n-1)
		return func() {
			must1(g.NewTableFromStringByTableName(text, last))
			must1(g.NewTableFromJSONByTableName(j, last))
		}
	}},
	{"Search", "rows", sorted(1, func(t *g.Table, i, n int) { _, _ = t.Search(row(i)) })},
	{"Search for what is not there", "rows", sorted(1, func(t *g.Table, i, n int) { _, _ = t.Search(-i - 1) })},
	{"SearchFirst", "rows", sorted(1, func(t *g.Table, i, n int) { _, _ = t.SearchFirst(row(i)) })},
	{"SearchLast", "rows", sorted(1, func(t *g.Table, i, n int) { _, _ = t.SearchLast(row(i)) })},
	{"SearchRange", "rows", sorted(1, func(t *g.Table, i, n int) { _, _, _ = t.SearchRange(row(i)) })},
	{"SearchRange for what is everywhere", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		for i := 0; i < n; i++ {
			must0(t.SetValByColIndex(1, i, in.pools[1][0]))
		}
		must0(t.Sort("c1"))
		v := in.pools[1][0]
		return func() {
			for i := 0; i < n; i++ {
				_, _, _ = t.SearchRange(v)
				_, _ = t.SearchFirst(v)
				_, _ = t.SearchLast(v)
				_, _ = t.Search(v)
			}
		}
	}},
	{"SearchFirst in descending rows", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		must0(t.SetSortKeys("c0"))
		must0(t.SetSortKeysReverse("c0"))
		must0(t.Sort())
		return func() {
			for i := 0; i < n; i++ {
				_, _ = t.SearchFirst(row(i))
				_, _ = t.SearchLast(row(i))
			}
		}
	}},
	{"CompareRows", "rows", sorted(2, func(t *g.Table, i, n int) { must1(t.CompareRows(i, n-1-i)) })},
	{"Reverse", "rows columns", onTable(func(t *g.Table, n int) { must0(t.Reverse()) })},
	{"ShuffleRandom", "rows", onTable(func(t *g.Table, n int) { must0(t.ShuffleRandom()) })},
	{"ShufflePseudorandom", "rows", onTable(func(t *g.Table, n int) { must0(t.ShufflePseudorandom()) })},
	{"AppendRow", "rows nested", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			must0(t.AppendRow())
		}
	})},
	{"AppendRows", "rows nested", onTable(func(t *g.Table, n int) { must0(t.AppendRows(n)) })},
	{"AppendRowsFromTable", "rows nested", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "u")
		return func() { must0(t.AppendRowsFromTable(u, 0, n-1)) }
	}},
	{"AppendRowsFromTable row by row", "rows", func(in *costInput, n int) func() {
		t, u := in.table(n, "t"), in.table(n, "u")
		return func() {
			for i := 0; i < n; i++ {
				must0(t.AppendRowsFromTable(u, i, i))
			}
		}
	}},
	{"DeleteRow from the end", "rows", onTable(func(t *g.Table, n int) {
		for i := n - 1; i >= 0; i-- {
			must0(t.DeleteRow(i))
		}
	})},
	{"DeleteRows", "rows", onTable(func(t *g.Table, n int) { must0(t.DeleteRows(n/4, n/2)) })},
	{"DeleteRowsAll", "rows", onTable(func(t *g.Table, n int) { must0(t.DeleteRowsAll()) })},
	{"AppendCol", "columns", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			must0(t.AppendCol(fmt.Sprintf("d%d", i), "int"))
		}
	})},
	{"AppendCol of a long table", "rows", onTable(func(t *g.Table, n int) { must0(t.AppendCol("d", "int")) })},
	{"DeleteCol of a long table", "rows", onTable(func(t *g.Table, n int) { must0(t.DeleteCol("c1")) })},
	{"AppendColsFromTable", "columns", func(in *costInput, n int) func() {
		t, u := in.table(1, "t"), in.table(n, "u")
		must0(t.RenameCol("c0", "other"))
		return func() { must0(t.AppendColsFromTable(u)) }
	}},
	{"RenameCol", "columns", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			must0(t.RenameCol(fmt.Sprintf("c%d", i), fmt.Sprintf("d%d", i)))
		}
	})},
	{"SwapColsByColIndex of a long table", "rows", onTable(func(t *g.Table, n int) { must0(t.SwapColsByColIndex(0, 1)) })},
	{"ReorderColsByColIndex", "columns", onTable(func(t *g.Table, n int) {
		order := make([]int, n)
		for i := range order {
			order[i] = n - 1 - i
		}
		must0(t.ReorderColsByColIndex(order...))
	})},
	{"columns looked up by name", "columns", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("c%d", i)
			must1(t.ColIndex(name))
			must1(t.HasCol(name))
			must1(t.ColType(name))
			must1(t.GetVal(name, 1))
		}
	})},
	{"cells read", "rows nested", onTable(func(t *g.Table, n int) {
		for i := 0; i < n; i++ {
			must1(t.GetVal("c1", i))
			must1(t.GetValByColIndex(0, i))
			must1(t.GetValAsStringByColIndex(0, i))
		}
	})},
	{"cells written", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		v := in.pools[1][0]
		return func() {
			for i := 0; i < n; i++ {
				must0(t.SetVal("c1", i, v))
				must0(t.SetIntByColIndex(0, i, i))
			}
		}
	}},
	{"IsValidTable", "rows columns", onTable(func(t *g.Table, n int) { must1(t.IsValidTable()) })},
	{"IsValidTableNesting", "rows nested", onTable(func(t *g.Table, n int) { must1(t.IsValidTableNesting()) })},
	{"IsValidTableSet", "rows columns tables", onSet(func(s *g.TableSet, n int) { must1(s.IsValidTableSet()) })},
	{"JoinColVals", "rows", onTable(func(t *g.Table, n int) { must1(t.JoinColVals("c0", ",")) })},
	{"NewTableFromMetadata", "columns", func(in *costInput, n int) func() {
		names, types, err := in.table(1, "t").GetColInfoAsSlices()
		must0(err)
		return func() { must1(g.NewTableFromMetadata("u", names, types)) }
	}},
	{"GetColInfoAsTable", "columns", onTable(func(t *g.Table, n int) { must1(t.GetColInfoAsTable()) })},
	{"DeleteColByColIndex from the end", "columns", onTable(func(t *g.Table, n int) {
		for i := n - 1; i >= 0; i-- {
			must0(t.DeleteColByColIndex(i))
		}
	})},
	{"AppendColsFromTable which is refused", "columns", func(in *costInput, n int) func() {
		t, u := must1(g.NewTable("t")), in.table(n, "u")
		must0(t.AppendCol("last", "int"))
		must0(u.AppendCol("last", "string"))
		return func() {
			if t.AppendColsFromTable(u) == nil {
				panic("harness: appended")
			}
		}
	}},
	{"NewTableReorderCols", "rows columns", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		names, _, err := t.GetColInfoAsSlices()
		must0(err)
		slices.Reverse(names)
		return func() { must1(t.NewTableReorderCols(names...)) }
	}},
	{"OrderColsBySortKeys", "rows columns", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		must0(t.SetSortKeys("c1", "c0"))
		return func() { must0(t.OrderColsBySortKeys()) }
	}},
	{"NewTableFromRowsBySearchRange", "rows", func(in *costInput, n int) func() {
		t := in.table(n, "t")
		v := in.pools[1][0]
		for i := 0; i < n; i++ {
			must0(t.SetValByColIndex(1, i, v))
		}
		must0(t.Sort("c1"))
		return func() { must1(t.NewTableFromRowsBySearchRange("u", v)) }
	}},
	{"HasCircularReference", "rows nested", onTable(func(t *g.Table, n int) { must1(t.HasCircularReference()) })},
	{"cells set to NaN", "rows columns", onTable(func(t *g.Table, n int) { must0(t.SetAllFloatCellsToNaN()) })},
	{"cells set to zero", "rows columns", onTable(func(t *g.Table, n int) {
		must0(t.SetRowCellsToZeroValue(0))
		must0(t.SetColCellsToZeroValue("c0"))
	})},
	{"GetColValsAsStrings", "rows nested", onTable(func(t *g.Table, n int) {
		must1(t.GetColValsAsStrings("c0"))
		must1(t.GetColValsAsStrings("c1"))
	})},
	{"AppendTable", "tables", func(in *costInput, n int) func() {
		s := must1(g.NewTableSet("s"))
		var ts []*g.Table
		for i := 0; i < n; i++ {
			ts = append(ts, must1(g.NewTable(fmt.Sprintf("t%d", i))))
		}
		return func() {
			for _, t := range ts {
				must0(s.AppendTable(t))
			}
		}
	}},
	{"DeleteTableByTableIndex from the end", "tables", onSet(func(s *g.TableSet, n int) {
		for i := n - 1; i >= 0; i-- {
			must0(s.DeleteTableByTableIndex(i))
		}
	})},
	{"files", "rows tables", func(in *costInput, n int) func() {
		s := in.set(n)
		dir := must1(os.MkdirTemp("", "cost"))
		return func() {
			name := filepath.Join(dir, "f")
			must0(s.WriteFile(name, 0o600))
			must1(g.NewTableSetFromFile(name))
			os.RemoveAll(dir)
		}
	}},
}

// Sizes of the larger input.
var costSizes = map[string]int{"rows": 32000, "columns": 16000, "cells": 1 << 20, "nested": 12000, "tables": 1600}

func cpuTime() time.Duration {
	var u syscall.Rusage
	const thread = 1 // RUSAGE_THREAD
	if err := syscall.Getrusage(thread, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func measure(runs []func()) (cpu time.Duration, memory uint64) {
	runtime.GC()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	percent, limit := debug.SetGCPercent(-1), debug.SetMemoryLimit(1200<<20)
	defer func() {
		debug.SetGCPercent(percent)
		debug.SetMemoryLimit(limit)
	}()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	start := cpuTime()
	for _, run := range runs {
		run()
	}
	cpu = cpuTime() - start
	runtime.ReadMemStats(&after)
	return cpu, after.TotalAlloc - before.TotalAlloc
}

type costJob struct {
	op  costOp
	dim string
}

func costJobs() (jobs []costJob) {
	for _, op := range costOps {
		for _, dim := range strings.Fields(op.dims) {
			jobs = append(jobs, costJob{op, dim})
		}
	}
	return
}

func runC32(c *Case) {
	r := c.R
	jobs := costJobs()
	job := jobs[c.Idx%len(jobs)]
	in := &costInput{dim: job.dim, r: r.Uint64()}
	types := []string{"bool", "float32", "float64", "int16", "int64", "uint8", "uint32", "string", "string", "[]byte"}
	if !strings.Contains(strings.ToUpper(job.op.name), "GOB") {
		types = append(types, "time.Time", "rune")
	}
	in.types = []string{"int", pick(r, []string{"string", "int8", "float32", "uint16"})}
	for n := 1 + r.IntN(4); n > 0; n-- {
		in.types = append(in.types, pick(r, types))
	}
	switch job.dim {
	case "cells":
		in.types[len(in.types)-1] = pick(r, []string{"string", "string", "[]byte", "[]uint8"})
	case "nested":
		in.types[len(in.types)-1] = "*Table"
	}
	o := genOpts{utf8Only: true, noNaN: true, noInf: true, noNegZero: true, depth: 1}
	for _, typ := range in.types {
		var pool []any
		for i := 0; i < 12; i++ {
			v := genVal(r, typ, o)
			if s, ok := v.(string); ok && len(s) > 60 {
				v = strings.ToValidUTF8(s[:60], "")
			}
			if b, ok := v.([]byte); ok && len(b) > 60 {
				v = b[:60]
			}
			pool = append(pool, v)
		}
		in.pools = append(in.pools, pool)
	}
	n := costSizes[job.dim]
	if job.dim == "cells" && (strings.Contains(job.op.name, "YAML") || strings.Contains(job.op.name, "JSON") || strings.Contains(job.op.name, "Map")) {
		n /= 8 // A byte slice is a list of numbers there.
	}
	var cpu1, cpu2 time.Duration
	var mem1, mem2 uint64
	slow, big := false, false
	for try := 0; try < 4; try++ {
		var parts []func()
		for i := 0; i < costParts; i++ {
			parts = append(parts, job.op.prep(in, n/costParts))
		}
		cpu1, mem1 = measure(parts)
		parts = nil
		c.child.tick()
		cpu2, mem2 = measure([]func(){job.op.prep(in, n)})
		c.child.tick()
		c.Logf("%s, %d %s of types %v: in %d parts %v and %d bytes, in one %v and %d bytes", job.op.name, n, job.dim, in.types, costParts, cpu1, mem1, cpu2, mem2)
		slow = cpu2 > maxTimes*cpu1+leastTime
		big = mem2 > maxMemory*mem1+leastMemory
		if !slow && !big || try > 0 && (big || cpu2 > 2*maxTimes*cpu1+2*time.Second) {
			break // Memory does not vary, and time not by so much.
		}
		c.Ev("measured_again", 1)
	}
	if slow || big {
		c.Failf("%s: %d %s take %v and %d bytes, but %d times %d of them take %v and %d bytes", job.op.name, n, job.dim, cpu2, mem2, costParts, n/costParts, cpu1, mem1)
	}
	c.Ev("measured", 1)
	c.Ev("measured_"+job.dim, 1)
	if cpu2 >= leastTime {
		c.Ev("of_some_length", 1)
	}
	c.Distinct(job.op.name, job.dim, strings.Join(in.types, ","))
	c.Sample(fmt.Sprintf("%s, %d %s: in parts %v and %d bytes, in one %v and %d bytes", job.op.name, n, job.dim, cpu1, mem1, cpu2, mem2))
}

func init() {
	n := len(costJobs())
	register(&Prop{ID: "C32", Quick: 2 * n, Thorough: 40 * n, Run: runC32,
		Rule: "a case carries out one operation on one large input, and on 16 inputs a sixteenth as large, and compares processor time and memory; the large input has 32,000 rows, 16,000 columns, cells of 1 MB, 12,000 rows with a nested table, or 1,600 tables; distinct is counted over operation, dimension and column types",
		Need: []string{"measured", "measured_rows", "measured_columns", "measured_cells", "measured_nested", "measured_tables", "of_some_length"}})
}
