package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"slices"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C10 and C11: edits against a reference table

type outcome int

const (
	mustSucceed outcome = iota
	mustFail
	either // Not specified. If it fails nothing may change; if it succeeds nothing may change.
)

// op is one call of a mutating operation, with what the reference table says about it.
type op struct {
	name   string
	want   outcome
	call   func() error
	model  func(m *MTable)                    // What a successful call does.
	judge  func(before, after *MTable) string // Instead of model: judges the result of a successful call.
	others []*g.Table                         // Further tables involved, which no call may change.
	inv    bool
}

var badNames = []string{"", " ", "1", "1a", "a b", "a-b", "a.b", "é", "日", "a\n", "\x00", "int", "string", "float64", "[]byte", "*Table", "bool", "uint8", "rune", "time.Time", "a,b", "[a]", "#", "'", "ｆｕｌｌ", "a\u0301", "²", "٣a"}

var badTypes = []string{"", " ", "Int", "INT", "int ", " int", "complex64", "complex128", "[]int", "[]string", "error", "interface{}", "any", "*table", "Table", "**Table", "*gotables.Table", "time", "Time", "uintptr", "float", "int128", "byte[]", "[] byte", "map", "*int", "é", "\x00"}

// argument generators --------------------------------------------------------

func anyColName(r *rand.Rand, m *MTable, bad bool) (name string, ok bool) {
	if len(m.Cols) == 0 || bad && chance(r, 2) {
		for {
			s := pick(r, append([]string{"noSuchCol", "A_missing_1", "zz", "Colx"}, badNames...))
			if m.colIndex(s) < 0 {
				return s, false
			}
		}
	}
	if bad && chance(r, 4) {
		// A name that differs from a real one in case only, or by blanks.
		s := m.Cols[r.IntN(len(m.Cols))].Name
		s = pick(r, []string{strings.ToUpper(s), strings.ToLower(s), s + " ", " " + s, s + "_"})
		return s, m.colIndex(s) >= 0
	}
	return m.Cols[r.IntN(len(m.Cols))].Name, true
}

func anyIndex(r *rand.Rand, n int, bad bool) (i int, ok bool) {
	if n == 0 || bad && chance(r, 2) {
		i = pick(r, []int{-1, n, n + 1, -2, n + 100, math.MinInt, math.MaxInt, -n})
		return i, i >= 0 && i < n
	}
	if bad || chance(r, 3) {
		return pick(r, []int{0, n - 1}), true
	}
	return r.IntN(n), true
}

func newColName(r *rand.Rand, m *MTable, bad bool) (name string, ok bool) {
	if bad && chance(r, 2) {
		return pick(r, badNames), false
	}
	if bad && len(m.Cols) > 0 && chance(r, 2) {
		return m.Cols[r.IntN(len(m.Cols))].Name, false
	}
	s := genName(r)
	return s, m.colIndex(s) < 0
}

func (m *MTable) renameKey(old, new string) {
	for i := range m.Keys {
		if m.Keys[i].Col == old {
			m.Keys[i].Col = new
		}
	}
}

func (m *MTable) deleteCol(i int) {
	name := m.Cols[i].Name
	m.Cols = append(append([]MCol{}, m.Cols[:i]...), m.Cols[i+1:]...)
	for r := range m.Rows {
		m.Rows[r] = append(append([]any{}, m.Rows[r][:i]...), m.Rows[r][i+1:]...)
	}
	var keys []MKey
	for _, k := range m.Keys {
		if k.Col != name {
			keys = append(keys, k)
		}
	}
	m.Keys = keys
}

func (m *MTable) reorder(perm []int) {
	cols := make([]MCol, len(perm))
	for i, p := range perm {
		cols[i] = m.Cols[p]
	}
	m.Cols = cols
	for r := range m.Rows {
		row := make([]any, len(perm))
		for i, p := range perm {
			row[i] = m.Rows[r][p]
		}
		m.Rows[r] = row
	}
}

func (m *MTable) appendZeroRow() {
	row := make([]any, len(m.Cols))
	for i, c := range m.Cols {
		row[i] = zeroOf(c.Type)
	}
	m.Rows = append(m.Rows, row)
}

func nanOf(typ string) any {
	if typ == "float32" {
		return float32(math.NaN())
	}
	return math.NaN()
}

func isFloatType(t string) bool { return t == "float32" || t == "float64" }

// sameKind: cells of these two column types hold the same Go type.
func sameKind(a, b string) bool {
	canon := func(s string) string {
		switch s {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		case "[]byte":
			return "[]uint8"
		}
		return s
	}
	return canon(a) == canon(b)
}

// Types of a user's own, which differ from those of cells by name only.
type (
	ownBool    bool
	ownInt     int
	ownInt8    int8
	ownInt16   int16
	ownRune    rune
	ownUint    uint
	ownByte    byte
	ownUint16  uint16
	ownUint32  uint32
	ownUint64  uint64
	ownFloat32 float32
	ownFloat64 float64
	ownString  string
	ownBytes   []byte
	ownBytes2  []ownByte
	ownTime    time.Time
	ownTime2   struct{ time.Time }
	ownTable   g.Table
)

// ownVal gives a value of a type of the user's own which is made like the column type, or a pointer to a cell value.
func ownVal(r *rand.Rand, typ string) any {
	switch typ {
	case "bool":
		return pick(r, []any{ownBool(true), new(bool)})
	case "int":
		return pick(r, []any{ownInt(1), new(int)})
	case "int8":
		return ownInt8(1)
	case "int16":
		return ownInt16(1)
	case "int32", "rune":
		return ownRune('a')
	case "int64":
		return pick(r, []any{time.Second, new(int64)})
	case "uint":
		return pick(r, []any{ownUint(1), uintptr(1), reflect.Bool})
	case "uint8", "byte":
		return ownByte(1)
	case "uint16":
		return ownUint16(1)
	case "uint32":
		return pick(r, []any{ownUint32(1), os.FileMode(1)})
	case "uint64":
		return ownUint64(1)
	case "float32":
		return ownFloat32(1)
	case "float64":
		return ownFloat64(1)
	case "string":
		return pick(r, []any{ownString("x"), json.Number("1"), new(string)})
	case "[]byte", "[]uint8":
		return pick(r, []any{ownBytes{1}, ownBytes2{1}, json.RawMessage("1"), [1]byte{1}, &[]byte{1}})
	case "time.Time":
		return pick(r, []any{ownTime(time.Unix(0, 0).UTC()), ownTime2{time.Unix(0, 0).UTC()}, new(time.Time), time.January})
	case "*Table":
		return pick(r, []any{&ownTable{}, new(*g.Table), g.Table{}})
	}
	return struct{ a int }{1}
}

// wrongVal gives a value that no cell of this column type can hold.
func wrongVal(c *Case, typ string) any {
	r := c.R
	for {
		switch r.IntN(5) {
		case 0:
			return ownVal(r, typ)
		case 1:
			return pick(r, []any{nil, complex(1, 2), []string{"a"}, []int{1}, struct{}{}, new(int), map[string]int{}, (*g.Table)(nil), [2]byte{1, 2}, uintptr(3), fmt.Errorf("x"), (*g.TableSet)(nil)})
		default:
			t2 := pick(r, allTypes)
			if !sameKind(t2, typ) {
				return buildVal(c, genVal(r, t2, genOpts{emptyRows: true}))
			}
		}
	}
}

func judgeSorted(keys []MKey) func(before, after *MTable) string {
	return func(before, after *MTable) string {
		b := before.clone()
		b.Keys = keys
		a := after.clone()
		b.Rows, a.Rows = nil, nil
		if d := diffTables(b, a, cmpOpts{}); d != "" {
			return "sorting changed more than row order: " + d
		}
		if !sameMultiset(before.Rows, after.Rows) {
			return "sorting changed the set of rows"
		}
		for i := 1; i < len(after.Rows); i++ {
			if after.keyCompare(keys, after.Rows[i-1], after.Rows[i]) > 0 {
				return fmt.Sprintf("rows %d and %d are out of order by %v", i-1, i, keys)
			}
		}
		return ""
	}
}

func judgePermuted(before, after *MTable) string {
	b, a := before.clone(), after.clone()
	b.Rows, a.Rows = nil, nil
	if d := diffTables(b, a, cmpOpts{}); d != "" {
		return "shuffling changed more than row order: " + d
	}
	if !sameMultiset(before.Rows, after.Rows) {
		return "shuffling changed the set of rows"
	}
	return ""
}

// keyList gives a list of column names to use as keys, whether it is acceptable, and the keys.
func keyList(r *rand.Rand, m *MTable, bad bool, allowRepeat bool) (names []string, ok bool, keys []MKey) {
	ok = true
	n := r.IntN(4)
	for i := 0; i < n; i++ {
		name, exists := anyColName(r, m, bad && chance(r, 2))
		if exists && !bad {
			// Prefer a sortable column.
			for try := 0; try < 8 && !isSortable(m.Cols[m.colIndex(name)].Type); try++ {
				name = m.Cols[r.IntN(len(m.Cols))].Name
			}
		}
		repeated := false
		for _, k := range names {
			repeated = repeated || k == name
		}
		if repeated && !allowRepeat {
			continue
		}
		names = append(names, name)
		if !exists {
			ok = false
			continue
		}
		typ := m.Cols[m.colIndex(name)].Type
		if !isSortable(typ) {
			ok = false
		}
		keys = append(keys, MKey{name, typ, false})
	}
	return
}

func outcomeOf(ok bool) outcome {
	if ok {
		return mustSucceed
	}
	return mustFail
}

// genOp generates one operation on table t, whose content is m.
func genOp(c *Case, t *g.Table, m *MTable, bad bool) *op {
	r := c.R
	nc, nr := len(m.Cols), len(m.Rows)
	o := genOpts{emptyRows: true, maxCols: 3, maxRows: 2, depth: 1, bigStrings: false}
	if m.Nil {
		// An unnamed table: only naming it makes it usable.
		switch r.IntN(5) {
		case 0:
			return &op{name: "AppendCol on a NilTable", want: mustFail, call: func() error { return t.AppendCol("a", "int") }}
		case 1:
			return &op{name: "AppendRow on a NilTable", want: mustFail, call: func() error { return t.AppendRow() }}
		case 2:
			return &op{name: "AppendRows on a NilTable", want: mustFail, call: func() error { return t.AppendRows(2) }}
		}
		name := genName(r)
		return &op{name: "SetName " + name, want: mustSucceed, call: func() error { return t.SetName(name) }, model: func(m *MTable) { m.Name, m.Nil = name, false }}
	}
	switch r.IntN(40) {
	case 0, 1: // AppendCol
		if nc > 14 && !bad {
			break
		}
		name, ok := newColName(r, m, bad)
		typ := pick(r, allTypes)
		if bad && chance(r, 3) {
			typ, ok = pick(r, badTypes), false
		}
		return &op{name: fmt.Sprintf("AppendCol(%q, %q)", name, typ), want: outcomeOf(ok),
			call: func() error { return t.AppendCol(name, typ) },
			model: func(m *MTable) {
				m.Cols = append(m.Cols, MCol{name, typ})
				for i := range m.Rows {
					m.Rows[i] = append(m.Rows[i], zeroOf(typ))
				}
			}}
	case 2: // DeleteCol
		name, ok := anyColName(r, m, bad)
		return &op{name: fmt.Sprintf("DeleteCol(%q)", name), want: outcomeOf(ok), call: func() error { return t.DeleteCol(name) },
			model: func(m *MTable) { m.deleteCol(m.colIndex(name)) }}
	case 3:
		i, ok := anyIndex(r, nc, bad)
		return &op{name: fmt.Sprintf("DeleteColByColIndex(%d)", i), want: outcomeOf(ok), call: func() error { return t.DeleteColByColIndex(i) },
			model: func(m *MTable) { m.deleteCol(i) }}
	case 4, 5: // Rename
		old, ok := anyColName(r, m, bad && chance(r, 2))
		name, ok2 := newColName(r, m, bad)
		return &op{name: fmt.Sprintf("RenameCol(%q, %q)", old, name), want: outcomeOf(ok && ok2), call: func() error { return t.RenameCol(old, name) },
			model: func(m *MTable) { m.Cols[m.colIndex(old)].Name = name; m.renameKey(old, name) }}
	case 6:
		i, ok := anyIndex(r, nc, bad && chance(r, 2))
		name, ok2 := newColName(r, m, bad)
		return &op{name: fmt.Sprintf("RenameColByColIndex(%d, %q)", i, name), want: outcomeOf(ok && ok2), call: func() error { return t.RenameColByColIndex(i, name) },
			model: func(m *MTable) { old := m.Cols[i].Name; m.Cols[i].Name = name; m.renameKey(old, name) }}
	case 7:
		if nr > 40 && (nr > 700 || !chance(r, 6)) {
			break
		}
		return &op{name: "AppendRow", call: t.AppendRow, model: func(m *MTable) { m.appendZeroRow() }}
	case 8:
		n := r.IntN(5)
		if bad {
			n = pick(r, []int{-1, -2, math.MinInt})
		}
		if nr > 40 && (nr > 700 || !chance(r, 6)) && n > 0 {
			break
		}
		return &op{name: fmt.Sprintf("AppendRows(%d)", n), want: outcomeOf(n >= 0), call: func() error { return t.AppendRows(n) },
			model: func(m *MTable) {
				for i := 0; i < n; i++ {
					m.appendZeroRow()
				}
			}}
	case 9:
		i, ok := anyIndex(r, nr, bad)
		return &op{name: fmt.Sprintf("DeleteRow(%d)", i), want: outcomeOf(ok), call: func() error { return t.DeleteRow(i) },
			model: func(m *MTable) { m.Rows = append(append([][]any{}, m.Rows[:i]...), m.Rows[i+1:]...) }}
	case 10:
		i, ok := anyIndex(r, nr, bad && chance(r, 2))
		j, ok2 := anyIndex(r, nr, bad && chance(r, 2))
		if ok && ok2 && i > j && !bad {
			i, j = j, i
		}
		if !bad && ok && ok2 && j-i > 4 {
			j = i + 2
		}
		return &op{name: fmt.Sprintf("DeleteRows(%d, %d)", i, j), want: outcomeOf(ok && ok2 && i <= j), call: func() error { return t.DeleteRows(i, j) },
			model: func(m *MTable) { m.Rows = append(append([][]any{}, m.Rows[:i]...), m.Rows[j+1:]...) }}
	case 11:
		if !chance(r, 8) {
			break
		}
		return &op{name: "DeleteRowsAll", call: t.DeleteRowsAll, model: func(m *MTable) { m.Rows = nil }}
	case 12, 13, 14, 15, 16, 17: // Cells.
		return cellOp(c, t, m, bad, o)
	case 18, 19:
		return zeroOp(c, t, m, bad)
	case 20:
		a, ok := anyColName(r, m, bad && chance(r, 2))
		b, ok2 := anyColName(r, m, bad && chance(r, 2))
		return &op{name: fmt.Sprintf("SwapCols(%q, %q)", a, b), want: outcomeOf(ok && ok2 && a != b), call: func() error { return t.SwapCols(a, b) },
			model: func(m *MTable) { swapPerm(m, m.colIndex(a), m.colIndex(b)) }}
	case 21:
		a, ok := anyIndex(r, nc, bad && chance(r, 2))
		b, ok2 := anyIndex(r, nc, bad && chance(r, 2))
		return &op{name: fmt.Sprintf("SwapColsByColIndex(%d, %d)", a, b), want: outcomeOf(ok && ok2 && a != b), call: func() error { return t.SwapColsByColIndex(a, b) },
			model: func(m *MTable) { swapPerm(m, a, b) }}
	case 22, 23: // Reorder
		perm := r.Perm(nc)
		ok := true
		if bad {
			perm, ok = spoilPerm(r, perm, nc)
		}
		if chance(r, 2) {
			return &op{name: fmt.Sprintf("ReorderColsByColIndex(%v)", perm), want: outcomeOf(ok), call: func() error { return t.ReorderColsByColIndex(perm...) },
				model: func(m *MTable) { m.reorder(perm) }}
		}
		var names []string
		for _, p := range perm {
			if p >= 0 && p < nc {
				names = append(names, m.Cols[p].Name)
			} else {
				names = append(names, "noSuchCol")
			}
		}
		return &op{name: fmt.Sprintf("ReorderCols(%q)", names), want: outcomeOf(ok), call: func() error { return withOwn(t.ReorderCols, names) },
			model: func(m *MTable) { m.reorder(perm) }}
	case 24:
		return &op{name: "OrderColsBySortKeys", call: t.OrderColsBySortKeys, model: func(m *MTable) {
			var perm []int
			used := map[int]bool{}
			for _, k := range m.Keys {
				if i := m.colIndex(k.Col); !used[i] {
					used[i] = true
					perm = append(perm, i)
				}
			}
			for i := range m.Cols {
				if !used[i] {
					perm = append(perm, i)
				}
			}
			m.reorder(perm)
		}}
	case 25:
		return &op{name: "Reverse", call: t.Reverse, model: func(m *MTable) {
			for i, j := 0, len(m.Rows)-1; i < j; i, j = i+1, j-1 {
				m.Rows[i], m.Rows[j] = m.Rows[j], m.Rows[i]
			}
		}}
	case 26:
		if chance(r, 2) {
			return &op{name: "ShuffleRandom", call: t.ShuffleRandom, judge: judgePermuted}
		}
		return &op{name: "ShufflePseudorandom", call: t.ShufflePseudorandom, judge: judgePermuted}
	case 27, 28: // Sort keys.
		names, ok, keys := keyList(r, m, bad, true)
		return &op{name: fmt.Sprintf("SetSortKeys(%q)", names), want: outcomeOf(ok), call: func() error { return withOwn(t.SetSortKeys, names) },
			model: func(m *MTable) { m.Keys = keys }}
	case 29:
		var names []string
		ok := true
		for n := r.IntN(3); n > 0; n-- {
			if len(m.Keys) > 0 && !(bad && chance(r, 2)) {
				names = append(names, m.Keys[r.IntN(len(m.Keys))].Col)
				continue
			}
			s, _ := anyColName(r, m, bad)
			found := false
			for _, k := range m.Keys {
				found = found || k.Col == s
			}
			ok = ok && found
			names = append(names, s)
		}
		return &op{name: fmt.Sprintf("SetSortKeysReverse(%q)", names), want: outcomeOf(ok), call: func() error { return withOwn(t.SetSortKeysReverse, names) },
			model: func(m *MTable) {
				for i := range m.Keys {
					if contains(names, m.Keys[i].Col) {
						m.Keys[i].Reverse = true
					}
				}
			}}
	case 30:
		names, ok, keys := keyList(r, m, bad, true)
		if len(names) == 0 || len(m.Keys) > 6 {
			break
		}
		// keys lists the columns that exist, so one name is looked at on its own.
		name := names[0]
		ok = m.colIndex(name) >= 0 && isSortable(m.Cols[m.colIndex(name)].Type)
		_ = keys
		return &op{name: fmt.Sprintf("AppendSortKey(%q)", name), want: outcomeOf(ok), call: func() error { return t.AppendSortKey(name) },
			model: func(m *MTable) { m.Keys = append(m.Keys, MKey{name, m.Cols[m.colIndex(name)].Type, false}) }}
	case 31:
		name, _ := anyColName(r, m, bad)
		if len(m.Keys) > 0 && !bad {
			name = m.Keys[r.IntN(len(m.Keys))].Col
		}
		at := -1
		for i, k := range m.Keys {
			if k.Col == name {
				at = i
				break
			}
		}
		return &op{name: fmt.Sprintf("DeleteSortKey(%q)", name), want: outcomeOf(at >= 0), call: func() error { return t.DeleteSortKey(name) },
			model: func(m *MTable) { m.Keys = append(append([]MKey{}, m.Keys[:at]...), m.Keys[at+1:]...) }}
	case 32:
		return keysFromOp(c, t, m, bad)
	case 33, 34: // Sort
		if chance(r, 2) {
			return &op{name: "Sort()", want: outcomeOf(len(m.Keys) > 0), call: func() error { return t.Sort() }, judge: judgeSorted(append([]MKey(nil), m.Keys...))}
		}
		names, ok, keys := keyList(r, m, bad, true)
		if len(names) == 0 {
			if chance(r, 2) {
				return &op{name: "SortSimple()", want: mustFail, call: func() error { return t.SortSimple() }}
			}
			break
		}
		if chance(r, 2) {
			return &op{name: fmt.Sprintf("SortSimple(%q)", names), want: outcomeOf(ok), call: func() error { return t.SortSimple(names...) }, judge: judgeSorted(keys)}
		}
		return &op{name: fmt.Sprintf("Sort(%q)", names), want: outcomeOf(ok), call: func() error { return t.Sort(names...) }, judge: judgeSorted(keys)}
	case 35:
		name, ok := genName(r), true
		if bad {
			name, ok = pick(r, badNames), false
		}
		f := t.SetName
		if chance(r, 2) {
			f = t.RenameTable
		}
		return &op{name: fmt.Sprintf("SetName(%q)", name), want: outcomeOf(ok), call: func() error { return f(name) },
			model: func(m *MTable) { m.Name = name }}
	case 36:
		b := chance(r, 2)
		return &op{name: fmt.Sprintf("SetStructShape(%v)", b), call: func() error { return t.SetStructShape(b) }, model: func(m *MTable) { m.Shape = b }}
	case 37, 38:
		return rowsFromOp(c, t, m, bad)
	case 39:
		return colsFromOp(c, t, m, bad)
	}
	return nil
}

func swapPerm(m *MTable, a, b int) {
	perm := make([]int, len(m.Cols))
	for i := range perm {
		perm[i] = i
	}
	perm[a], perm[b] = perm[b], perm[a]
	m.reorder(perm)
}

// spoilPerm makes a list of column indices wrong in some way.
func spoilPerm(r *rand.Rand, perm []int, n int) ([]int, bool) {
	p := append([]int{}, perm...)
	switch r.IntN(5) {
	case 0:
		p = append(p, pick(r, []int{0, n, -1}))
	case 1:
		if n == 0 {
			return append(p, 0), false
		}
		p = p[:n-1]
	case 2:
		if n < 2 {
			return append(p, 0), false
		}
		p[0] = p[1]
	case 3:
		if n == 0 {
			return append(p, -1), false
		}
		p[r.IntN(n)] = pick(r, []int{-1, n, n + 1, math.MinInt, math.MaxInt})
	case 4:
		if n == 0 {
			return append(p, 0), false
		}
		return nil, false
	}
	return p, false
}

// cellOp stores a value in one cell, by any of the setters.
func cellOp(c *Case, t *g.Table, m *MTable, bad bool, o genOpts) *op {
	r := c.R
	nc, nr := len(m.Cols), len(m.Rows)
	i, okc := anyIndex(r, nc, bad && chance(r, 3))
	row, okr := anyIndex(r, nr, bad && chance(r, 3))
	name := ""
	if okc {
		name = m.Cols[i].Name
	} else {
		name, _ = anyColName(r, &MTable{}, true)
		if m.colIndex(name) >= 0 {
			return nil
		}
	}
	typ := pick(r, allTypes) // Type of the value (and of the accessor).
	if okc && !(bad && chance(r, 2)) {
		typ = m.Cols[i].Type
	}
	okt := okc && sameKind(typ, m.Cols[i].Type)
	v := genVal(r, typ, o)
	if okt && m.Cols[i].Type == "rune" && typ != "rune" {
		v = genRune(r)
	}
	var given any = buildVal(c, v)
	if _, isT := given.(*g.Table); isT {
		// What the cell holds is what this table is now.
		v = snapshot(given.(*g.Table))
	}
	how := r.IntN(4)
	var call func() error
	what := ""
	switch how {
	case 0, 1:
		if bad && chance(r, 2) && okc {
			given = wrongVal(c, m.Cols[i].Type)
			okt = false
		}
		if how == 0 {
			what = "SetVal"
			call = func() error { return t.SetVal(name, row, given) }
		} else {
			what = "SetValByColIndex"
			call = func() error { return t.SetValByColIndex(i, row, given) }
		}
	case 2:
		what = "Set " + typ
		call = func() error { return setTyped(t, typ, false, name, i, row, given) }
	default:
		what = "Set by index " + typ
		call = func() error { return setTyped(t, typ, true, name, i, row, given) }
	}
	return &op{name: fmt.Sprintf("%s(col %d %q, row %d, %s)", what, i, name, row, showVal(v)), want: outcomeOf(okc && okr && okt), call: call,
		model: func(m *MTable) { m.Rows[row][i] = v }}
}

// zeroOp sets cells to zero or NaN, singly or many at once.
func zeroOp(c *Case, t *g.Table, m *MTable, bad bool) *op {
	r := c.R
	nc, nr := len(m.Cols), len(m.Rows)
	i, okc := anyIndex(r, nc, bad && chance(r, 2))
	row, okr := anyIndex(r, nr, bad && chance(r, 2))
	name := "noSuchCol"
	typ := ""
	if okc {
		name, typ = m.Cols[i].Name, m.Cols[i].Type
	}
	if m.colIndex("noSuchCol") >= 0 && !okc {
		return nil
	}
	zero := func(m *MTable, i, row int) { m.Rows[row][i] = zeroOf(m.Cols[i].Type) }
	mk := func(name string, ok outcome, call func() error, model func(m *MTable)) *op {
		return &op{name: name, want: ok, call: call, model: model}
	}
	switch r.IntN(10) {
	case 0:
		return mk(fmt.Sprintf("SetCellToZeroValue(%q, %d)", name, row), outcomeOf(okc && okr), func() error { return t.SetCellToZeroValue(name, row) }, func(m *MTable) { zero(m, i, row) })
	case 1:
		return mk(fmt.Sprintf("SetCellToZeroValueByColIndex(%d, %d)", i, row), outcomeOf(okc && okr), func() error { return t.SetCellToZeroValueByColIndex(i, row) }, func(m *MTable) { zero(m, i, row) })
	case 2:
		return mk(fmt.Sprintf("SetRowCellsToZeroValue(%d)", row), outcomeOf(okr), func() error { return t.SetRowCellsToZeroValue(row) }, func(m *MTable) {
			for i := range m.Cols {
				zero(m, i, row)
			}
		})
	case 3:
		return mk(fmt.Sprintf("SetColCellsToZeroValue(%q)", name), outcomeOf(okc), func() error { return t.SetColCellsToZeroValue(name) }, func(m *MTable) {
			for row := range m.Rows {
				zero(m, i, row)
			}
		})
	case 4:
		want := outcomeOf(okc)
		if !okc && nr == 0 {
			want = either // There is no cell to set.
		}
		return mk(fmt.Sprintf("SetColCellsToZeroValueByColIndex(%d)", i), want, func() error { return t.SetColCellsToZeroValueByColIndex(i) }, func(m *MTable) {
			if okc {
				for row := range m.Rows {
					zero(m, i, row)
				}
			}
		})
	case 5:
		ok := outcomeOf(okc && okr && isFloatType(typ))
		if chance(r, 2) {
			return mk(fmt.Sprintf("SetFloatCellToNaN(%q, %d)", name, row), ok, func() error { return t.SetFloatCellToNaN(name, row) }, func(m *MTable) { m.Rows[row][i] = nanOf(typ) })
		}
		return mk(fmt.Sprintf("SetFloatCellToNaNByColIndex(%d, %d)", i, row), ok, func() error { return t.SetFloatCellToNaNByColIndex(i, row) }, func(m *MTable) { m.Rows[row][i] = nanOf(typ) })
	case 6, 7:
		want := outcomeOf(okc && isFloatType(typ))
		if nr == 0 && want == mustFail {
			want = either // There is no cell to set.
		}
		model := func(m *MTable) {
			if okc && isFloatType(typ) {
				for row := range m.Rows {
					m.Rows[row][i] = nanOf(typ)
				}
			}
		}
		if chance(r, 2) {
			return mk(fmt.Sprintf("SetColFloatCellsToNaN(%q)", name), want, func() error { return t.SetColFloatCellsToNaN(name) }, model)
		}
		return mk(fmt.Sprintf("SetColFloatCellsToNaNByColIndex(%d)", i), want, func() error { return t.SetColFloatCellsToNaNByColIndex(i) }, model)
	case 8:
		floats := false
		for _, col := range m.Cols {
			floats = floats || isFloatType(col.Type)
		}
		want := outcomeOf(okr)
		if !okr && !floats {
			want = either // There is no cell to set.
		}
		return mk(fmt.Sprintf("SetRowFloatCellsToNaN(%d)", row), want, func() error { return t.SetRowFloatCellsToNaN(row) }, func(m *MTable) {
			if !okr {
				return
			}
			for i, col := range m.Cols {
				if isFloatType(col.Type) {
					m.Rows[row][i] = nanOf(col.Type)
				}
			}
		})
	}
	if !chance(r, 4) {
		return nil
	}
	return mk("SetAllFloatCellsToNaN", mustSucceed, t.SetAllFloatCellsToNaN, func(m *MTable) {
		for i, col := range m.Cols {
			if isFloatType(col.Type) {
				for row := range m.Rows {
					m.Rows[row][i] = nanOf(col.Type)
				}
			}
		}
	})
}

// relative gives another table whose columns have something to do with those of m.
func relative(c *Case, m *MTable, bad bool) *MTable {
	r := c.R
	f := &MTable{Name: genName(r)}
	for _, i := range r.Perm(len(m.Cols)) {
		if chance(r, 3) {
			continue
		}
		col := m.Cols[i]
		if bad && chance(r, 3) {
			col.Type = pick(r, allTypes)
		}
		f.Cols = append(f.Cols, col)
	}
	if bad && chance(r, 2) || !bad && chance(r, 6) {
		name := genName(r)
		if f.colIndex(name) < 0 {
			at := r.IntN(len(f.Cols) + 1)
			f.Cols = append(f.Cols[:at:at], append([]MCol{{name, pick(r, allTypes)}}, f.Cols[at:]...)...)
		}
	}
	if len(f.Cols) > 0 {
		for n := r.IntN(5); n > 0; n-- {
			row := make([]any, len(f.Cols))
			for i, col := range f.Cols {
				row[i] = genVal(r, col.Type, genOpts{emptyRows: true, maxCols: 2, maxRows: 2, depth: 1})
			}
			f.Rows = append(f.Rows, row)
		}
	}
	return f
}

func keysFromOp(c *Case, t *g.Table, m *MTable, bad bool) *op {
	r := c.R
	f := relative(c, m, bad)
	if chance(r, 4) && !m.Nil {
		f = m.clone()
	}
	f.Keys = genKeys(r, f, r.IntN(4))
	ok := len(f.Keys) > 0
	var keys []MKey
	for _, k := range f.Keys {
		i := m.colIndex(k.Col)
		if i < 0 || !isSortable(m.Cols[i].Type) {
			ok = false
			continue
		}
		keys = append(keys, MKey{k.Col, m.Cols[i].Type, k.Reverse})
	}
	from := build(c, f)
	if bad && chance(r, 8) {
		return &op{name: "SetSortKeysFromTable(nil)", want: mustFail, call: func() error { return t.SetSortKeysFromTable(nil) }}
	}
	return &op{name: fmt.Sprintf("SetSortKeysFromTable(%v)", f), want: outcomeOf(ok), call: func() error { return t.SetSortKeysFromTable(from) },
		model: func(m *MTable) { m.Keys = keys }, others: []*g.Table{from}}
}

func rowsFromOp(c *Case, t *g.Table, m *MTable, bad bool) *op {
	r := c.R
	if bad && chance(r, 10) {
		return &op{name: "AppendRowsFromTable(nil)", want: mustFail, call: func() error { return t.AppendRowsFromTable(nil, 0, 0) }}
	}
	if bad && chance(r, 10) {
		from := g.NewNilTable()
		return &op{name: "AppendRowsFromTable(NilTable)", want: mustFail, call: func() error { return t.AppendRowsFromTable(from, 0, 0) }}
	}
	if !bad && (chance(r, 6) || len(m.Rows) > 60 && chance(r, 2)) && len(m.Rows) > 0 && len(m.Rows) < 3000 && !m.hasType("*Table") && len(m.Cols) > 0 {
		// From itself.
		a := r.IntN(len(m.Rows))
		b := a + r.IntN(len(m.Rows)-a)
		if chance(r, 3) {
			a, b = 0, len(m.Rows)-1
		}
		return &op{name: fmt.Sprintf("AppendRowsFromTable(itself, %d, %d)", a, b), call: func() error { return t.AppendRowsFromTable(t, a, b) },
			model: func(m *MTable) {
				m.Rows = append(m.Rows, m.clone().Rows[a:b+1]...)
			}}
	}
	f := relative(c, m, bad)
	if len(f.Cols) == 0 || len(m.Rows) > 40 {
		return nil
	}
	from := build(c, f)
	fs := snapshot(from)
	a, oka := anyIndex(r, len(f.Rows), bad && chance(r, 3))
	b, okb := anyIndex(r, len(f.Rows), bad && chance(r, 3))
	if oka && okb && a > b {
		a, b = b, a
	}
	if b == math.MaxInt || a == math.MinInt {
		return nil
	}
	ok := oka && okb
	for _, col := range f.Cols {
		i := m.colIndex(col.Name)
		if i < 0 || !sameKind(m.Cols[i].Type, col.Type) {
			ok = false
		} else if m.Cols[i].Type != col.Type && m.Cols[i].Type == "rune" {
			return nil // Not every int32 is a rune.
		}
	}
	want := outcomeOf(ok)
	if a > b {
		want = either // No rows are asked for.
	}
	return &op{name: fmt.Sprintf("AppendRowsFromTable(%v, %d, %d)", f, a, b), want: want, call: func() error { return t.AppendRowsFromTable(from, a, b) },
		model: func(m *MTable) {
			for x := a; x <= b; x++ {
				m.appendZeroRow()
				for i, col := range fs.Cols {
					m.Rows[len(m.Rows)-1][m.colIndex(col.Name)] = cloneVal(fs.Rows[x][i])
				}
			}
		}, others: []*g.Table{from}}
}

func colsFromOp(c *Case, t *g.Table, m *MTable, bad bool) *op {
	r := c.R
	if bad && chance(r, 8) {
		if chance(r, 2) {
			return &op{name: "AppendColsFromTable(nil)", want: mustFail, call: func() error { return t.AppendColsFromTable(nil) }}
		}
		from := g.NewNilTable()
		return &op{name: "AppendColsFromTable(NilTable)", want: mustFail, call: func() error { return t.AppendColsFromTable(from) }}
	}
	f := relative(c, m, bad)
	for n := r.IntN(3); n > 0; n-- {
		if name := genName(r); f.colIndex(name) < 0 {
			col := MCol{name, pick(r, allTypes)}
			f.Cols = append(f.Cols, col)
			for i := range f.Rows {
				f.Rows[i] = append(f.Rows[i], genVal(r, col.Type, genOpts{emptyRows: true}))
			}
		}
	}
	if len(m.Cols)+len(f.Cols) > 20 {
		return nil
	}
	from := build(c, f)
	ok := true
	for _, col := range f.Cols {
		if i := m.colIndex(col.Name); i >= 0 && m.Cols[i].Type != col.Type {
			ok = false
		}
	}
	return &op{name: fmt.Sprintf("AppendColsFromTable(%v)", f), want: outcomeOf(ok), call: func() error { return t.AppendColsFromTable(from) },
		model: func(m *MTable) {
			for _, col := range f.Cols {
				if m.colIndex(col.Name) < 0 {
					m.Cols = append(m.Cols, col)
					for i := range m.Rows {
						m.Rows[i] = append(m.Rows[i], zeroOf(col.Type))
					}
				}
			}
		}, others: []*g.Table{from}}
}

// step runs one operation and judges it. Returns the new content.
func (o *op) step(c *Case, t *g.Table, m *MTable) *MTable {
	c.Logf("%s", o.name)
	var others []*MTable
	for _, x := range o.others {
		others = append(others, snapshot(x))
	}
	err := o.call()
	after := snapshot(t)
	if err != nil {
		if o.want == mustSucceed {
			c.Failf("%s fails: %v\non %v", o.name, err, m)
		}
		if d := diffTables(m, after, cmpOpts{}); d != "" {
			c.Failf("%s failed (%v) but changed the table: %s", o.name, err, d)
		}
		c.Ev("refused", 1)
	} else {
		if o.want == mustFail {
			c.Failf("%s gives no error\non %v\nresult %v", o.name, m, after)
		}
		before := m
		m = m.clone()
		if o.judge != nil {
			if p := o.judge(before, after); p != "" {
				c.Failf("%s: %s\nbefore %v\nafter %v", o.name, p, before, after)
			}
			m = after
		} else {
			if o.model != nil {
				o.model(m)
			}
			if d := diffTables(m, after, cmpOpts{}); d != "" {
				c.Failf("%s: expected vs found: %s\nbefore %v", o.name, d, before)
			}
		}
		c.Ev("applied", 1)
	}
	for i, x := range o.others {
		if d := diffTables(others[i], snapshot(x), cmpOpts{}); d != "" {
			c.Failf("%s (error: %v) changed the other table: %s", o.name, err, d)
		}
	}
	word := o.name
	if i := strings.IndexAny(word, "( "); i > 0 {
		word = word[:i]
	}
	c.Ev("op_"+word, 1)
	return m
}

func startTable(c *Case) (*g.Table, *MTable) {
	r := c.R
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 7, minRows: 0, maxRows: 8, depth: 1, keys: true, shape: true}
	if large(c, &o, 1997) {
		o.maxRows = min(o.maxRows, 600)
		o.minRows = min(o.minRows, o.maxRows)
	}
	m := genTable(r, o)
	if chance(r, 30) {
		m = &MTable{Nil: true}
	}
	if chance(r, 20) {
		m.Cols, m.Keys, m.Shape = nil, nil, false // Rows without columns.
		for i := range m.Rows {
			m.Rows[i] = []any{}
		}
	}
	t := build(c, m)
	if !m.Nil && chance(r, 6) {
		// Made from lists of names and types. The lists stay the caller's.
		t, m = fromMetadata(c, m)
	}
	s := snapshot(t)
	if d := diffTables(m, s, cmpOpts{}); d != "" {
		c.Failf("built table differs: %s", d)
	}
	return t, s
}

// fromMetadata makes an empty table with the columns of m, after failing to make it from damaged lists.
func fromMetadata(c *Case, m *MTable) (*g.Table, *MTable) {
	r := c.R
	names, types := []string{}, []string{}
	for _, col := range m.Cols {
		names, types = append(names, col.Name), append(types, col.Type)
	}
	bn, bt, name := append([]string{}, names...), append([]string{}, types...), m.Name
	switch r.IntN(5) {
	case 0:
		name = pick(r, badNames)
	case 1:
		bn = append(bn, newNameNotIn(r, m))
	case 2:
		bt = append(bt, pick(r, allTypes))
	case 3:
		bn, bt = append(bn, pick(r, append(badNames, names...))), append(bt, pick(r, allTypes))
	case 4:
		i := r.IntN(len(bn) + 1)
		bn = slices.Insert(bn, i, newNameNotIn(r, m))
		bt = slices.Insert(bt, i, pick(r, badTypes))
	}
	if x, err := g.NewTableFromMetadata(name, bn, bt); err == nil || x != nil {
		c.Failf("NewTableFromMetadata(%q, %q, %q) gives %v, %v", name, bn, bt, x, err)
	}
	c.Ev("failed_NewTableFromMetadata", 1)
	t, err := g.NewTableFromMetadata(m.Name, names, types)
	if err != nil {
		c.Failf("NewTableFromMetadata(%q, %q, %q): %v", m.Name, names, types, err)
	}
	for i := range names {
		names[i], types[i] = "overwritten", "overwritten"
	}
	c.Ev("NewTableFromMetadata", 1)
	n := &MTable{Name: m.Name, Cols: append([]MCol{}, m.Cols...)}
	return t, n
}

// newNameNotIn gives a valid name which is not that of a column of m.
func newNameNotIn(r *rand.Rand, m *MTable) string {
	for {
		if s := genName(r); m.colIndex(s) < 0 {
			return s
		}
	}
}

// nilCells counts in how many cells of t each NilTable is.
func nilCells(t *g.Table) map[*g.Table]int {
	n := map[*g.Table]int{}
	for _, x := range nilTables(t) {
		n[x]++
	}
	return n
}

// nilTables lists the NilTables in the cells of t, not those deeper down.
func nilTables(t *g.Table) (out []*g.Table) {
	for ci := 0; ci < t.ColCount(); ci++ {
		if typ, _ := t.ColTypeByColIndex(ci); typ != "*Table" {
			continue
		}
		for ri := 0; ri < t.RowCount(); ri++ {
			if x, err := t.GetTableByColIndex(ci, ri); err == nil && x != nil {
				if isNil, _ := x.IsNilTable(); isNil {
					out = append(out, x)
				}
			}
		}
	}
	return
}

// makesCells says whether the operation of this name makes cells with zero values.
func makesCells(name string) bool {
	for _, s := range []string{"AppendRow", "AppendRows(", "AppendCol(", "SetCellTo", "SetRowCells", "SetColCells"} {
		if strings.HasPrefix(name, s) && !strings.Contains(name, "From") {
			return true
		}
	}
	return false
}

// ownNilTables: the cells made by an operation hold NilTables of their own, so that
// using the one in one cell leaves the others as they are.
func ownNilTables(c *Case, t *g.Table, before map[*g.Table]int, what string) {
	for x, n := range nilCells(t) {
		if n <= 1 || n <= before[x] {
			continue
		}
		m := snapshot(t)
		if err := x.SetName("revived"); err != nil {
			c.Failf("SetName of a NilTable: %v", err)
		}
		c.Failf("after %s, %d cells hold one and the same NilTable; naming it changes all of them: %s", what, n, diffTables(m, snapshot(t), cmpOpts{}))
	}
	c.Ev("own_nil_tables", 1)
}

// revive makes a table of a NilTable that is in one cell of t only. The model follows.
func revive(c *Case, t *g.Table, m *MTable) *MTable {
	counts := nilCells(t)
	var spots [][2]int
	for ri, row := range m.Rows {
		for ci, v := range row {
			if x, ok := v.(*MTable); ok && x.Nil {
				spots = append(spots, [2]int{ri, ci})
			}
		}
	}
	if len(spots) == 0 {
		return m
	}
	at := pick(c.R, spots)
	x, err := t.GetTableByColIndex(at[1], at[0])
	if err != nil {
		c.Failf("GetTableByColIndex(%d, %d): %v", at[1], at[0], err)
	}
	if counts[x] != 1 {
		return m
	}
	name := genName(c.R)
	c.Logf("the NilTable in column %d, row %d becomes [%s]", at[1], at[0], name)
	if err := x.SetName(name); err != nil {
		c.Failf("SetName(%q) of the NilTable in column %d, row %d: %v", name, at[1], at[0], err)
	}
	if err := x.AppendCol("a", "string"); err != nil {
		c.Failf("AppendCol to what was a NilTable: %v", err)
	}
	if err := x.AppendRow(); err != nil {
		c.Failf("AppendRow to what was a NilTable: %v", err)
	}
	m = m.clone()
	m.Rows[at[0]][at[1]] = &MTable{Name: name, Cols: []MCol{{"a", "string"}}, Rows: [][]any{{""}}}
	if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
		c.Failf("making a table of the NilTable in column %d, row %d: %s", at[1], at[0], d)
	}
	c.Ev("nil_tables_revived", 1)
	return m
}

type partner struct {
	t *g.Table
	m *MTable
}

func runC10(c *Case) {
	r := c.R
	t, m := startTable(c)
	c.Logf("start %v", m)
	n := logSize(r, 5, 60)
	var hist strings.Builder
	var partners []*partner // Tables which earlier operations took keys, rows or columns from.
	for i := 0; i < n; i++ {
		if len(partners) > 0 && chance(r, 10) {
			p := pick(r, partners)
			if o := genOp(c, p.t, p.m, chance(r, 6)); o != nil {
				p.m = o.step(c, p.t, p.m)
				c.Ev("partner_edits", 1)
				if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
					c.Failf("%s, of another table which this one was given keys, rows or columns from, changed this one: %s\nbefore %v", o.name, d, m)
				}
			}
		}
		o := genOp(c, t, m, chance(r, 6))
		if o == nil {
			continue
		}
		before := nilCells(t)
		m = o.step(c, t, m)
		for _, p := range partners {
			if d := diffTables(p.m, snapshot(p.t), cmpOpts{}); d != "" {
				c.Failf("%s changed another table which this one was given keys, rows or columns from: %s\nbefore %v", o.name, d, p.m)
			}
		}
		for _, x := range o.others {
			if len(partners) < 4 {
				partners = append(partners, &partner{x, snapshot(x)})
			}
		}
		fmt.Fprintln(&hist, o.name)
		if makesCells(o.name) {
			ownNilTables(c, t, before, o.name)
		}
		if chance(r, 12) {
			m = revive(c, t, m)
			for _, p := range partners {
				p.m = snapshot(p.t) // Rows are copied shallow: nested tables may be shared.
			}
		}
		if chance(r, 24) {
			otherWork(c)
			if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
				c.Failf("work on other tables changed this one: %s\nbefore %v", d, m)
			}
		}
		if chance(r, 4) || i == n-1 {
			checkInvariants(c, t, m)
			c.Ev("invariants", 1)
		}
	}
	c.Distinct(hist.String())
	c.Sample(hist.String())
}

// ---------------------------------------------------------------- C11

func runC11(c *Case) {
	r := c.R
	switch r.IntN(6) {
	case 0, 1, 2:
		t, m := startTable(c)
		c.Logf("start %v", m)
		for n := 0; n < 25; n++ {
			o := genOp(c, t, m, !chance(r, 5))
			if o == nil {
				continue
			}
			m = o.step(c, t, m)
			c.Distinct(o.name, sizeClass(m))
		}
	case 3:
		failCombining(c)
	case 4:
		failSets(c)
	case 5:
		failNil(c)
	}
}

// failCombining: Merge, Nest and SortUnique that fail.
func failCombining(c *Case) {
	r := c.R
	m1 := genTable(r, genOpts{emptyRows: true, minCols: 1, maxCols: 6, minRows: 0, maxRows: 6, depth: 1, smallValues: true})
	m2 := relative(c, m1, chance(r, 2))
	m1.Keys = genKeys(r, m1, r.IntN(3))
	switch r.IntN(3) {
	case 0:
		m2.Keys = genKeys(r, m2, r.IntN(3))
	default:
		for _, k := range m1.Keys {
			if i := m2.colIndex(k.Col); i >= 0 && isSortable(m2.Cols[i].Type) {
				m2.Keys = append(m2.Keys, MKey{k.Col, m2.Cols[i].Type, k.Reverse != chance(r, 5)})
			}
		}
	}
	t1, t2 := build(c, m1), build(c, m2)
	s1, s2 := snapshot(t1), snapshot(t2)
	c.Logf("tables %v and %v", m1, m2)
	col, _ := anyColName(r, m1, true)
	if chance(r, 2) && len(m1.Cols) > 0 {
		// A column that Nest can use, most often.
		col = pick(r, m1.Cols).Name
	}
	names, _, _ := keyList(r, m1, true, true)
	nilArg := chance(r, 8)
	var a2 *g.Table = t2
	if nilArg {
		a2 = nil
	}
	for _, f := range []struct {
		name string
		call func() error
	}{
		{"Merge", func() error { _, err := t1.Merge(a2); return err }},
		{"Nest", func() error { return t1.Nest(a2, col) }},
		{"SortUnique", func() error { _, err := t1.SortUnique(names...); return err }},
	} {
		if f.name == "Nest" && m1.hasType("*Table") {
			continue
		}
		err := f.call()
		c.Logf("%s(%q): %v", f.name, col, err)
		if err == nil {
			if nilArg && f.name != "SortUnique" {
				c.Failf("%s(nil) gives no error", f.name)
			}
			// Success is judged elsewhere. It may have sorted the tables: start afresh.
			t1, t2 = build(c, m1), build(c, m2)
			if a2 != nil {
				a2 = t2
			}
			continue
		}
		if d := diffTables(s1, snapshot(t1), cmpOpts{}); d != "" {
			c.Failf("%s failed (%v) but changed the first table: %s\n%v\n%v", f.name, err, d, m1, m2)
		}
		if d := diffTables(s2, snapshot(t2), cmpOpts{}); d != "" {
			c.Failf("%s failed (%v) but changed the second table: %s\n%v\n%v", f.name, err, d, m1, m2)
		}
		c.Ev("failed_"+f.name, 1)
		c.Distinct(f.name, m1.fullKey(), m2.fullKey())
	}
	// Copies that fail leave the source alone, and give no table.
	a, oka := anyIndex(r, len(m1.Rows), true)
	b, okb := anyIndex(r, len(m1.Rows), true)
	bad := pick(r, badNames)
	if a > -1000 && b < 1000 && (!oka || !okb) && a <= b && len(m1.Cols) > 0 {
		if x, err := t1.NewTableFromRows("x", a, b); err == nil || x != nil {
			c.Failf("NewTableFromRows(%d, %d) of %d rows gives %v, %v", a, b, len(m1.Rows), x, err)
		}
		c.Ev("failed_NewTableFromRows", 1)
	}
	if x, err := t1.NewTableFromRows(bad, 0, len(m1.Rows)-1); err == nil || x != nil {
		c.Failf("NewTableFromRows(%q) gives %v, %v", bad, x, err)
	}
	if perm, ok := spoilPerm(r, r.Perm(len(m1.Cols)), len(m1.Cols)); !ok {
		if x, err := t1.NewTableReorderColsByColIndex(perm...); err == nil || x != nil {
			c.Failf("NewTableReorderColsByColIndex(%v) gives %v, %v", perm, x, err)
		}
	}
	if d := diffTables(s1.withoutKeys(), snapshot(t1).withoutKeys(), cmpOpts{}); d != "" && len(m1.Rows) < 2 {
		c.Failf("failed copies changed the table: %s", d)
	}
}

func (m *MTable) withoutKeys() *MTable {
	n := m.clone()
	n.Keys = nil
	return n
}

// failSets: table set operations that fail.
func failSets(c *Case) {
	r := c.R
	ms := genSet(r, logSize(r, 0, 5), genOpts{emptyRows: true, maxCols: 3, maxRows: 3, depth: 1, keys: true, shape: true})
	s := buildSet(c, "setName", ms)
	before := snapSet(s)
	has := func(n string) bool {
		for _, m := range ms {
			if m.Name == n {
				return true
			}
		}
		return false
	}
	for n := 0; n < 12; n++ {
		missing := pick(r, append([]string{"noSuchTable", "zz9"}, badNames...))
		for has(missing) {
			missing += "_"
		}
		var err error
		what := ""
		switch r.IntN(7) {
		case 0:
			what = "AppendTable(nil)"
			err = s.AppendTable(nil)
		case 1:
			if len(ms) == 0 {
				continue
			}
			dup, _ := g.NewTable(pick(r, ms).Name)
			what = "AppendTable of a taken name"
			if chance(r, 2) {
				err = s.AppendTable(dup)
			} else {
				err = s.Append(dup)
			}
		case 2:
			what = fmt.Sprintf("DeleteTable(%q)", missing)
			err = s.DeleteTable(missing)
		case 3:
			i := pick(r, []int{-1, len(ms), len(ms) + 1, math.MinInt, math.MaxInt})
			what = fmt.Sprintf("DeleteTableByTableIndex(%d)", i)
			err = s.DeleteTableByTableIndex(i)
		case 4:
			to := genName(r)
			what = fmt.Sprintf("RenameTable(%q, %q)", missing, to)
			err = s.RenameTable(missing, to)
		case 5:
			if len(ms) < 2 {
				continue
			}
			p := r.Perm(len(ms))
			what = fmt.Sprintf("RenameTable(%q, %q)", ms[p[0]].Name, ms[p[1]].Name)
			err = s.RenameTable(ms[p[0]].Name, ms[p[1]].Name)
		case 6:
			if len(ms) == 0 {
				continue
			}
			from, to := pick(r, ms).Name, pick(r, badNames)
			what = fmt.Sprintf("RenameTable(%q, %q)", from, to)
			err = s.RenameTable(from, to)
		}
		c.Logf("%s: %v", what, err)
		if err == nil {
			c.Failf("%s gives no error", what)
		}
		if d := diffSets(before, snapSet(s), cmpOpts{}); d != "" || s.Name() != "setName" {
			c.Failf("%s failed (%v) but changed the set: %s", what, err, d)
		}
		c.Ev("failed_set", 1)
		c.Distinct(what, setString(ms))
	}
}

// Methods that may change a table, to be called on a nil table and with arguments that fit nothing.
var errorType = reflect.TypeOf((*error)(nil)).Elem()

// failNil: every method that can return an error is called on a nil table (set).
func failNil(c *Case) {
	r := c.R
	for _, recv := range []reflect.Value{reflect.ValueOf((*g.Table)(nil)), reflect.ValueOf((*g.TableSet)(nil))} {
		rt := recv.Type()
		for i := 0; i < rt.NumMethod(); i++ {
			meth := rt.Method(i)
			mt := meth.Type
			if mt.NumOut() == 0 || mt.Out(mt.NumOut()-1) != errorType {
				continue
			}
			args := []reflect.Value{recv}
			for a := 1; a < mt.NumIn(); a++ {
				if mt.IsVariadic() && a == mt.NumIn()-1 {
					break
				}
				at := mt.In(a)
				v := reflect.Zero(at)
				switch at.Kind() {
				case reflect.Int:
					v = reflect.ValueOf(r.IntN(3) - 1)
				case reflect.String:
					v = reflect.ValueOf(pick(r, []string{"", "a", "no"}))
				}
				args = append(args, v)
			}
			name := rt.String() + "." + meth.Name
			c.Logf("nil %s", name)
			outs := meth.Func.Call(args)
			err, _ := outs[len(outs)-1].Interface().(error)
			if err == nil {
				c.Failf("%s on nil gives no error", name)
			}
			c.Ev("nil_receiver", 1)
			c.Distinct("nil", name)
		}
	}
}

func init() {
	register(&Prop{ID: "C10", Quick: 120000, Thorough: 2000000, Run: runC10,
		Rule: "one case = a history of 5 to 60 edits of one table, mirrored in a reference table and compared after every step; distinct = different histories",
		Need: []string{"applied", "refused", "invariants", "partner_edits", "op_AppendCol", "op_DeleteCol", "op_DeleteColByColIndex", "op_RenameCol", "op_RenameColByColIndex", "op_AppendRow", "op_AppendRows", "op_DeleteRow", "op_DeleteRows", "op_DeleteRowsAll", "op_SetVal", "op_SetValByColIndex", "op_Set", "op_SwapCols", "op_SwapColsByColIndex", "op_ReorderCols", "op_ReorderColsByColIndex", "op_OrderColsBySortKeys", "op_Reverse", "op_SetSortKeys", "op_SetSortKeysReverse", "op_AppendSortKey", "op_DeleteSortKey", "op_SetSortKeysFromTable", "op_Sort", "op_AppendRowsFromTable", "op_AppendColsFromTable", "op_SetName"}})
	register(&Prop{ID: "C11", Quick: 120000, Thorough: 2000000, Run: runC11,
		Rule: "one case = 25 operations with mostly invalid arguments, or failing Merge/Nest/SortUnique/table-set calls, or every method on a nil receiver, each compared with a snapshot from before; distinct = different failing calls",
		Need: []string{"refused", "failed_Merge", "failed_Nest", "failed_SortUnique", "failed_set", "nil_receiver", "failed_NewTableFromRows"}})
}
