package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C16

// side is one of two tables (source and copy) that must not show in each other.
type side struct {
	name string
	t    *g.Table
	m    *MTable
}

// deepSpots lists the tables nested in t, at any depth, by position.
func deepTables(t *g.Table) (out []*g.Table) {
	for ci := 0; ci < t.ColCount(); ci++ {
		if typ, _ := t.ColTypeByColIndex(ci); typ != "*Table" {
			continue
		}
		for ri := 0; ri < t.RowCount(); ri++ {
			n, err := t.GetTableByColIndex(ci, ri)
			if err != nil || n == nil {
				continue
			}
			if isNil, _ := n.IsNilTable(); isNil {
				continue
			}
			out = append(out, n)
			out = append(out, deepTables(n)...)
		}
	}
	return
}

// alter makes one to three valid changes to a table or to one nested in it.
func alter(c *Case, t *g.Table) *MTable {
	target := t
	if all := deepTables(t); len(all) > 0 && chance(c.R, 2) {
		target = pick(c.R, all)
	}
	m := snapshot(target)
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		if o := genOp(c, target, m, false); o != nil && o.want != mustFail {
			m = o.step(c, target, m)
		}
	}
	return snapshot(t)
}

// flipBytes changes bytes inside the byte slices a table holds, in place. It says how many.
func flipBytes(c *Case, t *g.Table) (n int) {
	for ci := 0; ci < t.ColCount(); ci++ {
		typ, _ := t.ColTypeByColIndex(ci)
		if typ != "[]byte" && typ != "[]uint8" {
			continue
		}
		for ri := 0; ri < t.RowCount(); ri++ {
			v, err := t.GetValByColIndex(ci, ri)
			if err != nil {
				c.Failf("GetValByColIndex(%d, %d): %v", ci, ri, err)
			}
			for k, b := 0, v.([]byte); k < len(b); k++ {
				b[k] ^= 0x5A
				n++
			}
		}
	}
	return
}

func runC16(c *Case) {
	r := c.R
	if c.Idx%5 == 0 {
		copySet(c)
		return
	}
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 6, maxRows: 8, depth: 2, keys: true, shape: true}
	if c.Idx%83 == 0 {
		o.maxRows, o.maxCols, o.depth = 200, 4, 1
	}
	if c.Idx%7 == 0 {
		o.types = []string{"[]byte", "*Table", "[]uint8", "int"}
	}
	large(c, &o, 997)
	m := genTable(r, o)
	kind := r.IntN(10)
	if kind == 4 {
		if m = sortTable(c, 30); len(m.Keys) == 0 {
			m.Keys = genKeys(r, m, 1+r.IntN(3))
		}
		if len(m.Keys) == 0 {
			kind = 0
		}
	}
	if c.Idx%9 == 0 && len(m.Keys) == 0 {
		m.Keys = genKeys(r, m, 3)
	}
	t := build(c, m)
	if kind == 4 {
		if err := t.Sort(); err != nil {
			c.Failf("Sort: %v", err)
		}
	}
	// A history before copying makes spare capacity in slices, which sharing would show.
	m = snapshot(t)
	if kind != 4 {
		for n := r.IntN(4); n > 0; n-- {
			if op := genOp(c, t, m, false); op != nil {
				m = op.step(c, t, m)
			}
		}
	}
	if m.Nil {
		return
	}
	c.Logf("source %v", m)
	var dup *g.Table
	var err error
	var want *MTable
	opts := cmpOpts{}
	what := ""
	deep := false
	switch kind {
	case 0, 1:
		what = "Copy"
		dup, err = t.Copy()
		want, opts = m, cmpOpts{noKeys: true, noShape: true, nestedLoose: false}
	case 2, 3:
		what, deep = "CopyDeep", true
		dup, err = t.CopyDeep()
		want = m
	case 4:
		if len(m.Keys) == 0 {
			return
		}
		var vals []any
		like := make([]any, len(m.Cols))
		if len(m.Rows) > 0 {
			copy(like, m.Rows[r.IntN(len(m.Rows))])
		}
		for _, k := range m.Keys {
			i := m.colIndex(k.Col)
			if like[i] == nil || chance(r, 6) {
				like[i] = genVal(r, k.Type, genOpts{emptyRows: true, smallValues: true})
			}
			vals = append(vals, buildVal(c, like[i]))
		}
		what = fmt.Sprintf("NewTableFromRowsBySearchRange(%v)", vals)
		want = m.withoutKeys()
		want.Name, want.Rows = "found", nil
		for _, row := range m.Rows {
			if m.keyCompare(m.Keys, row, like) == 0 {
				want.Rows = append(want.Rows, row)
			}
		}
		opts = cmpOpts{noKeys: true, noShape: true}
		dup, err = t.NewTableFromRowsBySearchRange("found", vals...)
		if len(want.Rows) == 0 {
			c.Check(err != nil, "%s finds no row but gives no error", what)
			c.Ev("no_such_rows", 1)
			return
		}
	case 5:
		a, b := r.IntN(len(m.Rows)+1), r.IntN(len(m.Rows)+1)
		if a > b {
			a, b = b, a
		}
		if chance(r, 5) {
			a, b = pick(r, []int{-1, math.MinInt, a}), pick(r, []int{len(m.Rows), len(m.Rows) + 1, math.MaxInt})
		}
		what = fmt.Sprintf("NewTableFromRows(%d, %d)", a, b)
		dup, err = t.NewTableFromRows("range", a, b)
		if a < 0 || b >= len(m.Rows) {
			c.Check(err != nil, "%s of %d rows gives no error", what, len(m.Rows))
			if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
				c.Failf("%s failed but changed its source: %s", what, d)
			}
			c.Ev("refused", 1)
			return
		}
		want = m.clone()
		want.Name, want.Rows = "range", want.Rows[a:b+1]
		opts = cmpOpts{noKeys: true, noShape: true}
	case 6:
		perm := r.Perm(len(m.Cols))
		var names []string
		for _, i := range perm {
			names = append(names, m.Cols[i].Name)
		}
		want = m.clone()
		want.reorder(perm)
		opts = cmpOpts{noKeys: true, noShape: true}
		if chance(r, 2) {
			what = fmt.Sprintf("NewTableReorderCols(%v)", names)
			dup, err = t.NewTableReorderCols(names...)
		} else {
			what = fmt.Sprintf("NewTableReorderColsByColIndex(%v)", perm)
			dup, err = t.NewTableReorderColsByColIndex(perm...)
		}
	case 7:
		what = "CopyCols"
		dup, err = t.CopyCols()
		want = m.clone()
		want.Rows = nil
		opts = cmpOpts{noKeys: true, noShape: true}
	case 8:
		what = "AppendColsFromTable and AppendRowsFromTable to a new table"
		want = m
		opts = cmpOpts{noKeys: true, noShape: true}
		if dup, err = g.NewTable(m.Name); err == nil {
			if err = dup.AppendColsFromTable(t); err == nil && len(m.Rows) > 0 {
				err = dup.AppendRowsFromTable(t, 0, len(m.Rows)-1)
			}
			if err == nil && len(m.Keys) > 0 {
				err = dup.SetSortKeysFromTable(t)
				seen := map[string]bool{}
				opts.noKeys = false
				for _, k := range m.Keys {
					if seen[k.Col] {
						opts.noKeys = true // The second direction of a repeated key means nothing.
					}
					seen[k.Col] = true
				}
			}
		}
	case 9:
		if len(m.Keys) > 0 && chance(r, 2) {
			what = "GetSortKeysAsTable"
			dup, err = t.GetSortKeysAsTable()
		} else {
			what = "GetColInfoAsTable"
			dup, err = t.GetColInfoAsTable()
		}
	}
	c.Logf("%s: %v", what, err)
	if err != nil {
		c.Failf("%s: %v\nof %v", what, err, m)
	}
	if dup == t || dup == nil {
		c.Failf("%s gives %p for %p", what, dup, t)
	}
	if kind == 9 {
		want = snapshot(dup)
	}
	disturb(c)
	got := snapshot(dup)
	if d := diffTables(want, got, opts); d != "" {
		c.Failf("%s: expected vs copy: %s\nsource %v", what, d, m)
	}
	if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
		c.Failf("%s changed its source: %s", what, d)
	}
	checkInvariants(c, dup, got)
	word, _, _ := strings.Cut(what, "(")
	c.Ev("copied_"+strings.Fields(word)[0], 1)
	c.Distinct(what, m.fullKey())
	c.Sample(what + " " + m.String())

	if deep {
		theirs := map[*g.Table]bool{t: true}
		for _, x := range append(deepTables(t), t) {
			theirs[x] = true
			for _, y := range nilTables(x) {
				theirs[y] = true
			}
		}
		for _, x := range append(deepTables(dup), dup) {
			if theirs[x] {
				c.Failf("CopyDeep: table [%s] is in both the source and the copy", x.Name())
			}
		}
		c.Ev("tables_compared_by_identity", len(theirs))
	}
	sides := []*side{{"source", t, m}, {"copy", dup, got}}
	for n := 4 + r.IntN(16); n > 0; n-- {
		i := r.IntN(2)
		this, that := sides[i], sides[1-i]
		if deep && chance(r, 3) {
			// Change something below, or bytes in place: a deep copy shares nothing.
			spots := append([]*g.Table{this.t}, deepTables(this.t)...)
			spot := pick(r, spots)
			if nils := nilTables(spot); len(nils) > 0 && chance(r, 3) {
				// A NilTable in a cell becomes a table.
				x := pick(r, nils)
				if err := x.SetName("revived"); err != nil {
					c.Failf("SetName of a NilTable: %v", err)
				}
				if err := x.AppendCol("a", "int"); err != nil {
					c.Failf("AppendCol to what was a NilTable: %v", err)
				}
				c.Logf("%s: a NilTable in [%s] becomes [revived]", this.name, spot.Name())
				c.Ev("nil_tables_revived", 1)
			} else if chance(r, 2) {
				if flipBytes(c, spot) > 0 {
					c.Ev("bytes_changed_in_place", 1)
				}
				c.Logf("%s: bytes of [%s] changed in place", this.name, spot.Name())
			} else {
				sm := snapshot(spot)
				if op := genOp(c, spot, sm, false); op != nil {
					c.Logf("%s: in [%s]:", this.name, spot.Name())
					op.step(c, spot, sm)
					if spot != this.t {
						c.Ev("nested_changed", 1)
					}
				}
			}
			this.m = snapshot(this.t)
		} else if !deep && kind != 9 && chance(r, 10) && len(this.m.Rows) > 0 && len(this.m.Cols) > 0 {
			op := cellOp(c, this.t, this.m, false, genOpts{emptyRows: true, maxCols: 2, maxRows: 2})
			this.m = op.step(c, this.t, this.m)
		} else {
			op := genOp(c, this.t, this.m, chance(r, 8))
			if op == nil {
				continue
			}
			c.Logf("%s:", this.name)
			this.m = op.step(c, this.t, this.m)
		}
		if d := diffTables(that.m, snapshot(that.t), cmpOpts{}); d != "" {
			c.Failf("after %s, a change to the %s shows in the %s: %s", what, this.name, that.name, d)
		}
		c.Ev("changes", 1)
	}
	checkInvariants(c, t, sides[0].m)
	checkInvariants(c, dup, sides[1].m)
}

// copySet: copying a table set.
func copySet(c *Case) {
	r := c.R
	ms := genSet(r, manyTables(c, logSize(r, 0, 5), 2000), genOpts{emptyRows: true, maxCols: 4, maxRows: 5, depth: 1, keys: true, shape: true})
	s := buildSet(c, genName(r), ms)
	s.SetFileName("some/file.got")
	dup, err := s.Copy()
	c.Logf("TableSet.Copy of %s: %v", setString(ms), err)
	if err != nil {
		c.Failf("TableSet.Copy: %v\nof %s", err, setString(ms))
	}
	if dup.Name() != s.Name() || dup.FileName() != s.FileName() {
		c.Failf("copied set has name %q and file %q, source %q and %q", dup.Name(), dup.FileName(), s.Name(), s.FileName())
	}
	sets := []*g.TableSet{s, dup}
	snaps := [][]*MTable{ms, snapSet(dup)}
	if d := diffSets(ms, snaps[1], cmpOpts{noKeys: true, noShape: true}); d != "" {
		c.Failf("TableSet.Copy: source vs copy: %s", d)
	}
	c.Ev("copied_TableSet", 1)
	c.Distinct("set", setString(ms))
	for n := 3 + r.IntN(9); n > 0; n-- {
		i := r.IntN(2)
		this := sets[i]
		what := ""
		if this.TableCount() == 0 || chance(r, 6) {
			n, _ := g.NewTable(fmt.Sprintf("appended%d", r.IntN(100000)))
			what = "AppendTable " + n.Name()
			this.AppendTable(n)
		} else {
			k := r.IntN(this.TableCount())
			t, err := this.GetTableByTableIndex(k)
			if err != nil {
				c.Failf("GetTableByTableIndex(%d): %v", k, err)
			}
			switch r.IntN(8) {
			case 0:
				what = "DeleteTable " + t.Name()
				if err := this.DeleteTable(t.Name()); err != nil {
					c.Failf("%s: %v", what, err)
				}
			case 1:
				to := fmt.Sprintf("renamed%d", r.IntN(100000))
				what = "RenameTable " + to
				this.RenameTable(t.Name(), to)
			case 2:
				what = "SetName"
				old := sets[1-i].Name()
				this.SetName(genName(r) + "x")
				this.SetFileName("other")
				if sets[1-i].Name() != old {
					c.Failf("renaming one set renames the other")
				}
			default:
				what = "edit of " + t.Name()
				m := snapshot(t)
				op := genOp(c, t, m, false)
				if op == nil || strings.HasPrefix(op.name, "SetName") || strings.HasPrefix(op.name, "RenameTable") {
					continue
				}
				op.step(c, t, m)
			}
		}
		c.Logf("set %d: %s", i, what)
		snaps[i] = snapSet(this)
		if d := diffSets(snaps[1-i], snapSet(sets[1-i]), cmpOpts{}); d != "" {
			c.Failf("after TableSet.Copy, %s in set %d shows in the other: %s", what, i, d)
		}
		c.Ev("changes", 1)
	}
}

// ---------------------------------------------------------------- C17

// reading is one operation that only reads. Its result is given as text.
type reading struct {
	name string
	call func(t *g.Table) string
}

func show(v any, err error) string { return fmt.Sprintf("%v | %v", v, err) }

func showTable(t *g.Table, err error) string {
	if err != nil || t == nil {
		return fmt.Sprintf("%v | %v", t == nil, err)
	}
	return snapshot(t).fullKey()
}

// walked gives everything a walk visits.
func walked(t *g.Table, nested bool) string {
	var b strings.Builder
	err := t.Walk(nested, g.WalkSafe{},
		func(t *g.Table) error { fmt.Fprintf(&b, "T%s;", t.Name()); return nil },
		func(r g.Row) error { fmt.Fprintf(&b, "R%d;", r.RowIndex); return nil },
		func(n bool, ci g.CellInfo) error {
			fmt.Fprintf(&b, "C%s %s %d %d;", ci.ColName, ci.ColType, ci.ColIndex, ci.RowIndex)
			return nil
		})
	return fmt.Sprintf("%s %v", b.String(), err)
}

// readings lists the reading operations of a table, with arguments fitting or not fitting m.
func readings(c *Case, r *rand.Rand, m *MTable) []reading {
	nc, nr := len(m.Cols), len(m.Rows)
	ci, ri := r.IntN(nc+1), r.IntN(nr+1)
	if chance(r, 10) {
		ci, ri = -1, -1
	}
	col := "noSuchCol"
	if ci >= 0 && ci < nc {
		col = m.Cols[ci].Name
	}
	rj := r.IntN(nr + 1)
	perm := r.Perm(nc)
	var names []string
	for _, i := range perm {
		names = append(names, m.Cols[i].Name)
	}
	var vals []any
	for _, k := range m.Keys {
		v := genVal(r, k.Type, genOpts{emptyRows: true, smallValues: true})
		if i := m.colIndex(k.Col); nr > 0 && chance(r, 2) {
			v = m.Rows[r.IntN(nr)][i]
		}
		vals = append(vals, v)
	}
	if chance(r, 8) {
		vals = append(vals, "one too many")
	}
	var heads []string
	if chance(r, 2) {
		for range m.Cols {
			heads = append(heads, genString(r, genOpts{emptyRows: true, utf8Only: true}))
		}
	}
	other := build(c, m)
	oneLess := m.clone()
	if nr > 0 {
		oneLess.Rows = oneLess.Rows[:nr-1]
	}
	less := build(c, oneLess)
	file := filepath.Join(c.scratch(), "written.got")
	sep := genString(r, genOpts{emptyRows: true})
	typ := pick(r, allTypes)
	return []reading{
		{"String", func(t *g.Table) string { return t.String() }},
		{"StringPadded", func(t *g.Table) string { return t.StringPadded() }},
		{"StringUnpadded", func(t *g.Table) string { return t.StringUnpadded() }},
		{"StringNested", func(t *g.Table) string { return t.StringNested() }},
		{"GetTableAsJSON", func(t *g.Table) string { return show(t.GetTableAsJSON()) }},
		{"GetTableAsJSONIndent", func(t *g.Table) string { return show(t.GetTableAsJSONIndent()) }},
		{"GetTableAsCSV", func(t *g.Table) string { return show(t.GetTableAsCSV(heads...)) }},
		{"GobEncode", func(t *g.Table) string {
			b, err := t.GobEncode() // The bytes of a map come in any order: what counts is what they denote.
			if err != nil {
				return err.Error()
			}
			return showTable(g.GobDecodeTable(b))
		}},
		{"GenerateTypeStruct", func(t *g.Table) string { return undated(show(t.GenerateTypeStruct())) }},
		{"GenerateTypeStructSliceFromTable", func(t *g.Table) string { return undated(show(t.GenerateTypeStructSliceFromTable())) }},
		{"GenerateTypeStructSliceToTable", func(t *g.Table) string { return undated(show(t.GenerateTypeStructSliceToTable())) }},
		{"Equals itself", func(t *g.Table) string { return show(t.Equals(t)) }},
		{"Equals a table like it", func(t *g.Table) string { return show(t.Equals(other)) }},
		{"is equalled", func(t *g.Table) string { return show(other.Equals(t)) }},
		{"Equals a shorter table", func(t *g.Table) string { return show(t.Equals(less)) }},
		{"IsValidTable", func(t *g.Table) string { return show(t.IsValidTable()) }},
		{"IsValidRow", func(t *g.Table) string { return show(t.IsValidRow(ri)) }},
		{"IsValidTableNesting", func(t *g.Table) string { return show(t.IsValidTableNesting()) }},
		{"HasCircularReference", func(t *g.Table) string { return show(t.HasCircularReference()) }},
		{"Walk", func(t *g.Table) string { return walked(t, false) }},
		{"Walk nested", func(t *g.Table) string { return walked(t, true) }},
		{"Copy", func(t *g.Table) string { return showTable(t.Copy()) }},
		{"CopyDeep", func(t *g.Table) string { return showTable(t.CopyDeep()) }},
		{"CopyCols", func(t *g.Table) string { return showTable(t.CopyCols()) }},
		{"NewTableFromRows", func(t *g.Table) string { return showTable(t.NewTableFromRows("part", ri, rj)) }},
		{"NewTableReorderCols", func(t *g.Table) string { return showTable(t.NewTableReorderCols(names...)) }},
		{"NewTableReorderColsByColIndex", func(t *g.Table) string { return showTable(t.NewTableReorderColsByColIndex(perm...)) }},
		{"NewTableFromRowsBySearchRange", func(t *g.Table) string { return showTable(t.NewTableFromRowsBySearchRange("part", vals...)) }},
		{"AppendColsFromTable", func(t *g.Table) string {
			n, _ := g.NewTable("target")
			return show(snapshotOf(n, n.AppendColsFromTable(t)), nil)
		}},
		{"AppendRowsFromTable", func(t *g.Table) string {
			n := build(c, oneLess)
			return show(snapshotOf(n, n.AppendRowsFromTable(t, 0, nr-1)), nil)
		}},
		{"SetSortKeysFromTable", func(t *g.Table) string {
			n := build(c, oneLess.withoutKeys())
			return show(snapshotOf(n, n.SetSortKeysFromTable(t)), nil)
		}},
		{"GetSortKeysAsTable", func(t *g.Table) string { return showTable(t.GetSortKeysAsTable()) }},
		{"GetColInfoAsTable", func(t *g.Table) string { return showTable(t.GetColInfoAsTable()) }},
		{"GetColInfoAsSlices", func(t *g.Table) string {
			n, ty, err := t.GetColInfoAsSlices()
			out := fmt.Sprint(n, ty, err)
			for i := range n {
				n[i], ty[i] = "spoiled", "spoiled" // What the caller does with the result is no business of the table.
			}
			return out
		}},
		{"GetColValsAsStrings", func(t *g.Table) string { return show(t.GetColValsAsStrings(col)) }},
		{"JoinColVals", func(t *g.Table) string { return show(t.JoinColVals(col, sep)) }},
		{"JoinColValsByColIndex", func(t *g.Table) string { return show(t.JoinColValsByColIndex(ci, sep)) }},
		{"Search", func(t *g.Table) string { return show(t.Search(vals...)) }},
		{"SearchFirst", func(t *g.Table) string { return show(t.SearchFirst(vals...)) }},
		{"SearchLast", func(t *g.Table) string { return show(t.SearchLast(vals...)) }},
		{"SearchRange", func(t *g.Table) string {
			a, b, err := t.SearchRange(vals...)
			return fmt.Sprint(a, b, err)
		}},
		{"CompareRows", func(t *g.Table) string { return show(t.CompareRows(ri, rj)) }},
		{"GetVal", func(t *g.Table) string {
			v, err := t.GetVal(col, ri)
			if n, ok := v.(*g.Table); ok {
				return showTable(n, err)
			}
			return show(v, err)
		}},
		{"GetValAsString", func(t *g.Table) string { return show(t.GetValAsString(col, ri)) }},
		{"GetValAsStringByColIndex", func(t *g.Table) string { return show(t.GetValAsStringByColIndex(ci, ri)) }},
		{"GetCellInfo", func(t *g.Table) string {
			i, err := t.GetCellInfo(col, ri)
			return fmt.Sprint(i.ColName, i.ColType, i.ColIndex, i.RowIndex, err)
		}},
		{"RowByRowIndex", func(t *g.Table) string {
			i, err := t.RowByRowIndex(ri)
			return fmt.Sprint(i.RowIndex, err)
		}},
		{"ColIndex", func(t *g.Table) string { return show(t.ColIndex(col)) }},
		{"ColName", func(t *g.Table) string { return show(t.ColName(ci)) }},
		{"ColType", func(t *g.Table) string { return show(t.ColType(col)) }},
		{"HasCell", func(t *g.Table) string { return show(t.HasCell(col, ri)) }},
		{"HasRow", func(t *g.Table) string { return show(t.HasRow(ri)) }},
		{"IsColType", func(t *g.Table) string { return show(t.IsColType(col, typ)) }},
		{"IsSortKey", func(t *g.Table) string { return show(t.IsSortKey(col)) }},
		{"IsTableCol", func(t *g.Table) string { return show(t.IsTableCol(col)) }},
		{"IsValidCellValue", func(t *g.Table) string { return show(t.IsValidCellValue(col, 1.5)) }},
		{"IsValidColValue", func(t *g.Table) string { return show(t.IsValidColValue(col, "x")) }},
		{"WriteFile", func(t *g.Table) string {
			err := t.WriteFile(file, 0644)
			b, _ := os.ReadFile(file)
			return show(string(b), err)
		}},
	}
}

func snapshotOf(t *g.Table, err error) string { return fmt.Sprint(snapshot(t).fullKey(), err) }

// identities gives the nested tables in order, by reference: a read must not replace them either.
func identities(t *g.Table, budget int) (out []*g.Table) {
	if t == nil || budget <= 0 {
		return
	}
	for ri := 0; ri < t.RowCount(); ri++ {
		for ci := 0; ci < t.ColCount(); ci++ {
			v, err := t.GetValByColIndex(ci, ri)
			if err != nil {
				continue
			}
			if n, ok := v.(*g.Table); ok {
				out = append(out, n)
				out = append(out, identities(n, budget-1)...)
			}
		}
	}
	return
}

func sameTables(a, b []*g.Table) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC17(c *Case) {
	r := c.R
	if c.Idx%4 == 0 {
		readSet(c)
		return
	}
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 6, maxRows: 7, depth: 2, keys: true, shape: true}
	if chance(r, 3) {
		o.noNaN, o.noInf, o.utf8Only = true, true, true // What JSON can hold.
	}
	large(c, &o, 1999)
	if o.minRows > 20000 {
		o.minRows, o.maxRows = 20000, 20000 // Every reading is done several times.
	}
	m := genTable(r, o)
	if chance(r, 4) {
		m = sortTable(c, 20)
	}
	t := build(c, m)
	nested := r.IntN(12)
	if nested == 0 {
		nestInItself(c, t, r.IntN(3))
	}
	if len(m.Keys) > 0 && chance(r, 2) {
		if err := t.Sort(); err != nil {
			c.Failf("Sort: %v", err)
		}
	}
	m = snapshot(t)
	ids := identities(t, 4)
	all := readings(c, r, stripCycles(m))
	c.Logf("table %v", m)
	for n := 6 + r.IntN(10); n > 0; n-- {
		op := pick(r, all)
		if nested == 0 && (op.name == "StringNested") {
			continue // Of a circular arrangement: judged in C26.
		}
		c.Logf("%s", op.name)
		first := op.call(t)
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("%s changed the table: %s\nbefore %v", op.name, d, m)
		}
		if !sameTables(ids, identities(t, 4)) {
			c.Failf("%s replaced a nested table", op.name)
		}
		second := op.call(t)
		if first != second {
			c.Failf("%s twice:\n%s\n%s", op.name, first, second)
		}
		c.Ev("reads", 1)
		c.Ev("read_"+strings.Fields(op.name)[0], 1)
		c.Distinct(op.name, first)
	}
	c.Sample(m.String())
}

// stripCycles: the model without rows that hold a circular reference (so that tables like it can be built).
func stripCycles(m *MTable) *MTable {
	n := m.clone()
	n.walkCells(func(t *MTable, _ MCol, v any) {
		for _, row := range t.Rows {
			for i, x := range row {
				if y, ok := x.(*MTable); ok && y != nil && y.Cycle {
					row[i] = &MTable{Nil: true}
				}
			}
		}
	})
	return n
}

func readSet(c *Case) {
	r := c.R
	ms := genSet(r, manyTables(c, logSize(r, 0, 5), 3001), genOpts{emptyRows: true, maxCols: 4, maxRows: 5, depth: 2, keys: true, shape: true, utf8Only: chance(r, 2), noNaN: chance(r, 2), noInf: true})
	s := buildSet(c, "set", ms)
	other := buildSet(c, "set", ms)
	ms = snapSet(s)
	name := "absent"
	if len(ms) > 0 {
		name = pick(r, ms).Name
	}
	i := r.IntN(len(ms) + 2)
	file := filepath.Join(c.scratch(), "writtenset.got")
	ops := []struct {
		name string
		call func() string
	}{
		{"TableSet.String", func() string { return s.String() }},
		{"TableSet.StringPadded", func() string { return s.StringPadded() }},
		{"TableSet.StringUnpadded", func() string { return s.StringUnpadded() }},
		{"TableSet.GetTableSetAsJSON", func() string { return show(s.GetTableSetAsJSON()) }},
		{"TableSet.GetTableSetAsJSONIndent", func() string { return show(s.GetTableSetAsJSONIndent()) }},
		{"TableSet.GetTableSetAsYAML", func() string { return show(s.GetTableSetAsYAML()) }},
		{"TableSet.GetTableSetAsMap", func() string {
			v, err := s.GetTableSetAsMap()
			out := show(v, err)
			overwrite(v)
			return out
		}},
		{"TableSet.GobEncode", func() string {
			bufs, err := s.GobEncode()
			if err != nil {
				return err.Error()
			}
			d, err := g.GobDecodeTableSet(bufs)
			if err != nil {
				return err.Error()
			}
			return setString(snapSet(d)) + d.Name()
		}},
		{"TableSet.Equals", func() string { return show(s.Equals(other)) }},
		{"TableSet.Equals of the other", func() string { return show(other.Equals(s)) }},
		{"TableSet.IsValidTableSet", func() string { return show(s.IsValidTableSet()) }},
		{"TableSet.HasTable", func() string { return show(s.HasTable(name)) }},
		{"TableSet.GetTable", func() string { t, err := s.GetTable(name); return fmt.Sprintf("%p %v", t, err) }},
		{"TableSet.GetTableByTableIndex", func() string { t, err := s.GetTableByTableIndex(i); return fmt.Sprintf("%p %v", t, err) }},
		{"TableSet.TableIndex", func() string { return show(s.TableIndex(name)) }},
		{"TableSet.Copy", func() string {
			d, err := s.Copy()
			if err != nil {
				return err.Error()
			}
			return setString(snapSet(d))
		}},
		{"TableSet.Walk", func() string {
			var b strings.Builder
			err := s.Walk(true, func(*g.TableSet) error { b.WriteString("S"); return nil }, func(t *g.Table) error { b.WriteString(t.Name() + ";"); return nil },
				nil, func(_ bool, ci g.CellInfo) error {
					fmt.Fprintf(&b, "%s %d %d;", ci.ColName, ci.ColIndex, ci.RowIndex)
					return nil
				})
			return fmt.Sprint(b.String(), err)
		}},
		{"TableSet.WriteFile", func() string {
			err := s.WriteFile(file, 0644)
			b, _ := os.ReadFile(file)
			return show(string(b), err)
		}},
	}
	var ids []*g.Table
	collect := func() (out []*g.Table) {
		for k := 0; k < s.TableCount(); k++ {
			t, _ := s.GetTableByTableIndex(k)
			out = append(out, t)
			out = append(out, identities(t, 4)...)
		}
		return
	}
	ids = collect()
	for n := 5 + r.IntN(8); n > 0; n-- {
		op := pick(r, ops)
		c.Logf("%s", op.name)
		first := op.call()
		if d := diffSets(ms, snapSet(s), cmpOpts{}); d != "" {
			c.Failf("%s changed the set: %s", op.name, d)
		}
		if s.Name() != "set" {
			c.Failf("%s renamed the set to %q", op.name, s.Name())
		}
		if !sameTables(ids, collect()) {
			c.Failf("%s replaced a table of the set", op.name)
		}
		if second := op.call(); first != second {
			c.Failf("%s twice:\n%s\n%s", op.name, first, second)
		}
		c.Ev("reads", 1)
		c.Ev("read_"+op.name, 1)
		c.Distinct(op.name, first)
	}
}

// ---------------------------------------------------------------- C18

// equalVals is the equality of cells: numbers as Go compares them, instants in time, bytes, text, nested tables.
func equalVals(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case *MTable:
		y, ok := b.(*MTable)
		return ok && equalTables(x, y)
	}
	return a == b
}

func equalTables(a, b *MTable) bool {
	if a.Nil != b.Nil || a.Name != b.Name || len(a.Cols) != len(b.Cols) || len(a.Rows) != len(b.Rows) {
		return false
	}
	for i, col := range a.Cols {
		j := b.colIndex(col.Name)
		if j < 0 || b.Cols[j].Type != col.Type {
			return false
		}
		for r := range a.Rows {
			if !equalVals(a.Rows[r][i], b.Rows[r][j]) {
				return false
			}
		}
	}
	return true
}

// realEquals asks the real tables, and checks that the answer and the error agree.
func realEquals(c *Case, a, b *g.Table) bool {
	eq, err := a.Equals(b)
	if eq != (err == nil) {
		c.Failf("Equals gives %v and error %v", eq, err)
	}
	return eq
}

// nearVal gives a value of the same type that differs from v as little as can be, or the same.
func nearVal(r *rand.Rand, typ string, v any) any {
	switch x := v.(type) {
	case bool:
		return !x
	case float64:
		switch {
		case chance(r, 6):
			return math.NaN()
		case chance(r, 6):
			return -x
		}
		return math.Nextafter(x, pick(r, []float64{math.Inf(1), math.Inf(-1)}))
	case float32:
		switch {
		case chance(r, 6):
			return float32(math.NaN())
		case chance(r, 6):
			return -x
		}
		return math.Nextafter32(x, float32(pick(r, []float64{math.Inf(1), math.Inf(-1)})))
	case string:
		rs := []byte(x)
		switch r.IntN(6) {
		case 4:
			if len(rs) > 1 {
				i, j := r.IntN(len(rs)), r.IntN(len(rs))
				rs[i], rs[j] = rs[j], rs[i]
				return string(rs)
			}
		case 0:
			return x + pick(r, []string{" ", "\x00", "\u200b", "\n"})
		case 1:
			if len(rs) > 0 {
				return string(rs[:len(rs)-1])
			}
		case 2:
			if up := strings.ToUpper(x); up != x {
				return up
			}
			return strings.ToLower(x)
		case 3:
			if len(rs) > 0 {
				rs[r.IntN(len(rs))] ^= 1
				return string(rs)
			}
		}
		return x + "x"
	case []byte:
		b := append([]byte{}, x...)
		if len(b) == 0 || chance(r, 3) {
			return append(b, 0)
		}
		if chance(r, 3) {
			return b[:len(b)-1]
		}
		if chance(r, 4) {
			i, j := r.IntN(len(b)), r.IntN(len(b))
			b[i], b[j] = b[j], b[i]
			return b
		}
		b[r.IntN(len(b))] ^= byte(1 << r.IntN(8))
		return b
	case time.Time:
		if chance(r, 4) {
			return x.In(time.FixedZone("", 3600*(r.IntN(5)-2))) // The same instant.
		}
		var by time.Duration = 1
		switch r.IntN(6) {
		case 0, 1:
			by = time.Second
		case 2:
			// As many nanoseconds as do not fit an int64 that counts them.
			n := x.Add(math.MaxInt64).Add(math.MaxInt64).Add(2)
			if n.Year() > 9998 {
				n = x.Add(-math.MaxInt64).Add(-math.MaxInt64).Add(-2)
			}
			return n
		case 3:
			by = pick(r, []time.Duration{time.Microsecond, time.Millisecond, time.Minute, time.Hour, 24 * time.Hour, 1 << 32, 1 << 32 * time.Second})
		}
		if n := x.Add(by); n.Year() <= 9998 {
			return n
		}
		return x.Add(-by)
	case int:
		return x ^ 1<<r.IntN(64)
	case int8:
		return x ^ 1<<r.IntN(8)
	case int16:
		return x ^ 1<<r.IntN(16)
	case int32:
		if typ == "rune" {
			return pick(r, []rune{'a', 'b', 0, x})
		}
		return x ^ 1<<r.IntN(32)
	case int64:
		return x ^ 1<<r.IntN(64)
	case uint:
		return x ^ 1<<r.IntN(64)
	case uint8:
		return x ^ 1<<r.IntN(8)
	case uint16:
		return x ^ 1<<r.IntN(16)
	case uint32:
		return x ^ 1<<r.IntN(32)
	case uint64:
		return x ^ 1<<r.IntN(64)
	case *MTable:
		n := x.clone()
		differ(r, n)
		return n
	}
	panic(fmt.Sprintf("nearVal %T", v))
}

// differ makes one small change to a model table, in place. It says what.
func differ(r *rand.Rand, m *MTable) string {
	if m.Nil {
		m.Nil, m.Name = false, genName(r)
		return "NilTable made a table"
	}
	nc, nr := len(m.Cols), len(m.Rows)
	for {
		switch r.IntN(14) {
		default:
			if nc > 0 && nr > 0 {
				i, j := r.IntN(nc), r.IntN(nr)
				if chance(r, 4) {
					i, j = pick(r, []int{0, nc - 1}), pick(r, []int{0, nr - 1})
				}
				m.Rows[j][i] = nearVal(r, m.Cols[i].Type, m.Rows[j][i])
				return fmt.Sprintf("cell %s %d", m.Cols[i].Name, j)
			}
		case 0:
			m.Name += pick(r, []string{"_", "x", "0"})
			return "name"
		case 1:
			if nc > 0 {
				i := r.IntN(nc)
				to := m.Cols[i].Name + pick(r, []string{"_", "A", "0"})
				if m.colIndex(to) < 0 {
					m.renameKey(m.Cols[i].Name, to)
					m.Cols[i].Name = to
					return "col name"
				}
			}
		case 2:
			if nc > 0 {
				// Another type with the same values as far as they fit: all zero values.
				i := r.IntN(nc)
				typ := pick(r, allTypes)
				for k := range m.Rows {
					if !hasGoType(typ, m.Rows[k][i]) {
						m.Rows[k][i] = zeroOf(typ)
					}
				}
				m.Cols[i].Type = typ
				m.Keys = nil
				return "col type"
			}
		case 3:
			if nc > 0 {
				row := make([]any, nc)
				for i := range row {
					row[i] = zeroOf(m.Cols[i].Type)
				}
				m.Rows = append(m.Rows, row)
				if len(m.Rows) > 1 {
					m.Shape = false
				}
				return "row appended"
			}
		case 4:
			if nr > 0 {
				m.Rows = m.Rows[:nr-1]
				return "row removed"
			}
		case 5:
			if nr > 1 {
				a, b := r.IntN(nr), r.IntN(nr)
				m.Rows[a], m.Rows[b] = m.Rows[b], m.Rows[a]
				return "rows swapped"
			}
		case 6:
			if nc > 1 {
				m.reorder(r.Perm(nc))
				return "columns reordered"
			}
		case 7:
			name := genName(r)
			if m.colIndex(name) < 0 {
				m.Cols = append(m.Cols, MCol{name, "int"})
				for k := range m.Rows {
					m.Rows[k] = append(m.Rows[k], 0)
				}
				return "col appended"
			}
		case 8:
			if nc > 1 {
				m.deleteCol(r.IntN(nc))
				return "col removed"
			}
		case 9:
			if nc > 1 && nr > 0 {
				// Two columns of one type exchange their cells.
				a, b := r.IntN(nc), r.IntN(nc)
				if m.Cols[a].Type == m.Cols[b].Type {
					for k := range m.Rows {
						m.Rows[k][a], m.Rows[k][b] = m.Rows[k][b], m.Rows[k][a]
					}
					return "column cells exchanged"
				}
			}
		case 10:
			m.Keys = genKeys(r, m, 2)
			return "sort keys"
		}
	}
}

func runC18(c *Case) {
	r := c.R
	if c.Idx%6 == 0 {
		equalSets(c)
		return
	}
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 6, maxRows: 7, depth: 2, keys: true, shape: true, noNaN: !chance(r, 4), smallValues: chance(r, 3)}
	if c.Idx%61 == 0 {
		o.maxRows, o.maxCols, o.depth = 300, 12, 0
	}
	large(c, &o, 1997)
	m1 := genTable(r, o)
	m2 := m1.clone()
	what := "nothing"
	if !chance(r, 5) {
		what = differ(r, m2)
		if chance(r, 3) {
			what += ", " + differ(r, m2)
		}
	}
	if chance(r, 5) && len(m2.Cols) > 1 {
		m2.reorder(r.Perm(len(m2.Cols)))
	}
	m3 := m2.clone()
	if chance(r, 2) {
		differ(r, m3)
	}
	ms := []*MTable{m1, m2, m3}
	ts := []*g.Table{build(c, m1), build(c, m2), build(c, m3)}
	if chance(r, 3) {
		// The same content reached in another way.
		if d, err := ts[0].CopyDeep(); err == nil {
			ts[0] = d
		}
	}
	c.Logf("1: %v\n2 (%s): %v\n3: %v", m1, what, m2, m3)
	var eq [3][3]bool
	for i := range ms {
		for j := range ms {
			eq[i][j] = realEquals(c, ts[i], ts[j])
			if want := equalTables(ms[i], ms[j]); eq[i][j] != want {
				_, err := ts[i].Equals(ts[j])
				c.Failf("Equals gives %v (%v), cell by cell comparison %v (differs: %s)\n%v\n%v", eq[i][j], err, want, what, ms[i], ms[j])
			}
			if eq[i][j] {
				c.Ev("equal", 1)
			} else {
				c.Ev("unequal", 1)
			}
		}
	}
	for i := range eq {
		for j := range eq {
			if eq[i][j] != eq[j][i] {
				c.Failf("Equals is not symmetric")
			}
			for k := range eq {
				if eq[i][j] && eq[j][k] && !eq[i][k] {
					c.Failf("Equals is not transitive")
				}
			}
		}
	}
	a := make([]byte, logSize(r, 0, 300))
	for i := range a {
		a[i] = byte(r.IntN(256))
	}
	b := bytes.Clone(a)
	switch {
	case len(b) > 0 && chance(r, 2):
		b[r.IntN(len(b))] ^= 1 << r.IntN(8)
	case chance(r, 3):
		b = append(b, byte(r.IntN(2)))
	}
	for _, p := range [][2][]byte{{a, b}, {b, a}, {a, a}} {
		if e, err := g.Uint8SliceEquals(p[0], p[1]); e != bytes.Equal(p[0], p[1]) || e != (err == nil) {
			c.Failf("Uint8SliceEquals(%v, %v) gives %v, %v", p[0], p[1], e, err)
		}
	}
	if chance(r, 20) {
		if e, err := ts[0].Equals(nil); e || err == nil {
			c.Failf("Equals(nil) gives %v, %v", e, err)
		}
	}
	// Changed, and compared again.
	for n := r.IntN(3); n > 0; n-- {
		k := r.IntN(len(ts))
		ms[k] = alter(c, ts[k])
		if o := (k + 1) % len(ts); chance(r, 3) {
			// The same change in another.
			var err error
			if ts[o], err = ts[k].CopyDeep(); err != nil {
				c.Failf("CopyDeep: %v", err)
			}
			ms[o] = snapshot(ts[o])
		}
		for i := range ms {
			for _, p := range [][2]int{{i, k}, {k, i}} {
				got := realEquals(c, ts[p[0]], ts[p[1]])
				if want := equalTables(ms[p[0]], ms[p[1]]); got != want {
					c.Failf("after a change Equals gives %v, cell by cell comparison %v\n%v\n%v", got, want, ms[p[0]], ms[p[1]])
				}
				c.Ev("compared_again", 1)
			}
		}
	}
	c.Distinct(m1.fullKey(), m2.fullKey())
	c.Ev("differing_"+strings.Fields(what)[0], 1)
	c.Sample(what + "\n" + m1.String() + m2.String())
}

func equalSets(c *Case) {
	r := c.R
	ms := genSet(r, manyTables(c, logSize(r, 0, 5), 1997), genOpts{emptyRows: true, maxCols: 4, maxRows: 4, depth: 1, noNaN: !chance(r, 4), keys: true})
	m2 := make([]*MTable, len(ms))
	for i := range ms {
		m2[i] = ms[i].clone()
	}
	what := "nothing"
	if len(m2) > 0 {
		switch r.IntN(5) {
		case 0:
			what = "table removed"
			i := r.IntN(len(m2))
			m2 = append(m2[:i:i], m2[i+1:]...)
		case 1:
			what = "tables swapped"
			a, b := r.IntN(len(m2)), r.IntN(len(m2))
			m2[a], m2[b] = m2[b], m2[a]
		case 2, 3:
			i := pick(r, []int{0, len(m2) - 1, r.IntN(len(m2))})
			what = fmt.Sprintf("table %d: %s", i, differ(r, m2[i]))
		}
	} else if chance(r, 2) {
		what = "table added"
		m2 = append(m2, &MTable{Name: "added"})
	}
	names := map[string]bool{}
	for _, m := range m2 {
		if names[m.Name] {
			return
		}
		names[m.Name] = true
	}
	want := len(ms) == len(m2)
	for i := 0; want && i < len(ms); i++ {
		want = equalTables(ms[i], m2[i])
	}
	s1, s2 := buildSet(c, "one", ms), buildSet(c, pick(r, []string{"one", "two"}), m2)
	for _, p := range [][2]*g.TableSet{{s1, s2}, {s2, s1}} {
		eq, err := p[0].Equals(p[1])
		if eq != want || eq != (err == nil) {
			c.Failf("TableSet.Equals gives %v, %v: expected %v (differs: %s)\n%s\n%s", eq, err, want, what, setString(ms), setString(m2))
		}
	}
	if want {
		c.Ev("equal_sets", 1)
	} else {
		c.Ev("unequal_sets", 1)
	}
	c.Distinct(setString(ms), setString(m2))
}

// ---------------------------------------------------------------- C19

func runC19(c *Case) {
	r := c.R
	type member struct {
		t    *g.Table
		name string
		m    *MTable
	}
	var want []member
	mo := genOpts{emptyRows: true, maxCols: 3, maxRows: 3, depth: 1, keys: true, shape: true}
	setName := ""
	var s *g.TableSet
	var err error
	find := func(name string) int {
		for i, w := range want {
			if w.name == name {
				return i
			}
		}
		return -1
	}
	if chance(r, 3) {
		// A set that comes from text.
		ms := genSet(r, manyTables(c, logSize(r, 1, 5), 499), genOpts{emptyRows: true, minCols: 1, maxCols: 3, minRows: 1, maxRows: 3, utf8Only: true})
		s0 := buildSet(c, "", ms)
		if s, err = g.NewTableSetFromString(s0.String()); err != nil {
			c.Failf("NewTableSetFromString: %v", err)
		}
		setName = s.Name()
		for i := range ms {
			t, err := s.GetTableByTableIndex(i)
			if err != nil {
				c.Failf("GetTableByTableIndex(%d): %v", i, err)
			}
			want = append(want, member{t, ms[i].Name, snapshot(t)})
		}
	} else {
		setName = pick(r, []string{"", "set", genName(r)})
		if s, err = g.NewTableSet(setName); err != nil {
			c.Failf("NewTableSet(%q): %v", setName, err)
		}
	}
	freeName := func() string {
		for {
			n := genName(r)
			if chance(r, 2) {
				n = pick(r, []string{"a", "b", "c", "A", "t1", "T1", "t10"})
			}
			if find(n) < 0 || chance(r, 5) {
				return n
			}
		}
	}
	var gone []member
	var hist strings.Builder
	for n := logSize(r, 5, 40); n > 0; n-- {
		what := ""
		var err error
		ok := true
		apply := func() {}
		someName := func() string {
			if len(want) > 0 && !chance(r, 4) {
				return pick(r, want).name
			}
			return pick(r, append([]string{"a", "b", "absent", ""}, badNames...))
		}
		switch r.IntN(8) {
		case 0, 1, 2:
			var mem member
			if len(gone) > 0 && chance(r, 3) {
				k := r.IntN(len(gone))
				mem = gone[k]
				if find(mem.name) < 0 {
					gone = append(gone[:k:k], gone[k+1:]...)
				}
			} else {
				m := genTable(r, mo)
				m.Name = freeName()
				mem = member{build(c, m), m.Name, nil}
				mem.m = snapshot(mem.t)
			}
			ok = find(mem.name) < 0
			what = fmt.Sprintf("append %q", mem.name)
			if chance(r, 2) {
				err = s.AppendTable(mem.t)
			} else {
				err = s.Append(mem.t)
			}
			apply = func() { want = append(want, mem) }
		case 3:
			name := someName()
			i := find(name)
			ok = i >= 0
			what = fmt.Sprintf("DeleteTable(%q)", name)
			err = s.DeleteTable(name)
			apply = func() {
				gone = append(gone, want[i])
				want = append(want[:i:i], want[i+1:]...)
			}
		case 4:
			i, fits := anyIndex(r, len(want), chance(r, 4))
			ok = fits && i >= 0 && i < len(want)
			what = fmt.Sprintf("DeleteTableByTableIndex(%d)", i)
			err = s.DeleteTableByTableIndex(i)
			apply = func() {
				gone = append(gone, want[i])
				want = append(want[:i:i], want[i+1:]...)
			}
		case 5, 6:
			from := someName()
			to := freeName()
			if chance(r, 4) {
				to = pick(r, badNames)
			}
			i := find(from)
			valid, _ := g.IsValidTableName(to)
			if valid != (isIdent(to) && !isTypeName(to)) {
				c.Failf("IsValidTableName(%q) = %v", to, valid)
			}
			ok = i >= 0 && find(to) < 0 && valid
			what = fmt.Sprintf("RenameTable(%q, %q)", from, to)
			err = s.RenameTable(from, to)
			apply = func() {
				want[i].name = to
				want[i].m = want[i].m.clone()
				want[i].m.Name = to
			}
		case 7:
			to := pick(r, []string{"", genName(r)})
			what = fmt.Sprintf("SetName(%q)", to)
			err = s.SetName(to)
			apply = func() { setName = to }
		}
		c.Logf("%s: %v", what, err)
		fmt.Fprintln(&hist, what)
		if (err == nil) != ok {
			c.Failf("%s gives error %v: expected success %v with %d tables", what, err, ok, len(want))
		}
		if ok {
			apply()
			c.Ev("applied", 1)
		} else {
			c.Ev("refused", 1)
		}

		// The set is what an ordered list would be.
		if s.Name() != setName {
			c.Failf("after %s the set is named %q: expected %q", what, s.Name(), setName)
		}
		if s.TableCount() != len(want) {
			c.Failf("after %s TableCount() = %d: expected %d", what, s.TableCount(), len(want))
		}
		for i, w := range want {
			t, err := s.GetTableByTableIndex(i)
			if err != nil || t != w.t {
				c.Failf("after %s GetTableByTableIndex(%d) = %p, %v: expected %q %p", what, i, t, err, w.name, w.t)
			}
			t, err = s.GetTable(w.name)
			if err != nil || t != w.t {
				c.Failf("after %s GetTable(%q) = %p, %v: expected %p", what, w.name, t, err, w.t)
			}
			j, err := s.TableIndex(w.name)
			if err != nil || j != i {
				c.Failf("after %s TableIndex(%q) = %d, %v: expected %d", what, w.name, j, err, i)
			}
			if has, err := s.HasTable(w.name); !has || err != nil {
				c.Failf("after %s HasTable(%q) = %v, %v", what, w.name, has, err)
			}
			if d := diffTables(w.m, snapshot(t), cmpOpts{}); d != "" {
				c.Failf("after %s table %q has changed: %s", what, w.name, d)
			}
		}
		for _, w := range gone {
			if ok && find(w.name) < 0 {
				if has, err := s.HasTable(w.name); has || err == nil {
					c.Failf("after %s HasTable(%q) = %v, %v of a table that is not there", what, w.name, has, err)
				}
				if t, err := s.GetTable(w.name); err == nil || t != nil {
					c.Failf("after %s GetTable(%q) = %p, %v of a table that is not there", what, w.name, t, err)
				}
				if i, err := s.TableIndex(w.name); err == nil {
					c.Failf("after %s TableIndex(%q) = %d of a table that is not there", what, w.name, i)
				}
			}
		}
		for _, i := range []int{-1, len(want), len(want) + 1, math.MaxInt, math.MinInt} {
			if t, err := s.GetTableByTableIndex(i); err == nil || t != nil {
				c.Failf("after %s GetTableByTableIndex(%d) = %p, %v with %d tables", what, i, t, err, len(want))
			}
		}
	}
	if ok, err := s.IsValidTableSet(); !ok || err != nil {
		c.Failf("IsValidTableSet() = %v, %v", ok, err)
	}
	c.Ev("histories", 1)
	c.Distinct(hist.String())
	c.Sample(hist.String())
}

func init() {
	register(&Prop{ID: "C16", Quick: 100000, Thorough: 2000000, Run: runC16,
		Rule: "a case copies one table (or set) in one of ten ways after a short history, compares the copy with the part it copies, then applies 4-19 changes to either side (nested tables and bytes in place too, for a deep copy) and looks at the other side after each; distinct is counted over (operation, source)",
		Need: []string{"changes", "copied_Copy", "copied_CopyDeep", "copied_CopyCols", "copied_NewTableFromRows", "copied_NewTableFromRowsBySearchRange", "copied_TableSet", "bytes_changed_in_place", "nested_changed"}})
	register(&Prop{ID: "C17", Quick: 100000, Thorough: 2000000, Run: runC17,
		Rule: "a case applies 5-15 reading operations, each twice, with fitting and ill-fitting arguments, to one table or set (some nested in themselves), and compares the table (and the identity of nested tables) before and after, and both results; distinct is counted over (operation, result)",
		Need: []string{"reads"}})
	register(&Prop{ID: "C18", Quick: 300000, Thorough: 2000000, Run: runC18,
		Rule: "a case compares three tables, related by at most a few small differences at any depth, in all nine pairings with a cell-by-cell comparison of the models; symmetry and transitivity are judged on the answers; distinct is counted over pairs",
		Need: []string{"equal", "unequal", "equal_sets", "unequal_sets"}})
	register(&Prop{ID: "C19", Quick: 120000, Thorough: 2000000, Run: runC19,
		Rule: "a case applies 5-40 set operations, valid and invalid, and compares every lookup with an ordered list after each; distinct is counted over histories",
		Need: []string{"applied", "refused", "histories"}})
}

// overwrite spoils all the maps and slices (but those of bytes) that a caller was given.
func overwrite(v any) {
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Map:
		for _, k := range x.MapKeys() {
			overwrite(x.MapIndex(k).Interface())
			x.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Slice:
		if x.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < x.Len(); i++ {
			if e := x.Index(i); e.CanInterface() {
				overwrite(e.Interface())
			}
			x.Index(i).SetZero()
		}
	}
}
