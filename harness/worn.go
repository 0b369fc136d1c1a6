package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// Worn tables: the same contents, arrived at in another way. The table starts with other columns, names, rows,
// cells, keys and shape, is read (printed, encoded, searched, walked ...), and is then edited into what is wanted.
// Whatever reading left behind in it must not be seen afterwards.

// look reads t without changing it.
func look(c *Case, r *rand.Rand, t *g.Table) {
	col := "wk_none"
	if n := t.ColCount(); n > 0 {
		col, _ = t.ColNameByColIndex(r.IntN(n))
	}
	row := r.IntN(t.RowCount() + 1)
	switch r.IntN(20) {
	case 0, 1:
		_ = t.String()
	case 2:
		_ = t.StringUnpadded()
	case 3:
		_ = t.StringNested()
	case 4, 5:
		_, _ = t.GetTableAsJSON()
	case 6:
		_, _ = t.GetTableAsJSONIndent()
	case 7:
		_, _ = t.GetTableAsCSV()
	case 8:
		_, _ = t.GobEncode()
	case 9:
		_, _ = t.IsValidTable()
	case 10, 11:
		var vals []any
		keys, err := keysOf(t)
		for _, k := range keys {
			v, e := t.GetVal(k, row)
			if e != nil {
				typ, _ := t.ColType(k)
				v = genVal(r, typ, genOpts{smallValues: true})
			}
			vals = append(vals, v)
		}
		if err == nil && len(keys) > 0 {
			_, _ = t.Search(vals...)
			_, _ = t.SearchFirst(vals...)
			_, _ = t.SearchLast(vals...)
			_, _, _ = t.SearchRange(vals...)
		}
	case 12:
		_, _ = t.HasCircularReference()
	case 13:
		_, _ = t.GetColInfoAsTable()
		_, _, _ = t.GetColInfoAsSlices()
	case 14:
		_, _ = t.GetColValsAsStrings(col)
		_, _ = t.GetValAsString(col, row)
		_, _ = t.GetVal(col, row)
	case 15:
		for i := 0; i < t.ColCount(); i++ {
			name, _ := t.ColNameByColIndex(i)
			_, _ = t.ColIndex(name)
			_, _ = t.ColType(name)
			_, _ = t.HasCol(name)
		}
	case 16:
		_, _ = t.GenerateTypeStruct()
		_, _ = t.GenerateTypeStructSliceFromTable()
	case 17:
		_, _ = t.Copy()
		_, _ = t.CopyDeep()
	case 18:
		_, _ = t.Equals(t)
		if t.RowCount() > 1 {
			_, _ = t.CompareRows(0, 1)
		}
	case 19:
		if s, err := g.NewTableSet("worn"); err == nil && s.AppendTable(t) == nil {
			_, _ = s.GetTableSetAsYAML()
		}
	}
	c.Ev("looks_before_edits", 1)
}

func keysOf(t *g.Table) (names []string, err error) {
	kt, err := t.GetSortKeysAsTable()
	if err != nil {
		return nil, err
	}
	for i := 0; i < kt.RowCount(); i++ {
		n, err := kt.GetStringByColIndex(0, i)
		if err != nil {
			return nil, err
		}
		names = append(names, n)
	}
	return names, nil
}

// wornTable starts a table and returns it with the function that edits it into m.
func wornTable(c *Case, m *MTable, depth int) (t *g.Table, finish func()) {
	if m.Nil {
		return g.NewNilTable(), func() {}
	}
	r := c.R
	must := func(err error, what string, args ...any) {
		if err != nil {
			c.Failf("editing a table into %v: %s: %v", m, fmt.Sprintf(what, args...), err)
		}
	}
	fresh := 0
	freshName := func() string { fresh++; return fmt.Sprintf("wk_%d", fresh) }
	for _, col := range m.Cols {
		if strings.HasPrefix(col.Name, "wk_") { // A name of its own.
			return buildFresh(c, m), func() {}
		}
	}
	if len(m.Cols) == 0 {
		return buildFresh(c, m), func() {}
	}

	// The columns to start with: target column or -1.
	type wcol struct {
		target int
		name   string
		typ    string
	}
	var cols []*wcol
	how := r.IntN(4)
	order := r.Perm(len(m.Cols))
	if how == 0 {
		for i := range order {
			order[i] = i
		}
	}
	exchanged := r.Perm(len(m.Cols))
	later := 0 // Columns appended only when finishing.
	if how == 0 && len(m.Cols) > 1 && chance(r, 2) {
		later = 1 + r.IntN(len(m.Cols)-1)
	}
	for k, i := range order {
		if k >= len(order)-later {
			break
		}
		name := m.Cols[i].Name
		switch how {
		case 1:
			name = m.Cols[exchanged[i]].Name
		case 2:
			if chance(r, 2) {
				name = freshName()
			}
		}
		cols = append(cols, &wcol{i, name, m.Cols[i].Type})
	}
	for n := r.IntN(3); n > 0; n-- {
		at := r.IntN(len(cols) + 1)
		if later > 0 {
			at = 0
		}
		x := &wcol{-1, freshName(), pick(r, allTypes)}
		cols = append(cols[:at], append([]*wcol{x}, cols[at:]...)...)
	}
	// The rows to start with: the first of the target's rows with others between.
	var rows []int
	for i := 0; i < len(m.Rows); i++ {
		for chance(r, 6) {
			rows = append(rows, -1)
		}
		rows = append(rows, i)
		if chance(r, len(m.Rows)+3) {
			break
		}
	}
	for chance(r, 3) {
		rows = append(rows, -1)
	}
	tname := m.Name
	if chance(r, 3) {
		tname = "Wk_table"
	}
	t, err := g.NewTable(tname)
	must(err, "NewTable(%q)", tname)
	for _, col := range cols {
		must(t.AppendCol(col.name, col.typ), "AppendCol(%q, %q)", col.name, col.typ)
	}
	must(t.AppendRows(len(rows)), "AppendRows(%d)", len(rows))
	type pos struct{ row, col int }
	done := map[pos]bool{} // Cells of the target already in place.
	var nested []func()
	place := func(w, ci, mr, mc int) {
		v := m.Rows[mr][mc]
		done[pos{mr, mc}] = true
		if sub, is := v.(*MTable); is {
			if sub != nil && !sub.Nil && depth < 3 && chance(r, 2) {
				st, fin := wornTable(c, sub, depth+1)
				must(t.SetTableByColIndex(ci, w, st), "SetTableByColIndex")
				nested = append(nested, fin)
				return
			}
			must(t.SetTableByColIndex(ci, w, build(c, sub)), "SetTableByColIndex")
			return
		}
		byIndex := chance(r, 2)
		name, err := t.ColNameByColIndex(ci)
		must(err, "ColNameByColIndex(%d)", ci)
		must(setTyped(t, m.Cols[mc].Type, byIndex, name, ci, w, buildVal(c, v)), "Set %s", m.Cols[mc].Type)
	}
	ready := 2 + r.IntN(3)
	for w, row := range rows {
		for ci, col := range cols {
			switch {
			case row >= 0 && col.target >= 0 && r.IntN(5) < ready:
				place(w, ci, row, col.target)
			case col.typ != "*Table" && chance(r, 2):
				must(setTyped(t, col.typ, true, "", ci, w, buildVal(c, genVal(r, col.typ, genOpts{smallValues: true}))), "Set %s", col.typ)
			}
		}
	}
	if chance(r, 2) {
		var keys []string
		for _, col := range cols {
			if isSortable(col.typ) && chance(r, 3) {
				keys = append(keys, col.name)
			}
		}
		must(withOwn(t.SetSortKeys, keys), "SetSortKeys(%q)", keys)
	}
	if len(rows) <= 1 && chance(r, 3) {
		must(t.SetStructShape(chance(r, 2)), "SetStructShape")
	}
	// The same table by another way.
	if depth == 0 && len(nested) == 0 && chance(r, 4) {
		plain := true
		for _, col := range cols {
			plain = plain && col.typ != "*Table"
			for i := 0; i < t.RowCount() && col.typ == "time.Time" && plain; i++ {
				v, err := t.GetTime(col.name, i)
				must(err, "GetTime")
				plain = v.Year() >= 0 && v.Year() <= 9999 // The others have no text form.
			}
		}
		switch r.IntN(6) {
		case 0:
			t, err = t.Copy()
			must(err, "Copy")
		case 1:
			t, err = t.CopyDeep()
			must(err, "CopyDeep")
		case 2:
			if b, e := t.GobEncode(); e == nil {
				t, err = g.NewTableFromGob(b)
				must(err, "NewTableFromGob")
			}
		case 3:
			if n := t.RowCount(); n > 0 {
				t, err = t.NewTableFromRows(tname, 0, n-1)
				must(err, "NewTableFromRows")
			}
		case 4:
			if j, e := t.GetTableAsJSON(); e == nil && plain {
				t, err = g.NewTableFromJSON(j)
				must(err, "NewTableFromJSON")
			}
		case 5:
			if plain {
				t, err = g.NewTableFromString(t.StringUnpadded())
				must(err, "NewTableFromString")
			}
		}
	}
	for n := r.IntN(4); n > 0; n-- {
		look(c, r, t)
	}
	c.Ev("worn_tables", 1)

	finish = func() {
		must(t.SetStructShape(false), "SetStructShape")
		peek := func() {
			if chance(r, 4) {
				look(c, r, t)
			}
		}
		if chance(r, 2) {
			must(t.SetSortKeys(), "SetSortKeys()")
			peek()
		}
		index := func(target int) int {
			for i, col := range cols {
				if col.target == target {
					return i
				}
			}
			panic("no such column")
		}
		dropCols := func() {
			for i := len(cols) - 1; i >= 0; i-- {
				if cols[i].target >= 0 {
					continue
				}
				if chance(r, 2) {
					must(t.DeleteCol(cols[i].name), "DeleteCol(%q)", cols[i].name)
				} else {
					must(t.DeleteColByColIndex(i), "DeleteColByColIndex(%d)", i)
				}
				cols = append(cols[:i], cols[i+1:]...)
				peek()
			}
		}
		renameCols := func() {
			for i, col := range cols {
				if col.target < 0 || col.name == m.Cols[col.target].Name {
					continue
				}
				want := m.Cols[col.target].Name
				for j, other := range cols { // Who has the name now gives it up.
					if other.name == want {
						tmp := freshName()
						must(t.RenameColByColIndex(j, tmp), "RenameColByColIndex(%d, %q)", j, tmp)
						other.name = tmp
						peek()
					}
				}
				if chance(r, 2) {
					must(t.RenameCol(col.name, want), "RenameCol(%q, %q)", col.name, want)
				} else {
					must(t.RenameColByColIndex(i, want), "RenameColByColIndex(%d, %q)", i, want)
				}
				col.name = want
				peek()
			}
		}
		orderCols := func() {
			if chance(r, 2) { // Swap into place.
				at := 0
				for target := range m.Cols {
					if later > 0 {
						break
					}
					for at < len(cols) && cols[at].target < 0 {
						at++
					}
					j := index(target)
					if j != at {
						if chance(r, 2) {
							must(t.SwapColsByColIndex(at, j), "SwapColsByColIndex(%d, %d)", at, j)
						} else {
							must(t.SwapCols(cols[at].name, cols[j].name), "SwapCols")
						}
						cols[at], cols[j] = cols[j], cols[at]
						peek()
					}
					at++
				}
				return
			}
			if len(cols) == 0 {
				return
			}
			var to []*wcol
			for _, col := range cols {
				if col.target < 0 {
					to = append(to, col)
				}
			}
			for target := range m.Cols {
				if later > 0 && target >= len(m.Cols)-later {
					break
				}
				to = append(to, cols[index(target)])
			}
			var names []string
			for _, col := range to {
				names = append(names, col.name)
			}
			must(withOwn(t.ReorderCols, names), "ReorderCols(%q)", names)
			cols = to
			peek()
		}
		dropRows := func() {
			for i := len(rows) - 1; i >= 0; i-- {
				if rows[i] >= 0 {
					continue
				}
				from := i
				for from > 0 && rows[from-1] < 0 && chance(r, 2) {
					from--
				}
				if from == i {
					must(t.DeleteRow(i), "DeleteRow(%d)", i)
				} else {
					must(t.DeleteRows(from, i), "DeleteRows(%d, %d)", from, i)
				}
				rows = append(rows[:from], rows[i+1:]...)
				i = from
				peek()
			}
		}
		steps := []func(){dropCols, renameCols, orderCols, dropRows, func() {
			if tname != m.Name {
				must(t.SetName(m.Name), "SetName(%q)", m.Name)
			}
		}, func() {
			for _, fin := range nested {
				fin()
				peek()
			}
			nested = nil
		}}
		r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
		for _, step := range steps {
			step()
		}
		// More columns, more rows.
		more := len(m.Rows) - len(rows)
		first := chance(r, 2) && len(cols) > 0
		grow := func() {
			if more == 1 {
				must(t.AppendRow(), "AppendRow")
			} else if more > 0 {
				must(t.AppendRows(more), "AppendRows(%d)", more)
			}
			peek()
		}
		if first {
			grow()
		}
		for i := len(cols); i < len(m.Cols); i++ {
			must(t.AppendCol(m.Cols[i].Name, m.Cols[i].Type), "AppendCol(%q, %q)", m.Cols[i].Name, m.Cols[i].Type)
			peek()
		}
		if !first {
			grow()
		}
		if depth == 0 && chance(r, 3) {
			// Sorted (by what will be its keys), shuffled or reversed when it held other cells.
			if chance(r, 2) {
				for i := range m.Rows {
					for j, col := range m.Cols {
						if col.Type != "*Table" && chance(r, 2) {
							must(setTyped(t, col.Type, true, "", j, i, buildVal(c, genVal(r, col.Type, genOpts{smallValues: true}))), "Set %s", col.Type)
						}
					}
				}
			}
			setKeys(c, t, m.Keys)
			for n := 1 + r.IntN(2); n > 0; n-- {
				switch r.IntN(5) {
				case 0:
					must(t.ShufflePseudorandom(), "ShufflePseudorandom")
				case 1:
					must(t.Reverse(), "Reverse")
				default:
					if len(m.Keys) > 0 {
						must(t.Sort(), "Sort")
					}
				}
				peek()
			}
			for _, fin := range nested {
				fin()
			}
			nested = nil
			done = map[pos]bool{}
			c.Ev("sorted_before_edits", 1)
		}
		for i := range m.Rows {
			for j := range m.Cols {
				if !done[pos{i, j}] {
					place(i, j, i, j)
				}
			}
			if chance(r, 4*len(m.Rows)) {
				look(c, r, t)
			}
		}
		if len(m.Keys) > 0 {
			setKeys(c, t, m.Keys)
		} else {
			must(t.SetSortKeys(), "SetSortKeys()")
		}
		if m.Shape {
			must(t.SetStructShape(true), "SetStructShape")
		}
		for _, fin := range nested { // Of what was placed last.
			fin()
			peek()
		}
	}
	return t, finish
}

// wornSet gives a table set whose tables were in it, and read with it, before they were what they are now.
func wornSet(c *Case, name string, ms []*MTable) *g.TableSet {
	r := c.R
	s, err := g.NewTableSet("worn_set")
	must := func(err error, what string) {
		if err != nil {
			c.Failf("editing a table set: %s: %v", what, err)
		}
	}
	must(err, "NewTableSet")
	var fins []func()
	extra := -1
	for i, m := range ms {
		if chance(r, 4) && extra < 0 {
			t, err := g.NewTable("Wk_extra")
			must(err, "NewTable")
			must(t.AppendCol("i", "int"), "AppendCol")
			must(s.AppendTable(t), "AppendTable")
			extra = i
		}
		t, fin := wornTable(c, m, 1)
		if !m.Nil {
			must(t.SetName(fmt.Sprintf("Wk_%d", i)), "SetName")
			fins = append(fins, fin, func() { must(t.SetName(m.Name), "SetName") })
		}
		must(s.AppendTable(t), "AppendTable")
	}
	lookSet := func() {
		switch r.IntN(6) {
		case 0:
			_ = s.String()
		case 1:
			_ = s.StringUnpadded()
		case 2:
			_, _ = s.GetTableSetAsJSON()
		case 3:
			_, _ = s.GetTableSetAsYAML()
		case 4:
			_, _ = s.GobEncode()
		case 5:
			for i := 0; i < s.TableCount(); i++ {
				if t, err := s.GetTableByTableIndex(i); err == nil {
					_, _ = s.GetTable(t.Name())
					_, _ = s.TableIndex(t.Name())
				}
			}
		}
		c.Ev("looks_before_edits", 1)
	}
	lookSet()
	must(s.SetName(name), "SetName")
	if extra >= 0 {
		if chance(r, 2) {
			must(s.DeleteTable("Wk_extra"), "DeleteTable")
		} else {
			must(s.DeleteTableByTableIndex(extra), "DeleteTableByTableIndex")
		}
	}
	for _, fin := range fins {
		fin()
		if chance(r, 6) {
			lookSet()
		}
	}
	return s
}
