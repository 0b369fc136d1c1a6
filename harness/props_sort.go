package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// sortTable generates a table for sorting: often with many equal keys, sometimes large.
func sortTable(c *Case, maxRows int) *MTable {
	r := c.R
	o := genOpts{emptyRows: true, minCols: 1, maxCols: 6, minRows: 0, maxRows: maxRows, depth: 1, shape: true, smallValues: !chance(r, 3)}
	if chance(r, 3) {
		o.types = sortableTypes
	}
	if chance(r, 12) {
		o.maxRows = maxRows * 10
		o.depth = 0
	}
	if large(c, &o, 997) && (maxRows < 40 || o.maxRows <= 4000) {
		o.maxRows = min(o.maxRows, maxRows*400)
		o.minRows = min(o.minRows, o.maxRows)
	}
	alike := chance(r, 8)
	if alike && o.minRows == 0 {
		o.types, o.minCols, o.maxCols = sortableTypes, 1, 16
	}
	m := genTable(r, o)
	if alike {
		// Rows that differ from another row in one column only: any of many keys may decide.
		for i := 1; i < len(m.Rows); i++ {
			if chance(r, 5) {
				continue
			}
			row := append([]any(nil), m.Rows[r.IntN(i)]...)
			if !chance(r, 4) {
				j := r.IntN(len(row))
				row[j] = genVal(r, m.Cols[j].Type, genOpts{emptyRows: true, smallValues: true})
			}
			m.Rows[i] = row
		}
	}
	if genKeys(r, m, 1) == nil {
		// No sortable column: add one.
		name := "key_"
		for m.colIndex(name) >= 0 {
			name += "_"
		}
		m.Cols = append(m.Cols, MCol{name, pick(r, sortableTypes)})
		for i := range m.Rows {
			m.Rows[i] = append(m.Rows[i], genVal(r, m.Cols[len(m.Cols)-1].Type, o))
		}
	}
	if len(m.Rows) > 1 && chance(r, 8) {
		// Keys that differ from one another as little as possible.
		for _, i := range r.Perm(len(m.Cols)) {
			tight(c, m, i)
			break
		}
	}
	return m
}

// tight gives column i values that differ from one another as little as their type allows.
func tight(c *Case, m *MTable, i int) {
	r := c.R
	typ := m.Cols[i].Type
	base := genVal(r, typ, genOpts{emptyRows: true, noNaN: true})
	for k := range m.Rows {
		d := r.IntN(3)
		switch b := base.(type) {
		case float64:
			for ; d > 0; d-- {
				b = math.Nextafter(b, math.Inf(1))
			}
			m.Rows[k][i] = b
		case float32:
			for ; d > 0; d-- {
				b = math.Nextafter32(b, float32(math.Inf(1)))
			}
			m.Rows[k][i] = b
		case string:
			m.Rows[k][i] = pick(r, []string{b, strings.ToUpper(b), strings.ToLower(b), b + "\x00", b + " ", strings.Title(b)})
		case int64:
			m.Rows[k][i] = b + int64(d)
		case uint64:
			m.Rows[k][i] = b + uint64(d)
		case int:
			m.Rows[k][i] = b + d
		case uint:
			m.Rows[k][i] = b + uint(d)
		}
	}
}

// ---------------------------------------------------------------- C13

func runC13(c *Case) {
	r := c.R
	m := sortTable(c, 40)
	t := buildSame(c, m)
	c.Logf("table %v", m)
	// Set the keys in one of the ways there are.
	keys := genKeys(r, m, 1+r.IntN(4))
	if chance(r, 10) && len(keys) > 0 {
		keys = append(keys, keys[r.IntN(len(keys))])
	}
	var names, rev []string
	for _, k := range keys {
		names = append(names, k.Col)
	}
	for i := range keys {
		for j := range keys {
			if keys[j].Col == keys[i].Col && keys[j].Reverse {
				keys[i].Reverse = true
			}
		}
		if keys[i].Reverse {
			rev = append(rev, keys[i].Col)
		}
	}
	ascending := func() {
		for i := range keys {
			keys[i].Reverse = false
		}
	}
	must := func(what string, err error) {
		if err != nil {
			c.Failf("%s: %v\non %v", what, err, m)
		}
	}
	before := snapshot(t)
	how := r.IntN(6)
	switch how {
	case 0:
		must("SetSortKeys", withOwn(t.SetSortKeys, names))
		if len(rev) > 0 || chance(r, 2) {
			must("SetSortKeysReverse", withOwn(t.SetSortKeysReverse, rev))
		}
	case 1:
		ascending()
		for _, n := range names {
			must("AppendSortKey", t.AppendSortKey(n))
		}
	case 2:
		f := build(c, &MTable{Name: "keys", Cols: m.Cols})
		must("SetSortKeys", withOwn(f.SetSortKeys, names))
		must("SetSortKeysReverse", withOwn(f.SetSortKeysReverse, rev))
		must("SetSortKeysFromTable", t.SetSortKeysFromTable(f))
	case 3, 4, 5:
		// Other keys were set and sorted by before.
		if k0 := genKeys(r, m, 2); len(k0) > 0 && chance(r, 2) {
			setKeys(c, t, k0)
			must("Sort", t.Sort())
			before = snapshot(t)
		}
		ascending()
	}
	m = before.clone()
	m.Keys = keys
	// Edits between setting keys and sorting.
	if how <= 2 {
		for n := r.IntN(4); n > 0 && chance(r, 2); n-- {
			switch r.IntN(5) {
			case 0:
				i := r.IntN(len(m.Cols))
				name := genName(r)
				if m.colIndex(name) >= 0 {
					continue
				}
				must("RenameCol", t.RenameCol(m.Cols[i].Name, name))
				m.renameKey(m.Cols[i].Name, name)
				m.Cols[i].Name = name
			case 1:
				perm := r.Perm(len(m.Cols))
				must("ReorderColsByColIndex", t.ReorderColsByColIndex(perm...))
				m.reorder(perm)
			case 2:
				if len(m.Cols) < 2 {
					continue
				}
				i := r.IntN(len(m.Cols))
				must("DeleteCol", t.DeleteCol(m.Cols[i].Name))
				m.deleteCol(i)
			case 3:
				if len(m.Cols) < 2 {
					continue
				}
				p := r.Perm(len(m.Cols))
				must("SwapCols", t.SwapCols(m.Cols[p[0]].Name, m.Cols[p[1]].Name))
				swapPerm(m, p[0], p[1])
			case 4:
				must("OrderColsBySortKeys", t.OrderColsBySortKeys())
				var perm []int
				for _, k := range m.Keys {
					if i := m.colIndex(k.Col); !containsInt(perm, i) {
						perm = append(perm, i)
					}
				}
				for i := range m.Cols {
					if !containsInt(perm, i) {
						perm = append(perm, i)
					}
				}
				m.reorder(perm)
			}
			c.Ev("edits_between", 1)
		}
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("before sorting: expected vs found: %s", d)
		}
	}
	b := m.clone()
	b.Keys = nil
	var err error
	switch how {
	case 3:
		err = t.Sort(names...)
	case 4:
		err = t.SortSimple(names...)
	case 5:
		must("SetSortKeys", withOwn(t.SetSortKeys, names))
		err = t.Sort()
	default:
		err = t.Sort()
	}
	if len(m.Keys) == 0 {
		if err == nil {
			c.Failf("Sort() without keys gives no error")
		}
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("failed sort changed the table: %s", d)
		}
		return
	}
	must("sorting", err)
	after := snapshot(t)
	if p := judgeSorted(m.Keys)(m, after); p != "" {
		c.Failf("sorting by %v: %s\nbefore %v\nafter %v", m.Keys, p, m, after)
	}
	if len(m.Rows) > 1 {
		c.Ev("sorted", 1)
		c.Distinct(m.fullKey())
	}
	// CompareRows agrees on which rows have equal keys, and is antisymmetric.
	for n := 0; n < 6 && len(after.Rows) > 0; n++ {
		i, j := r.IntN(len(after.Rows)), r.IntN(len(after.Rows))
		if chance(r, 2) {
			j = min(i+1, len(after.Rows)-1)
		}
		x, e1 := t.CompareRows(i, j)
		y, e2 := t.CompareRows(j, i)
		if e1 != nil || e2 != nil {
			c.Failf("CompareRows(%d, %d): %v %v", i, j, e1, e2)
		}
		same := after.keyCompare(m.Keys, after.Rows[i], after.Rows[j]) == 0
		if (x == 0) != same || x != -y || x < -1 || x > 1 {
			c.Failf("CompareRows(%d, %d) = %d and reversed %d; keys equal: %v, by %v of %v", i, j, x, y, same, m.Keys, after)
		}
		if len(m.Keys) == 1 && !m.Keys[0].Reverse {
			if want := after.keyCompare(m.Keys, after.Rows[i], after.Rows[j]); x != want {
				c.Failf("CompareRows(%d, %d) = %d: expected %d by %v of %v", i, j, x, want, m.Keys, after)
			}
		}
		c.Ev("compared", 1)
	}
	for _, bad := range [][2]int{{-1, 0}, {0, len(after.Rows)}, {len(after.Rows), 0}} {
		if _, err := t.CompareRows(bad[0], bad[1]); err == nil {
			c.Failf("CompareRows(%d, %d) of %d rows gives no error", bad[0], bad[1], len(after.Rows))
		}
	}
	// Refused sorts.
	names, ok, _ := keyList(r, after, true, true)
	if !ok {
		var err error
		f := ""
		if chance(r, 2) {
			f, err = "Sort", t.Sort(names...)
		} else {
			f, err = "SortSimple", t.SortSimple(names...)
		}
		if err == nil {
			c.Failf("%s(%q) gives no error on %v", f, names, after)
		}
		if d := diffTables(after, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("%s(%q) failed (%v) but changed the table: %s", f, names, err, d)
		}
		c.Ev("refused", 1)
	}
	if err := t.SortSimple(); err == nil {
		c.Failf("SortSimple() without columns gives no error")
	}
	c.Sample(after.String())
	// Changed and sorted again, mostly by the same keys.
	for n := r.IntN(3); n > 0 && len(after.Keys) > 0; n-- {
		m := after
		for e := r.IntN(4); e > 0; e-- {
			switch r.IntN(6) {
			case 0:
				if len(m.Rows) > 0 {
					i := r.IntN(len(m.Rows))
					must("DeleteRow", t.DeleteRow(i))
				}
				if chance(r, 2) {
					must("AppendRow", t.AppendRow())
				}
				m = snapshot(t)
			case 1:
				if p := r.Perm(len(m.Cols)); len(p) > 1 {
					must("SwapColsByColIndex", t.SwapColsByColIndex(p[0], p[1]))
					m = snapshot(t)
				}
			case 2:
				must("Reverse", t.Reverse())
				m = snapshot(t)
			default:
				if len(m.Rows) == 0 {
					continue
				}
				i, j := r.IntN(len(m.Rows)), r.IntN(len(m.Cols))
				if chance(r, 2) {
					j = m.colIndex(pick(r, m.Keys).Col)
				}
				if typ := m.Cols[j].Type; typ != "*Table" {
					v := genVal(r, typ, genOpts{emptyRows: true, smallValues: true})
					must("setting a cell", setTyped(t, typ, chance(r, 2), m.Cols[j].Name, j, i, v))
					m.Rows[i][j] = v
				}
			}
		}
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("before sorting again: expected vs found: %s", d)
		}
		plain := true
		var same []string
		for _, k := range m.Keys {
			plain = plain && !k.Reverse
			same = append(same, k.Col)
		}
		if plain && chance(r, 2) {
			must("Sort again", t.Sort(same...))
		} else {
			must("Sort again", t.Sort())
		}
		after = snapshot(t)
		if p := judgeSorted(m.Keys)(m, after); p != "" {
			c.Failf("sorting again by %v: %s\nbefore %v\nafter %v", m.Keys, p, m, after)
		}
		c.Ev("sorted_again", 1)
	}
}

func containsInt(s []int, x int) bool {
	for _, v := range s {
		if v == x {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C14

// editSorted changes a sorted table and leaves it sorted by the same keys.
func editSorted(c *Case, t *g.Table, m *MTable) *MTable {
	r := c.R
	must := func(err error) {
		if err != nil {
			c.Failf("editing a sorted table: %v\n%v", err, m)
		}
	}
	for n := 1 + r.IntN(2); n > 0; n-- {
		switch r.IntN(8) {
		case 0:
			if nr := t.RowCount(); nr > 0 {
				must(t.DeleteRow(r.IntN(nr)))
			}
		case 1:
			must(t.AppendRow())
		case 2:
			if nc := t.ColCount(); nc > 1 {
				p := r.Perm(nc)
				must(t.SwapColsByColIndex(p[0], p[1]))
			}
		case 3:
			if _, err := t.ColIndex("renamed"); err != nil {
				must(t.RenameColByColIndex(r.IntN(t.ColCount()), "renamed"))
			}
		case 4:
			if chance(r, 2) {
				must(t.Reverse())
			} else {
				must(t.ShufflePseudorandom())
			}
		default:
			if nr := t.RowCount(); nr > 0 {
				now := snapshot(t)
				k := pick(r, now.Keys)
				v := genVal(r, k.Type, genOpts{emptyRows: true, smallValues: chance(r, 2)})
				if chance(r, 2) {
					v = now.Rows[r.IntN(nr)][now.colIndex(k.Col)]
				}
				must(setTyped(t, k.Type, false, k.Col, 0, r.IntN(nr), v))
			}
		}
	}
	if err := t.Sort(); err != nil {
		c.Failf("Sort after edits: %v on %v", err, m)
	}
	c.Ev("edits_between", 1)
	m = snapshot(t)
	c.Logf("edited: %v", m)
	return m
}

func runC14(c *Case) {
	r := c.R
	m := sortTable(c, 40)
	m.Keys = genKeys(r, m, 1+r.IntN(3))
	t := build(c, m)
	if err := t.Sort(); err != nil {
		c.Failf("Sort: %v on %v", err, m)
	}
	m = snapshot(t)
	c.Logf("table %v", m)
	var asked [][]any
	for n := 0; n < 12; n++ {
		if chance(r, 6) {
			m = editSorted(c, t, m)
		}
		vals := make([]any, len(m.Keys))
		// From a row, sometimes with a change, or freshly generated.
		base := -1
		if len(m.Rows) > 0 && !chance(r, 4) {
			base = r.IntN(len(m.Rows))
			if chance(r, 4) {
				base = pick(r, []int{0, len(m.Rows) - 1})
			}
		}
		change := chance(r, 2)
		for i, k := range m.Keys {
			if base >= 0 && !(change && chance(r, len(m.Keys))) {
				vals[i] = m.Rows[base][m.colIndex(k.Col)]
			} else if base >= 0 && chance(r, 2) {
				vals[i] = neighbour(c, m.Rows[base][m.colIndex(k.Col)])
			} else {
				vals[i] = genVal(r, k.Type, genOpts{emptyRows: true, smallValues: chance(r, 2)})
			}
		}
		if len(asked) > 0 && chance(r, 4) {
			vals = pick(r, asked) // Again.
		}
		asked = append(asked, vals)
		first, last := -1, -1
		for i, row := range m.Rows {
			equal := true
			for j, k := range m.Keys {
				if compareVal(k.Type, row[m.colIndex(k.Col)], vals[j]) != 0 {
					equal = false
				}
			}
			if equal {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		judge := func(what string, got int, err error, want int) {
			if want < 0 {
				if err == nil || got != -1 {
					c.Failf("%s(%v) = %d, %v: no row matches by %v in %v", what, vals, got, err, m.Keys, m)
				}
			} else if err != nil || got != want {
				c.Failf("%s(%v) = %d, %v: a scan finds row %d by %v in %v", what, vals, got, err, want, m.Keys, m)
			}
		}
		i, err := t.Search(vals...)
		judge("Search", i, err, first)
		i, err = t.SearchFirst(vals...)
		judge("SearchFirst", i, err, first)
		i, err = t.SearchLast(vals...)
		judge("SearchLast", i, err, last)
		i, j, err := t.SearchRange(vals...)
		judge("SearchRange first", i, err, first)
		judge("SearchRange last", j, err, last)
		c.Distinct(m.fullKey(), rowKey(vals))
		nt, err := t.NewTableFromRowsBySearchRange("found", vals...)
		if first >= 0 {
			c.Ev("found", 1)
			if err != nil {
				c.Failf("NewTableFromRowsBySearchRange(%v): %v", vals, err)
			}
			want := &MTable{Name: "found", Cols: m.Cols, Rows: m.Rows[first : last+1]}
			if d := diffTables(want, snapshot(nt), cmpOpts{noKeys: true, noShape: true, nestedLoose: true}); d != "" {
				c.Failf("NewTableFromRowsBySearchRange(%v): %s", vals, d)
			}
		} else {
			c.Ev("absent", 1)
			if err == nil || nt != nil {
				c.Failf("NewTableFromRowsBySearchRange(%v) = %v, %v: no row matches", vals, nt, err)
			}
		}
		if chance(r, 4) {
			// Search values that do not fit.
			bad := append([]any{}, vals...)
			switch r.IntN(3) {
			case 0:
				bad = bad[:len(bad)-1]
			case 1:
				bad = append(bad, vals[0])
			default:
				k := r.IntN(len(bad))
				bad[k] = wrongVal(c, m.Keys[k].Type)
			}
			a, e1 := t.Search(bad...)
			b, e2 := t.SearchLast(bad...)
			x, y, e3 := t.SearchRange(bad...)
			_, e4 := t.NewTableFromRowsBySearchRange("found", bad...)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil || a != -1 || b != -1 || x != -1 || y != -1 {
				c.Failf("searching for ill-fitting %v by %v = %d %v, %d %v, %d %d %v, %v", bad, m.Keys, a, e1, b, e2, x, y, e3, e4)
			}
			c.Ev("refused", 1)
		}
	}
	if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
		c.Failf("searching changed the table: %s", d)
	}
	// The underlying searches over any monotone predicate.
	n := logSize(r, 0, 300)
	at := r.IntN(n + 1)
	if i := g.SearchFirst(n, func(i int) bool { mustBeIn(c, i, n); return i >= at }); i != at {
		c.Failf("SearchFirst(%d) with a boundary at %d gives %d", n, at, i)
	}
	if i := g.SearchLast(n, func(i int) bool { mustBeIn(c, i, n); return i < at }); i != at-1 {
		c.Failf("SearchLast(%d) with a boundary at %d gives %d", n, at, i)
	}
	if chance(r, 5) {
		if err := t.SetSortKeys(); err != nil {
			c.Failf("SetSortKeys(): %v", err)
		}
		if i, err := t.Search(1); err == nil || i != -1 {
			c.Failf("searching without keys gives %d, %v", i, err)
		}
	}
	c.Sample(m.String())
}

func mustBeIn(c *Case, i, n int) {
	if i < 0 || i >= n {
		c.Failf("search asks about %d of %d", i, n)
	}
}

// neighbour gives a value next to v in sort order.
func neighbour(c *Case, v any) any {
	r := c.R
	d := 1
	if chance(r, 2) {
		d = -1
	}
	switch x := v.(type) {
	case bool:
		return !x
	case string:
		return pick(r, []string{x + "\x00", x + "a", strings.ToUpper(x), strings.ToLower(x), strings.TrimSuffix(x, "a"), ""})
	case float64:
		return math.Nextafter(x, math.Inf(d))
	case float32:
		return math.Nextafter32(x, float32(math.Inf(d)))
	case int:
		return x + d
	case int8:
		return x + int8(d)
	case int16:
		return x + int16(d)
	case int32:
		return x + int32(d)
	case int64:
		return x + int64(d)
	case uint:
		return x + uint(d)
	case uint8:
		return x + uint8(d)
	case uint16:
		return x + uint16(d)
	case uint32:
		return x + uint32(d)
	case uint64:
		return x + uint64(d)
	}
	return v
}

// ---------------------------------------------------------------- C15

func meaningful(v any) bool {
	switch x := v.(type) {
	case float64:
		return x != 0 && x == x
	case float32:
		return x != 0 && x == x
	case string:
		return x != ""
	case bool:
		return x
	case []byte:
		return len(x) > 0
	case time.Time:
		return !x.IsZero()
	case *MTable:
		return !x.Nil
	}
	return v != intLikeZero(v)
}

func intLikeZero(v any) any {
	switch v.(type) {
	case int:
		return int(0)
	case int8:
		return int8(0)
	case int16:
		return int16(0)
	case int32:
		return int32(0)
	case int64:
		return int64(0)
	case uint:
		return uint(0)
	case uint8:
		return uint8(0)
	case uint16:
		return uint16(0)
	case uint32:
		return uint32(0)
	case uint64:
		return uint64(0)
	}
	panic(fmt.Sprintf("intLikeZero %T", v))
}

func isNaN(v any) bool {
	switch x := v.(type) {
	case float64:
		return x != x
	case float32:
		return x != x
	}
	return false
}

// identity is the text of the key cells of a row.
func identity(m *MTable, keys []MKey, row []any) string {
	var b strings.Builder
	for _, k := range keys {
		b.WriteString(valKey(row[m.colIndex(k.Col)], true))
		b.WriteByte('|')
	}
	return b.String()
}

// judgeMerged judges a merge of m1 and m2 (which may be nil) by keys.
func judgeMerged(c *Case, what, name string, keys []MKey, m1, m2, got *MTable) {
	fail := func(format string, args ...any) {
		c.Failf("%s by %v: %s\nfirst  %v\nsecond %v\nresult %v", what, keys, fmt.Sprintf(format, args...), m1, m2, got)
	}
	var cols []MCol
	add := func(cs []MCol) {
		for _, x := range cs {
			found := false
			for _, y := range cols {
				found = found || x.Name == y.Name
			}
			if !found {
				cols = append(cols, x)
			}
		}
	}
	var keyCols []MCol
	for _, k := range keys {
		keyCols = append(keyCols, MCol{k.Col, k.Type})
	}
	add(keyCols)
	add(m1.Cols)
	srcs := []*MTable{m1}
	if m2 != nil {
		add(m2.Cols)
		srcs = append(srcs, m2)
	}
	if got.Name != name {
		fail("named %q", got.Name)
	}
	if fmt.Sprint(got.Cols) != fmt.Sprint(cols) {
		fail("columns %v, expected %v", got.Cols, cols)
	}
	// Group the source rows.
	type group struct{ rows [2][][]any }
	groups := map[string]*group{}
	for s, m := range srcs {
		for _, row := range m.Rows {
			id := identity(m, keys, row)
			if groups[id] == nil {
				groups[id] = &group{}
			}
			groups[id].rows[s] = append(groups[id].rows[s], row)
		}
	}
	if len(got.Rows) != len(groups) {
		fail("%d rows for %d distinct keys", len(got.Rows), len(groups))
	}
	seen := map[string]bool{}
	for i, row := range got.Rows {
		id := identity(got, keys, row)
		gr := groups[id]
		if gr == nil {
			fail("row %d has a key that occurs in neither table", i)
		}
		if seen[id] {
			fail("row %d repeats a key", i)
		}
		seen[id] = true
		if i > 0 && got.keyCompare(keys, got.Rows[i-1], row) >= 0 {
			fail("rows %d and %d are not in key order", i-1, i)
		}
		for j, col := range got.Cols {
			var allowed []any
			anyZero, anyNaN, anyAbsent := false, false, false
			for s, m := range srcs {
				k := m.colIndex(col.Name)
				for _, src := range gr.rows[s] {
					if k < 0 {
						anyAbsent = true
						continue
					}
					switch {
					case meaningful(src[k]):
						if s == 0 || len(allowed) == 0 || m1.colIndex(col.Name) < 0 || !anyMeaningful(m1, col.Name, gr.rows[0]) {
							allowed = append(allowed, src[k])
						}
					case isNaN(src[k]):
						anyNaN = true
					default:
						anyZero = true
					}
				}
			}
			ok := false
			if len(allowed) > 0 {
				for _, v := range allowed {
					ok = ok || eqVal(v, row[j], cmpOpts{})
				}
			} else if anyZero || !isFloatType(col.Type) {
				ok = !meaningful(row[j]) && !isNaN(row[j])
			} else if anyNaN || anyAbsent {
				ok = isNaN(row[j])
			}
			if !ok {
				fail("row %d col %v holds %s: expected one of %v (zero seen: %v, NaN seen: %v)", i, col, showVal(row[j]), allowed, anyZero, anyNaN || anyAbsent)
			}
			c.Ev("cells_judged", 1)
		}
	}
	if fmt.Sprint(got.Keys) != fmt.Sprint(keys) {
		fail("sort keys %v", got.Keys)
	}
}

func anyMeaningful(m *MTable, col string, rows [][]any) bool {
	k := m.colIndex(col)
	for _, r := range rows {
		if k >= 0 && meaningful(r[k]) {
			return true
		}
	}
	return false
}

func runC15(c *Case) {
	r := c.R
	m1 := sortTable(c, 10)
	m1.Shape = false
	keys := genKeys(r, m1, 1+r.IntN(3))
	// Fewer distinct keys, so that rows meet.
	o := genOpts{emptyRows: true, smallValues: true, maxCols: 2, maxRows: 2, depth: 1}
	var m2 *MTable
	if !chance(r, 3) {
		m2 = &MTable{Name: genName(r)}
		for _, i := range r.Perm(len(m1.Cols)) {
			isKey := false
			for _, k := range keys {
				isKey = isKey || k.Col == m1.Cols[i].Name
			}
			if isKey || chance(r, 2) {
				m2.Cols = append(m2.Cols, m1.Cols[i])
			}
		}
		for n := r.IntN(3); n > 0; n-- {
			name := genName(r)
			if m2.colIndex(name) < 0 && m1.colIndex(name) < 0 {
				at := r.IntN(len(m2.Cols) + 1)
				m2.Cols = append(m2.Cols[:at:at], append([]MCol{{name, pick(r, allTypes)}}, m2.Cols[at:]...)...)
			}
		}
		for n := logSize(r, 0, max(10, 2*len(m1.Rows))); n > 0; n-- {
			row := make([]any, len(m2.Cols))
			for i, col := range m2.Cols {
				row[i] = genVal(r, col.Type, o)
				if len(m1.Rows) > 0 && chance(r, 2) {
					if k := m1.colIndex(col.Name); k >= 0 {
						row[i] = cloneVal(m1.Rows[r.IntN(len(m1.Rows))][k])
					}
				}
			}
			if len(m1.Rows) > 0 && !chance(r, 3) {
				src := m1.Rows[r.IntN(len(m1.Rows))]
				for _, k := range keys {
					row[m2.colIndex(k.Col)] = src[m1.colIndex(k.Col)]
				}
			}
			m2.Rows = append(m2.Rows, row)
		}
	}
	if len(m1.Rows) > 1 && chance(r, 2) {
		// Duplicates within the first table.
		for n := r.IntN(3); n >= 0; n-- {
			a, b := r.IntN(len(m1.Rows)), r.IntN(len(m1.Rows))
			for _, k := range keys {
				m1.Rows[a][m1.colIndex(k.Col)] = m1.Rows[b][m1.colIndex(k.Col)]
			}
		}
	}
	if m2 == nil {
		// Keeping the unique rows.
		t := build(c, m1)
		var names []string
		if chance(r, 2) {
			setKeys(c, t, keys)
		} else {
			for i := range keys {
				keys[i].Reverse = false
				names = append(names, keys[i].Col)
			}
		}
		before := snapshot(t)
		c.Logf("SortUnique(%q) of %v", names, before)
		u, err := t.SortUnique(names...)
		if err != nil {
			c.Failf("SortUnique(%q): %v on %v", names, err, before)
		}
		got := snapshot(u)
		judgeMerged(c, "SortUnique", m1.Name, keys, m1, nil, got)
		if d := diffTables(before, snapshot(t), cmpOpts{noKeys: true}); d != "" {
			c.Failf("SortUnique changed its input: %s", d)
		}
		if ok, err := u.IsValidTable(); !ok {
			c.Failf("SortUnique gives an invalid table: %v", err)
		}
		c.Ev("uniqued", 1)
		c.Distinct("unique", m1.fullKey(), fmt.Sprint(keys))
		return
	}
	t1, t2 := build(c, m1), build(c, m2)
	switch r.IntN(4) {
	case 0:
		setKeys(c, t2, keys)
	case 1:
		setKeys(c, t1, keys)
		// The second table's own keys give way.
		setKeys(c, t2, genKeys(r, m2, 2))
	case 2:
		setKeys(c, t1, keys)
		setKeys(c, t2, keys)
	default:
		setKeys(c, t1, keys)
	}
	b1, b2 := snapshot(t1), snapshot(t2)
	c.Logf("Merge of %v and %v", b1, b2)
	x, err := t1.Merge(t2)
	if err != nil {
		c.Failf("Merge: %v\nof %v\nand %v", err, b1, b2)
	}
	judgeMerged(c, "Merge", "Merged", keys, m1, m2, snapshot(x))
	if d := diffTables(b1, snapshot(t1), cmpOpts{noKeys: true}); d != "" {
		c.Failf("Merge changed the first table: %s", d)
	}
	if d := diffTables(b2, snapshot(t2), cmpOpts{noKeys: true}); d != "" {
		c.Failf("Merge changed the second table: %s", d)
	}
	if ok, err := x.IsValidTable(); !ok {
		c.Failf("Merge gives an invalid table: %v", err)
	}
	c.Ev("merged", 1)
	c.Distinct("merge", m1.fullKey(), m2.fullKey(), fmt.Sprint(keys))
	c.Sample(m1.String() + "  merged with  " + m2.String())
	// Incompatible inputs.
	if chance(r, 2) {
		t1, t2 = build(c, m1), build(c, m2)
		why := ""
		switch r.IntN(4) {
		case 0:
			why = "no keys"
		case 1:
			why = "key column missing in the second"
			setKeys(c, t1, keys)
			if len(m2.Cols) < 2 {
				return
			}
			t2.DeleteCol(keys[r.IntN(len(keys))].Col)
		case 2:
			why = "key column of another type"
			setKeys(c, t1, keys)
			k := pick(r, keys)
			t2.DeleteCol(k.Col)
			typ := pick(r, allTypes)
			if typ == k.Type {
				return
			}
			t2.AppendCol(k.Col, typ)
		case 3:
			why = "common column of another type"
			setKeys(c, t1, keys)
			name := pick(r, m1.Cols).Name
			typ := pick(r, allTypes)
			if typ == m1.Cols[m1.colIndex(name)].Type {
				return
			}
			if ok, _ := t2.HasCol(name); ok {
				t2.DeleteCol(name)
			}
			t2.AppendCol(name, typ)
		}
		b1, b2 := snapshot(t1), snapshot(t2)
		x, err := t1.Merge(t2)
		if err == nil || x != nil {
			c.Failf("Merge of incompatible tables (%s) = %v, %v\n%v\n%v", why, x, err, b1, b2)
		}
		if d := diffTables(b1, snapshot(t1), cmpOpts{}); d != "" {
			c.Failf("failed Merge changed the first table: %s", d)
		}
		if d := diffTables(b2, snapshot(t2), cmpOpts{}); d != "" {
			c.Failf("failed Merge changed the second table: %s", d)
		}
		c.Ev("refused", 1)
	}
}

// ---------------------------------------------------------------- C23

// shuffleOrder tells where the pseudorandom shuffle moves the rows of an n-row table.
func shuffleOrder(n int) []int {
	t, err := g.NewTable("order")
	if err == nil {
		err = t.AppendCol("i", "int")
	}
	if err == nil {
		err = t.AppendRows(n)
	}
	for i := 0; i < n && err == nil; i++ {
		err = t.SetInt("i", i, i)
	}
	if err == nil {
		err = t.ShufflePseudorandom()
	}
	order := make([]int, n)
	for i := 0; i < n && err == nil; i++ {
		order[i], err = t.GetInt("i", i)
	}
	if err != nil {
		panic(violation{fmt.Sprintf("shuffling %d rows: %v", n, err)})
	}
	return order
}

const maxShuffle = 80

var otherProcess [][]int // The orders another process found.

func init() {
	helpers["shuffle"] = func([]string) {
		// From largest to smallest, so that state carried from call to call would show.
		out := make([][]int, maxShuffle+1)
		for n := maxShuffle; n >= 0; n-- {
			out[n] = shuffleOrder(n)
		}
		w := bufio.NewWriter(os.Stdout)
		json.NewEncoder(w).Encode(out)
		w.Flush()
	}
}

func setupC23() func() {
	b, err := exec.Command(os.Args[0], "-helper", "shuffle").Output()
	if err == nil {
		err = json.NewDecoder(bytes.NewReader(b)).Decode(&otherProcess)
	}
	if err != nil {
		// Judged when the cases use it.
		otherProcess = nil
	}
	return func() {}
}

func runC23(c *Case) {
	r := c.R
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 9, minRows: 0, maxRows: pick(r, []int{8, 40, 78}), depth: 1, keys: true, shape: true, smallValues: chance(r, 4)}
	large(c, &o, 1997)
	m := genTable(r, o)
	if m.colIndex("rowId_") < 0 && chance(r, 2) {
		m.Cols = append(m.Cols, MCol{"rowId_", "int"})
		for i := range m.Rows {
			m.Rows[i] = append(m.Rows[i], i)
		}
	}
	t := buildSame(c, m)
	c.Logf("table %v", m)
	expect := func(what string) {
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("%s: expected vs found: %s", what, d)
		}
	}
	var hist []string
	for n := 2 + r.IntN(6); n > 0; n-- {
		perm := r.Perm(len(m.Cols))
		names := make([]string, len(perm))
		for i, p := range perm {
			names[i] = m.Cols[p].Name
		}
		before := m.clone()
		what := ""
		switch r.IntN(9) {
		case 0:
			what = fmt.Sprintf("ReorderCols(%q)", names)
			if err := withOwn(t.ReorderCols, names); err != nil {
				c.Failf("%s: %v", what, err)
			}
			m.reorder(perm)
			c.Ev("reordered", 1)
		case 1:
			what = fmt.Sprintf("ReorderColsByColIndex(%v)", perm)
			if err := t.ReorderColsByColIndex(perm...); err != nil {
				c.Failf("%s: %v", what, err)
			}
			m.reorder(perm)
			c.Ev("reordered", 1)
		case 2:
			what = fmt.Sprintf("NewTableReorderCols(%q)", names)
			var x *g.Table
			var err error
			if chance(r, 2) {
				x, err = t.NewTableReorderCols(names...)
			} else {
				x, err = t.NewTableReorderColsByColIndex(perm...)
			}
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			w := m.clone()
			w.reorder(perm)
			if d := diffTables(w, snapshot(x), cmpOpts{noKeys: true, noShape: true}); d != "" {
				c.Failf("%s: %s", what, d)
			}
			if ok, err := x.IsValidTable(); !ok {
				c.Failf("%s gives an invalid table: %v", what, err)
			}
			c.Ev("reordered_copies", 1)
		case 3:
			if len(perm) < 2 {
				continue
			}
			i, j := perm[0], perm[1]
			var err error
			if chance(r, 2) {
				what = fmt.Sprintf("SwapCols(%q, %q)", m.Cols[i].Name, m.Cols[j].Name)
				err = t.SwapCols(m.Cols[i].Name, m.Cols[j].Name)
			} else {
				what = fmt.Sprintf("SwapColsByColIndex(%d, %d)", i, j)
				err = t.SwapColsByColIndex(i, j)
			}
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			swapPerm(m, i, j)
			c.Ev("swapped", 1)
		case 4, 5:
			what = "Reverse()"
			if err := t.Reverse(); err != nil {
				c.Failf("Reverse: %v", err)
			}
			for i, j := 0, len(m.Rows)-1; i < j; i, j = i+1, j-1 {
				m.Rows[i], m.Rows[j] = m.Rows[j], m.Rows[i]
			}
			expect(what)
			if chance(r, 2) {
				if err := t.Reverse(); err != nil {
					c.Failf("Reverse: %v", err)
				}
				m = before
				what = "Reverse() twice"
			}
			c.Ev("reversed", 1)
		case 6:
			what = "ShuffleRandom()"
			if err := t.ShuffleRandom(); err != nil {
				c.Failf("ShuffleRandom: %v", err)
			}
			s := snapshot(t)
			if p := judgePermuted(m, s); p != "" {
				c.Failf("ShuffleRandom: %s", p)
			}
			m = s
			c.Ev("shuffled", 1)
		case 7:
			what = "ShufflePseudorandom()"
			rand.Seed(int64(r.IntN(5))) // Other users of the shared generator must not matter.
			rand.Int()
			if err := t.ShufflePseudorandom(); err != nil {
				c.Failf("ShufflePseudorandom: %v", err)
			}
			order := shuffleOrder(len(m.Rows))
			rows := make([][]any, len(m.Rows))
			if !sort.IntsAreSorted(sortedCopy(order)) || len(order) != len(rows) {
				c.Failf("ShufflePseudorandom gives no permutation: %v", order)
			}
			seen := map[int]bool{}
			for i, p := range order {
				if p < 0 || p >= len(rows) || seen[p] {
					c.Failf("ShufflePseudorandom gives no permutation: %v", order)
				}
				seen[p] = true
				rows[i] = m.Rows[p]
			}
			m.Rows = rows
			if otherProcess == nil {
				c.Failf("another process could not shuffle a table")
			}
			if len(rows) <= maxShuffle && fmt.Sprint(otherProcess[len(rows)]) != fmt.Sprint(order) {
				c.Failf("ShufflePseudorandom of %d rows gives %v here and %v in another process", len(rows), order, otherProcess[len(rows)])
			}
			c.Ev("pseudoshuffled", 1)
		case 8:
			bad, ok := spoilPerm(r, perm, len(m.Cols))
			if ok {
				continue
			}
			what = fmt.Sprintf("bad order %v", bad)
			var err error
			inRange := true
			bn := []string{}
			for _, i := range bad {
				inRange = inRange && i >= 0 && i < len(m.Cols)
				if i >= 0 && i < len(m.Cols) {
					bn = append(bn, m.Cols[i].Name)
				} else {
					bn = append(bn, "noSuchCol")
				}
			}
			switch r.IntN(4) {
			case 0:
				err = t.ReorderColsByColIndex(bad...)
			case 1:
				err = withOwn(t.ReorderCols, bn)
			case 2:
				_, err = t.NewTableReorderColsByColIndex(bad...)
			case 3:
				_, err = t.NewTableReorderCols(bn...)
			}
			if err == nil {
				c.Failf("%s (%q) is accepted for %d columns", what, bn, len(m.Cols))
			}
			c.Ev("refused", 1)
		}
		hist = append(hist, what)
		expect(what)
		c.Distinct(before.fullKey(), what)
	}
	checkInvariants(c, t, m)
	c.Sample(strings.Join(hist, "; "))
}

func sortedCopy(s []int) []int {
	x := append([]int{}, s...)
	sort.Ints(x)
	return x
}

// ---------------------------------------------------------------- C27

func runC27(c *Case) {
	r := c.R
	var types []string
	for _, x := range allTypes {
		if x != "*Table" {
			types = append(types, x)
		}
	}
	small := !chance(r, 4)
	o := genOpts{emptyRows: true, types: sortableTypes, minCols: 1, maxCols: 3, minRows: 0, maxRows: 12, smallValues: small}
	if chance(r, 6) {
		o.maxCols = 10
	}
	big := large(c, &o, 499)
	if big {
		o.maxRows = min(o.maxRows, 3000)
		o.minRows = min(o.minRows, o.maxRows)
	}
	m1 := genTable(r, o)
	m2 := &MTable{Name: genName(r)}
	keys := genKeys(r, m1, 1+r.IntN(3))
	for _, k := range keys {
		m2.Cols = append(m2.Cols, MCol{k.Col, k.Type})
	}
	for n := r.IntN(4); n > 0; n-- {
		name := genName(r)
		if m2.colIndex(name) < 0 {
			at := r.IntN(len(m2.Cols) + 1)
			m2.Cols = append(m2.Cols[:at:at], append([]MCol{{name, pick(r, types)}}, m2.Cols[at:]...)...)
		}
	}
	for n := r.IntN(3); n > 0; n-- {
		name := genName(r)
		if m1.colIndex(name) < 0 {
			typ := pick(r, allTypes)
			m1.Cols = append(m1.Cols, MCol{name, typ})
			for i := range m1.Rows {
				m1.Rows[i] = append(m1.Rows[i], genVal(r, typ, genOpts{emptyRows: true, maxCols: 2, maxRows: 2, depth: 1}))
			}
		}
	}
	for n := logSize(r, 0, max(20, 2*len(m1.Rows))); n > 0; n-- {
		row := make([]any, len(m2.Cols))
		for i, col := range m2.Cols {
			row[i] = genVal(r, col.Type, genOpts{emptyRows: true, smallValues: small})
		}
		if len(m1.Rows) > 0 && !chance(r, 3) {
			src := m1.Rows[r.IntN(len(m1.Rows))]
			for _, k := range keys {
				row[m2.colIndex(k.Col)] = src[m1.colIndex(k.Col)]
			}
			if chance(r, 4) {
				k := pick(r, keys)
				row[m2.colIndex(k.Col)] = neighbour(c, row[m2.colIndex(k.Col)])
			}
		}
		m2.Rows = append(m2.Rows, row)
	}
	t1, t2 := build(c, m1), build(c, m2)
	switch r.IntN(3) {
	case 0:
		setKeys(c, t1, keys)
	case 1:
		setKeys(c, t2, keys)
	case 2:
		setKeys(c, t1, keys)
		setKeys(c, t2, genKeys(r, m2, 2))
	}
	nestCol := genName(r)
	for m1.colIndex(nestCol) >= 0 {
		nestCol += "_"
	}
	b1, b2 := snapshot(t1), snapshot(t2)
	c.Logf("nest %v in %v as %q", b2, b1, nestCol)
	if chance(r, 5) {
		// Inputs to refuse.
		why := ""
		switch r.IntN(5) {
		case 0:
			why = "no keys"
			t1.SetSortKeys()
			t2.SetSortKeys()
		case 1:
			why = "column name taken"
			nestCol = pick(r, m1.Cols).Name
		case 2:
			why = "bad column name"
			nestCol = pick(r, badNames)
		case 3:
			why = "key column missing"
			k := pick(r, keys).Col
			if len(b1.Keys) > 0 {
				t2.DeleteCol(k)
			} else {
				t1.DeleteCol(k)
			}
		case 4:
			why = "key column of another type"
			k := pick(r, keys)
			x := t2
			if len(b1.Keys) == 0 {
				x = t1
			}
			typ := pick(r, allTypes)
			if typ == k.Type {
				return
			}
			x.DeleteCol(k.Col)
			x.AppendCol(k.Col, typ)
		}
		b1, b2 := snapshot(t1), snapshot(t2)
		err := t1.Nest(t2, nestCol)
		if err == nil {
			c.Failf("Nest (%s, %q) gives no error\n%v\n%v", why, nestCol, b1, b2)
		}
		if d := diffTables(b1, snapshot(t1), cmpOpts{}); d != "" {
			c.Failf("failed Nest (%s) changed the table: %s", why, d)
		}
		if d := diffTables(b2, snapshot(t2), cmpOpts{}); d != "" {
			c.Failf("failed Nest (%s) changed the nestable table: %s", why, d)
		}
		c.Ev("refused", 1)
		return
	}
	if err := t1.Nest(t2, nestCol); err != nil {
		c.Failf("Nest: %v\n%v\n%v", err, b1, b2)
	}
	a1, a2 := snapshot(t1), snapshot(t2)
	keys = a1.Keys
	if len(b1.Keys) > 0 {
		if fmt.Sprint(keys) != fmt.Sprint(b1.Keys) {
			c.Failf("Nest changed the sort keys from %v to %v", b1.Keys, keys)
		}
	} else if fmt.Sprint(keys) != fmt.Sprint(b2.Keys) {
		c.Failf("Nest gave the sort keys %v, not %v", keys, b2.Keys)
	}
	// The table, without its new column, and the nestable are what they were, sorted.
	n := len(a1.Cols) - 1
	if n != len(b1.Cols) || a1.Cols[n] != (MCol{nestCol, "string"}) {
		c.Failf("Nest: columns %v became %v", b1.Cols, a1.Cols)
	}
	w := a1.clone()
	w.Cols = w.Cols[:n]
	for i := range w.Rows {
		w.Rows[i] = w.Rows[i][:n]
	}
	if p := judgeSorted(keys)(b1, w); p != "" {
		c.Failf("Nest, the table: %s", p)
	}
	if p := judgeSorted(keys)(b2, a2); p != "" {
		c.Failf("Nest, the nestable: %s", p)
	}
	total := 0
	for i, row := range a1.Rows {
		text := row[n].(string)
		x, err := g.NewTableFromString(text)
		if err != nil {
			c.Failf("the nested table of row %d does not parse: %v\n%q", i, err, text)
		}
		got := snapshot(x)
		want := &MTable{Name: nestCol, Cols: b2.Cols}
		for _, nr := range b2.Rows {
			same := true
			for _, k := range keys {
				if compareVal(k.Type, nr[b2.colIndex(k.Col)], row[a1.colIndex(k.Col)]) != 0 {
					same = false
				}
			}
			if same {
				want.Rows = append(want.Rows, nr)
			}
		}
		wr, gr := want.Rows, got.Rows
		want.Rows, got.Rows = nil, nil
		if d := diffTables(want, got, cmpOpts{noKeys: true, noShape: true}); d != "" {
			c.Failf("row %d nests another table: %s\n%s", i, d, text)
		}
		if !sameMultiset(wr, gr) {
			want.Rows = wr
			c.Failf("row %d by %v nests %q: the matching rows are %v", i, keys, text, want)
		}
		total += len(gr)
		c.Ev("nested_cells", 1)
		if len(gr) == 0 {
			c.Ev("nested_empty", 1)
		}
		c.Distinct(nestCol, rowKey(row), fmt.Sprint(keys))
	}
	c.Ev("nested_rows", total)
	c.Sample(a1.String())
}

func init() {
	register(&Prop{ID: "C13", Quick: 180000, Thorough: 2000000, Run: runC13,
		Rule: "a case sorts a generated table (1-6 columns, 0-400 rows, mostly few distinct values; ties, NaN, infinities, adjacent floats, strings differing in case) by 1-4 keys set in one of six ways with up to 3 column edits between setting keys and sorting; judged: permutation, order of every adjacent pair by an independent comparison, CompareRows, refused sorts; distinct is counted over the content of tables with 2 rows or more",
		Need: []string{"sorted", "compared", "refused", "edits_between"}})
	register(&Prop{ID: "C14", Quick: 180000, Thorough: 2000000, Run: runC14,
		Rule: "a case searches one sorted table for 12 tuples of values (present, next to present ones, random) with every search method, and compares with a linear scan; ill-fitting search values are tried too; distinct is counted over (table, values)",
		Need: []string{"found", "absent", "refused"}})
	register(&Prop{ID: "C15", Quick: 180000, Thorough: 2000000, Run: runC15,
		Rule: "a case merges two tables that share key columns, or de-duplicates one, with rows sharing keys within and across tables, and judges every cell of the result against the group of source rows; incompatible inputs are tried too; distinct is counted over the inputs",
		Need: []string{"merged", "uniqued", "cells_judged", "refused"}})
	register(&Prop{ID: "C23", Quick: 180000, Thorough: 2000000, Run: runC23, Setup: setupC23,
		Rule: "a case applies 2-7 reorderings, swaps, reversals and shuffles to one table, each compared with the same change made to plain lists (the random shuffle with a permutation); the pseudorandom order is compared with that found by another process; distinct is counted over (table, operation)",
		Need: []string{"reordered", "reordered_copies", "swapped", "reversed", "shuffled", "pseudoshuffled", "refused"}})
	register(&Prop{ID: "C27", Quick: 160000, Thorough: 1500000, Run: runC27,
		Rule: "a case nests one table in another by 1-3 shared keys; the table parsed back from each nested cell is compared with the rows a scan selects; the rest of both tables with their state before, sorted; distinct is counted over (row, keys)",
		Need: []string{"nested_cells", "nested_empty", "nested_rows", "refused"}})
}
