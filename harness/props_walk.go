package main

import (
	"encoding/csv"
	"errors"
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C20

// visit is one callback of a walk: what it was given.
type visit struct {
	kind  byte // S, T, R or C
	set   *g.TableSet
	table *g.Table
	row   int
	col   int
	name  string
	typ   string
	flag  bool
}

func (v visit) String() string {
	switch v.kind {
	case 'S':
		return "set " + v.set.Name()
	case 'T':
		return fmt.Sprintf("table [%s] %p", v.table.Name(), v.table)
	case 'R':
		return fmt.Sprintf("row %d of [%s] %p", v.row, v.table.Name(), v.table)
	}
	return fmt.Sprintf("cell %q %s col %d row %d of [%s] %p nested %v", v.name, v.typ, v.col, v.row, v.table.Name(), v.table, v.flag)
}

// plannedVisits is what a walk should visit, found by going through the table by index.
func plannedVisits(c *Case, t *g.Table, nested bool, kinds string, out *[]visit) {
	has := func(k byte) bool { return strings.IndexByte(kinds, k) >= 0 }
	if has('T') {
		*out = append(*out, visit{kind: 'T', table: t})
	}
	for r := 0; r < t.RowCount(); r++ {
		if has('R') {
			*out = append(*out, visit{kind: 'R', table: t, row: r})
		}
		for i := 0; i < t.ColCount(); i++ {
			name, err := t.ColNameByColIndex(i)
			if err != nil {
				c.Failf("ColNameByColIndex(%d): %v", i, err)
			}
			typ, err := t.ColTypeByColIndex(i)
			if err != nil {
				c.Failf("ColTypeByColIndex(%d): %v", i, err)
			}
			if has('C') {
				*out = append(*out, visit{kind: 'C', table: t, row: r, col: i, name: name, typ: typ, flag: nested})
			}
			if nested && typ == "*Table" {
				n, err := t.GetTableByColIndex(i, r)
				if err != nil {
					c.Failf("GetTableByColIndex(%d, %d): %v", i, r, err)
				}
				plannedVisits(c, n, nested, kinds, out)
			}
		}
	}
}

// kindsOf says which callbacks are given, as letters.
func kindsOf(c *Case, all string) string {
	if chance(c.R, 3) {
		return all
	}
	out := ""
	for _, k := range all {
		if chance(c.R, 2) {
			out += string(k)
		}
	}
	return out
}

var errStop = errors.New("stopped by the visitor")

// recorder makes callbacks that record visits and fail at visit number stop.
type recorder struct {
	c    *Case
	got  []visit
	stop int
}

func (rec *recorder) add(v visit) error {
	rec.got = append(rec.got, v)
	if len(rec.got)-1 == rec.stop {
		return errStop
	}
	return nil
}

func (rec *recorder) callbacks(kinds string) (vs func(*g.TableSet) error, vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) {
	has := func(k byte) bool { return strings.IndexByte(kinds, k) >= 0 }
	if has('S') {
		vs = func(s *g.TableSet) error { return rec.add(visit{kind: 'S', set: s}) }
	}
	if has('T') {
		vt = func(t *g.Table) error { return rec.add(visit{kind: 'T', table: t}) }
	}
	if has('R') {
		vr = func(r g.Row) error { return rec.add(visit{kind: 'R', table: r.Table, row: r.RowIndex}) }
	}
	if has('C') {
		vc = func(nested bool, ci g.CellInfo) error {
			return rec.add(visit{kind: 'C', table: ci.Table, row: ci.RowIndex, col: ci.ColIndex, name: ci.ColName, typ: ci.ColType, flag: nested})
		}
	}
	return
}

// judgeVisits compares a walk with its plan.
func judgeVisits(c *Case, what string, plan []visit, rec *recorder, err error) {
	want := plan
	if rec.stop >= 0 && rec.stop < len(plan) {
		want = plan[:rec.stop+1]
		if err == nil || !errors.Is(err, errStop) && !strings.Contains(err.Error(), errStop.Error()) {
			c.Failf("%s: a callback's error is not returned: %v", what, err)
		}
		c.Ev("stopped", 1)
	} else {
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		c.Ev("completed", 1)
	}
	for i := 0; i < len(want) || i < len(rec.got); i++ {
		switch {
		case i >= len(want):
			c.Failf("%s: visit %d (%v) is one too many", what, i, rec.got[i])
		case i >= len(rec.got):
			c.Failf("%s: visit %d (%v) is missing, %d were made", what, i, want[i], len(rec.got))
		case want[i] != rec.got[i]:
			c.Failf("%s: visit %d is %v: expected %v", what, i, rec.got[i], want[i])
		}
	}
	c.Ev("visits", len(rec.got))
}

func runC20(c *Case) {
	r := c.R
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 5, maxRows: 5, depth: 3, keys: true, shape: true}
	if c.Idx%3 == 1 {
		o.minCols, o.minRows = 1, 1
	}
	if c.Idx%3 == 0 {
		o.minRows = r.IntN(2)
		o.types = []string{"*Table", "int", "*Table", "string"}
	}
	if c.Idx%101 == 0 {
		o.maxCols, o.maxRows, o.depth = 2, 2, 9
		o.types = []string{"*Table"}
	}
	isSet := chance(r, 2)
	var s *g.TableSet
	var ms []*MTable
	if isSet {
		o.maxCols, o.maxRows = 4, 3
		ms = genSet(r, manyTables(c, logSize(r, 0, 5), 1997), o)
	} else {
		large(c, &o, 1997)
		ms = []*MTable{genTable(r, o)}
		if ms[0].cellCount() > 5000 {
			return
		}
	}
	s = buildSet(c, "walked", ms)
	// Some cells are set again after building, one table holding the other at another place.
	for n := 1 + r.IntN(4); n > 0; n-- {
		nested := chance(r, 2)
		kinds := kindsOf(c, "STRC")
		stop := -1
		var plan []visit
		if isSet {
			if strings.Contains(kinds, "S") {
				plan = append(plan, visit{kind: 'S', set: s})
			}
			for i := range ms {
				t, _ := s.GetTableByTableIndex(i)
				plannedVisits(c, t, nested, kinds, &plan)
			}
		} else {
			t, _ := s.GetTableByTableIndex(0)
			plannedVisits(c, t, nested, kinds, &plan)
		}
		if len(plan) > 0 && chance(r, 3) {
			stop = r.IntN(len(plan))
		}
		rec := &recorder{c: c, stop: stop}
		vs, vt, vr, vc := rec.callbacks(kinds)
		var err error
		what := ""
		if isSet {
			what = fmt.Sprintf("TableSet.Walk(%v) with callbacks %s, stopping at %d", nested, kinds, stop)
			c.Logf("%s", what)
			err = s.Walk(nested, vs, vt, vr, vc)
			c.Ev("set_walks", 1)
		} else {
			t, _ := s.GetTableByTableIndex(0)
			what = fmt.Sprintf("Walk(%v) with callbacks %s, stopping at %d", nested, kinds, stop)
			c.Logf("%s", what)
			var safe g.WalkSafe
			if nested || chance(r, 2) {
				safe = g.WalkSafe{}
			}
			err = t.Walk(nested, safe, vt, vr, vc)
			c.Ev("table_walks", 1)
			if chance(r, 4) {
				if e := t.Walk(true, nil, nil, nil, nil); e == nil {
					c.Failf("Walk of nested tables without a WalkSafe gives no error")
				}
			}
		}
		judgeVisits(c, what, plan, rec, err)
		if nested {
			c.Ev("nested_walks", 1)
		}
		c.Distinct(nested, kinds, stop, setString(ms))
	}
	if d := diffSets(ms, snapSet(s), cmpOpts{}); d != "" {
		c.Failf("walking changed the tables: %s", d)
	}
	// The positions that walking reports are those of the accessors.
	if len(ms) > 0 {
		i := r.IntN(len(ms))
		t, _ := s.GetTableByTableIndex(i)
		m := ms[i]
		ri, ci := r.IntN(len(m.Rows)+2)-1, r.IntN(len(m.Cols)+2)-1
		okRow, okCol := ri >= 0 && ri < len(m.Rows), ci >= 0 && ci < len(m.Cols)
		row, err := t.RowByRowIndex(ri)
		if (err == nil) != okRow || okRow && (row.Table != t || row.RowIndex != ri) {
			c.Failf("RowByRowIndex(%d) of %d rows gives %v, %v", ri, len(m.Rows), row.RowIndex, err)
		}
		name := "noSuchCol_"
		if okCol {
			name = m.Cols[ci].Name
		}
		for k := 0; k < 2; k++ {
			var info g.CellInfo
			if k == 0 {
				info, err = t.GetCellInfoByColIndex(ci, ri)
			} else {
				info, err = t.GetCellInfo(name, ri)
			}
			if (err == nil) != (okRow && okCol) {
				c.Failf("GetCellInfo(%d %q, %d) of %dx%d gives error %v", ci, name, ri, len(m.Cols), len(m.Rows), err)
			}
			if err == nil && (info.Table != t || info.ColName != name || info.ColType != m.Cols[ci].Type || info.ColIndex != ci || info.RowIndex != ri) {
				c.Failf("GetCellInfo(%d %q, %d) gives %+v", ci, name, ri, info)
			}
		}
		c.Ev("positions", 1)
	}
	c.Sample(setString(ms))
}

// ---------------------------------------------------------------- C21

// readCSV reads RFC 4180 text strictly, keeping line breaks inside quoted fields as they are.
func readCSV(s string) (records [][]string, err error) {
	i := 0
	for i < len(s) {
		var rec []string
		for {
			var b strings.Builder
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, fmt.Errorf("quoted field without an end")
					}
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							b.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					b.WriteByte(s[i])
					i++
				}
				if i < len(s) && s[i] != ',' && s[i] != '\n' && s[i] != '\r' {
					return nil, fmt.Errorf("text after a quoted field at offset %d", i)
				}
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' && s[i] != '\r' {
					if s[i] == '"' {
						return nil, fmt.Errorf("quote inside a bare field at offset %d", i)
					}
					b.WriteByte(s[i])
					i++
				}
			}
			rec = append(rec, b.String())
			if i < len(s) && s[i] == ',' {
				i++
				continue
			}
			break
		}
		records = append(records, rec)
		if i < len(s) && s[i] == '\r' {
			i++
			if i >= len(s) || s[i] != '\n' {
				return nil, fmt.Errorf("bare carriage return at offset %d", i)
			}
		}
		if i < len(s) && s[i] == '\n' {
			i++
		}
	}
	return records, nil
}

func runC21(c *Case) {
	r := c.R
	o := genOpts{emptyRows: true, minCols: 1, maxCols: 7, maxRows: 9, depth: 1, keys: true, shape: true, bigStrings: true}
	switch c.Idx % 4 {
	case 1:
		o.types = []string{"string", "string", "float64", "float32", "int64"}
	case 2:
		o.maxCols = 1
	}
	if c.Idx%71 == 0 {
		o.maxRows = 400
	}
	large(c, &o, 1997)
	m := genTable(r, o)
	widen(c, m)
	awkward := []string{",", "\"", "\n", "\r\n", "\r", " ", "", "\"\"", "a,b", " lead", "trail ", "\t", `\.`, "a\"b", "\n\n", "x\ny", "'", ";", "NaN", "#", "\ufeff", "-", "=1"}
	for _, row := range m.Rows {
		for i, col := range m.Cols {
			if col.Type == "string" && chance(r, 2) {
				v := ""
				for n := 1 + r.IntN(3); n > 0; n-- {
					v += pick(r, awkward)
				}
				row[i] = v
			}
		}
	}
	t := build(c, m)
	var subst []string
	heads := make([]string, len(m.Cols))
	for i, col := range m.Cols {
		heads[i] = col.Name
	}
	if chance(r, 2) {
		n := len(m.Cols)
		if chance(r, 4) {
			n = 1 + r.IntN(n+3)
		}
		for i := 0; i < n; i++ {
			h := pick(r, append([]string{genName(r)}, awkward...))
			switch {
			case len(m.Cols) > 0 && chance(r, 5):
				h = pick(r, m.Cols).Name // Of this or another column.
			case chance(r, 5):
				h = ""
			case i > 0 && chance(r, 8):
				h = subst[r.IntN(i)]
			}
			subst = append(subst, h)
			if i < len(heads) && h != "" {
				heads[i] = h
			}
		}
	}
	text, err := t.GetTableAsCSV(subst...)
	c.Logf("GetTableAsCSV(%q) of %v: %v\n%s", subst, m, err, text)
	if len(subst) > 0 && len(subst) != len(m.Cols) {
		if err == nil {
			c.Failf("GetTableAsCSV with %d headings for %d columns gives no error", len(subst), len(m.Cols))
		}
		c.Ev("refused", 1)
		return
	}
	if err != nil {
		c.Failf("GetTableAsCSV: %v", err)
	}
	recs, err := readCSV(text)
	if err != nil {
		c.Failf("CSV text does not read back: %v\n%q", err, text)
	}
	// The reader of the Go library: it makes \r\n in a field \n, and passes over empty lines.
	lib := csv.NewReader(strings.NewReader(text))
	lib.FieldsPerRecord = len(m.Cols)
	libRecs, err := lib.ReadAll()
	if err != nil {
		c.Failf("encoding/csv does not read the CSV text: %v\n%q", err, text)
	}
	if len(recs) != 1+len(m.Rows) || len(libRecs) != 1+len(m.Rows) {
		c.Failf("CSV text of %d rows has %d records (encoding/csv: %d)\n%q", len(m.Rows), len(recs), len(libRecs), text)
	}
	for k, rec := range recs {
		if len(rec) != len(m.Cols) {
			c.Failf("CSV record %d has %d fields for %d columns: %q", k, len(rec), len(m.Cols), rec)
		}
		for i, f := range rec {
			if got := libRecs[k][i]; got != strings.ReplaceAll(f, "\r\n", "\n") {
				c.Failf("CSV record %d field %d is %q, encoding/csv reads %q", k, i, f, got)
			}
			if k == 0 {
				if f != heads[i] {
					c.Failf("CSV heading %d is %q: expected %q", i, f, heads[i])
				}
				continue
			}
			col, v := m.Cols[i], m.Rows[k-1][i]
			if isNaN(v) {
				if f != "" {
					c.Failf("CSV field of a not-a-number is %q", f)
				}
				c.Ev("nan", 1)
				continue
			}
			if n, isT := v.(*MTable); isT {
				if f != "["+n.Name+"]" {
					c.Failf("CSV field of table [%s] is %q", n.Name, f)
				}
				continue
			}
			if why := textMeans(c, col.Type, f, v); why != "" {
				c.Failf("CSV field of a %s cell holding %s is %q, which %s", col.Type, showVal(v), f, why)
			}
			c.Ev("fields", 1)
		}
	}
	c.Ev("tables", 1)
	c.Distinct(m.fullKey(), subst)
	c.Sample(text)
}

// ---------------------------------------------------------------- C26

// saysCircular tells whether an error reports a circular reference.
func saysCircular(err error) bool {
	return err != nil && (g.HasCircRefError(err) || strings.Contains(strings.ToLower(err.Error()), "circular"))
}

// revisited tells whether some table is reached more than once from root.
func revisited(root *g.Table) bool {
	seen := map[*g.Table]bool{root: true}
	var down func(t *g.Table) bool
	down = func(t *g.Table) bool {
		for ci := 0; ci < t.ColCount(); ci++ {
			if typ, _ := t.ColTypeByColIndex(ci); typ != "*Table" {
				continue
			}
			for ri := 0; ri < t.RowCount(); ri++ {
				n, err := t.GetTableByColIndex(ci, ri)
				if err != nil || n == nil {
					continue
				}
				if seen[n] {
					return true
				}
				seen[n] = true
				if down(n) {
					return true
				}
			}
		}
		return false
	}
	return down(root)
}

func runC26(c *Case) {
	r := c.R
	must := func(err error) {
		if err != nil {
			c.Failf("arranging tables: %v", err)
		}
	}
	var tables []*g.Table
	var shape strings.Builder
	chain := 0
	if c.Idx%150 == 0 {
		chain = logSize(r, 10, 800)
	}
	n := 1 + r.IntN(7)
	if chain > 0 {
		n = chain
	}
	for i := 0; i < n; i++ {
		t, err := g.NewTable(fmt.Sprintf("t%d", i))
		must(err)
		for k := r.IntN(3); k > 0; k-- {
			must(t.AppendCol(fmt.Sprintf("c%d", k), pick(r, []string{"int", "string", "bool"})))
		}
		k := r.IntN(3)
		if chain > 0 {
			k = 1
		}
		for ; k > 0; k-- {
			must(t.AppendCol(fmt.Sprintf("nest%d", k), "*Table"))
		}
		if chain > 0 || !chance(r, 5) {
			must(t.AppendRows(1 + r.IntN(2)))
		}
		tables = append(tables, t)
	}
	set := func(t *g.Table, ci, ri int, to *g.Table) {
		name, _ := t.ColNameByColIndex(ci)
		how := r.IntN(4)
		switch how {
		case 0:
			must(t.SetTable(name, ri, to))
		case 1:
			must(t.SetTableByColIndex(ci, ri, to))
		case 2:
			must(t.SetVal(name, ri, to))
		case 3:
			must(t.SetValByColIndex(ci, ri, to))
		}
	}
	if chain > 0 {
		for i := 0; i+1 < n; i++ {
			ci, _ := tables[i].ColIndex("nest1")
			set(tables[i], ci, r.IntN(tables[i].RowCount()), tables[i+1])
		}
		if chance(r, 2) {
			last := tables[n-1]
			ci, _ := last.ColIndex("nest1")
			set(last, ci, 0, tables[r.IntN(n)])
		}
		fmt.Fprintf(&shape, "chain of %d", n)
	} else {
		// A forest first (every table stored once at most), then perhaps one to three references more.
		free := r.Perm(n)
		for i, t := range tables {
			for ci := 0; ci < t.ColCount(); ci++ {
				if typ, _ := t.ColTypeByColIndex(ci); typ != "*Table" {
					continue
				}
				for ri := 0; ri < t.RowCount(); ri++ {
					if chance(r, 3) {
						continue
					}
					for k, j := range free {
						if j > i { // Below only: no circle.
							set(t, ci, ri, tables[j])
							fmt.Fprintf(&shape, "%d-%d.%d>%d ", i, ci, ri, j)
							free = append(free[:k:k], free[k+1:]...)
							break
						}
					}
				}
			}
		}
		if !chance(r, 4) {
			for extra, tries := 1+r.IntN(3), 0; extra > 0 && tries < 20; tries++ {
				i, j := r.IntN(n), r.IntN(n)
				if chance(r, 2) {
					j = r.IntN(i + 1) // Back to itself or to one that may be above.
				}
				t := tables[i]
				var spots [][2]int
				for ci := 0; ci < t.ColCount(); ci++ {
					if typ, _ := t.ColTypeByColIndex(ci); typ == "*Table" {
						for ri := 0; ri < t.RowCount(); ri++ {
							spots = append(spots, [2]int{ci, ri})
						}
					}
				}
				if len(spots) == 0 {
					continue
				}
				extra--
				sp := pick(r, spots)
				set(t, sp[0], sp[1], tables[j])
				fmt.Fprintf(&shape, "+%d-%d.%d>%d ", i, sp[0], sp[1], j)
			}
		}
	}
	if chance(r, 4) && chain == 0 {
		// A reference taken away again.
		t := pick(r, tables)
		if t.RowCount() > 0 {
			must(t.DeleteRow(r.IntN(t.RowCount())))
			shape.WriteString("-row ")
		}
	}
	rounds := 1
	if chain == 0 && chance(r, 2) {
		rounds += r.IntN(3)
	}
	for round := 0; round < rounds; round++ {
		if round > 0 {
			// Changed since they were looked at: a reference put in, taken out or replaced.
			for k := 1 + r.IntN(2); k > 0; k-- {
				i := r.IntN(n)
				t := tables[i]
				var spots [][2]int
				for ci := 0; ci < t.ColCount(); ci++ {
					if typ, _ := t.ColTypeByColIndex(ci); typ == "*Table" {
						for ri := 0; ri < t.RowCount(); ri++ {
							spots = append(spots, [2]int{ci, ri})
						}
					}
				}
				if len(spots) == 0 {
					continue
				}
				sp := pick(r, spots)
				if chance(r, 3) {
					set(t, sp[0], sp[1], g.NewNilTable())
					fmt.Fprintf(&shape, "-%d-%d.%d ", i, sp[0], sp[1])
					continue
				}
				j := r.IntN(n)
				set(t, sp[0], sp[1], tables[j])
				fmt.Fprintf(&shape, "!%d-%d.%d>%d ", i, sp[0], sp[1], j)
			}
			c.Ev("rearranged", 1)
		}
		judgeArrangement(c, tables, chain, &shape)
	}
	c.Distinct(shape.String())
	c.Sample(shape.String())
}

// judgeArrangement takes each table as root.
func judgeArrangement(c *Case, tables []*g.Table, chain int, shape *strings.Builder) {
	r := c.R
	n := len(tables)
	must := func(err error) {
		if err != nil {
			c.Failf("arranging tables: %v", err)
		}
	}
	// Each table is a root once.
	roots := tables
	if chain > 0 {
		roots = []*g.Table{tables[0], tables[n-1]}
	}
	for ri, root := range roots {
		want := revisited(root)
		c.Logf("root %d of %s: revisited %v", ri, shape.String(), want)
		judge := func(what string, err error) {
			if want {
				if err == nil {
					c.Failf("%s of root %d gives no error although a table is reached twice: %s", what, ri, shape.String())
				}
				if !saysCircular(err) {
					c.Failf("%s of root %d: the error does not say that the reference is circular: %v", what, ri, err)
				}
			} else if err != nil {
				c.Failf("%s of root %d, where no table is reached twice: %v\n%s", what, ri, err, shape.String())
			}
		}
		has, err := root.HasCircularReference()
		if has != want {
			c.Failf("HasCircularReference of root %d = %v, %v: expected %v: %s", ri, has, err, want, shape.String())
		}
		judge("HasCircularReference", err)
		valid, err := root.IsValidTableNesting()
		if valid == want {
			c.Failf("IsValidTableNesting of root %d = %v, %v: %s", ri, valid, err, shape.String())
		}
		judge("IsValidTableNesting", err)
		if want {
			if ce := g.GetCircRefError(err); ce == nil || ce.CircTable() == nil || ce.RootTable() == nil {
				c.Failf("GetCircRefError of the error of IsValidTableNesting gives %v: %v", ce, err)
			}
		} else if g.HasCircRefError(err) || g.GetCircRefError(err) != nil {
			c.Failf("HasCircRefError of %v", err)
		}
		visits := 0
		err = root.Walk(true, g.WalkSafe{}, nil, nil, func(bool, g.CellInfo) error { visits++; return nil })
		judge("Walk", err)
		c.Ev("visits", visits)
		ok, err := root.IsValidTable()
		if ok == want {
			c.Failf("IsValidTable of root %d = %v: %s", ri, ok, shape.String())
		}
		judge("IsValidTable", err)
		_, err = root.GetTableAsJSON()
		judge("GetTableAsJSON", err)
		_, err = root.GetTableAsJSONIndent()
		judge("GetTableAsJSONIndent", err)
		s, err := g.NewTableSet("set")
		must(err)
		if chance(r, 2) {
			first, _ := g.NewTable("first")
			must(s.AppendTable(first))
		}
		must(s.AppendTable(root))
		_, err = s.GetTableSetAsJSON()
		judge("GetTableSetAsJSON", err)
		_, err = s.GetTableSetAsJSONIndent()
		judge("GetTableSetAsJSONIndent", err)
		_, err = s.GetTableSetAsYAML()
		judge("GetTableSetAsYAML", err)
		_, err = s.GetTableSetAsMap()
		judge("GetTableSetAsMap", err)
		_, err = s.IsValidTableSet()
		judge("IsValidTableSet", err)
		err = s.Walk(true, nil, nil, nil, nil)
		judge("TableSet.Walk", err)
		if err := root.Walk(false, nil, nil, nil, nil); err != nil {
			c.Failf("Walk not descending: %v", err)
		}
		d, err := root.CopyDeep()
		judge("CopyDeep", err)
		if err == nil && chain == 0 {
			if again, err := d.HasCircularReference(); again || err != nil {
				c.Failf("CopyDeep of root %d gives a circular reference: %v", ri, err)
			}
		}
		if want {
			c.Ev("circular", 1)
		} else {
			c.Ev("not_circular", 1)
		}
		// Everything else ends, one way or the other.
		if chain <= 60 {
			m := stripCycles(snapshot(root))
			all := readings(c, r, m)
			for k := 0; k < 8; k++ {
				op := pick(r, all)
				c.Logf("%s", op.name)
				op.call(root)
				c.Ev("other_operations", 1)
			}
			if want && chance(r, 2) {
				other := tables[r.IntN(n)]
				c.Logf("Equals of another root")
				root.Equals(other)
				root.SetStructShape(false)
				root.AppendRow()
				root.Reverse()
				root.DeleteRow(0)
				c.Ev("other_operations", 5)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C20", Quick: 200000, Thorough: 4000000, Run: runC20,
		Rule: "a case walks one table or set (nesting up to 9 deep) 1-4 times, descending or not, with all or some callbacks, some failing at a chosen visit, and compares the visits made (by identity and position) with those found by index; distinct is counted over (walk, content)",
		Need: []string{"stopped", "completed", "set_walks", "table_walks", "nested_walks", "visits", "positions"}})
	register(&Prop{ID: "C21", Quick: 300000, Thorough: 4000000, Run: runC21,
		Rule: "a case writes one table (all types, strings rich in commas, quotes and line breaks) as CSV with or without substitute headings and reads it with a strict RFC 4180 reader and with encoding/csv, judging every field; distinct is counted over (content, headings)",
		Need: []string{"fields", "nan", "tables", "refused"}})
	register(&Prop{ID: "C26", Quick: 60000, Thorough: 2000000, Run: runC26,
		Rule: "a case arranges 1-7 tables (or a chain of up to 800) in one another, as a forest with 0-3 references added, takes each as root, and compares the circular-reference check and the walking, validating, encoding and copying operations with a search of the arrangement; further operations must end; distinct is counted over arrangements",
		Need: []string{"circular", "not_circular", "other_operations", "visits"}})
}
