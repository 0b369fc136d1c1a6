package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C12: cell access

// accessors maps the T of Get<T>() and Set<T>() to its column type.
var accessors = []struct{ T, typ string }{
	{"ByteSlice", "[]byte"}, {"Uint8Slice", "[]uint8"}, {"Bool", "bool"}, {"Byte", "byte"},
	{"Float32", "float32"}, {"Float64", "float64"}, {"Int", "int"}, {"Int16", "int16"}, {"Int32", "int32"},
	{"Int64", "int64"}, {"Int8", "int8"}, {"Rune", "rune"}, {"String", "string"}, {"Table", "*Table"},
	{"Time", "time.Time"}, {"Uint", "uint"}, {"Uint16", "uint16"}, {"Uint32", "uint32"}, {"Uint64", "uint64"}, {"Uint8", "uint8"},
}

func accessorOf(typ string) string {
	for _, a := range accessors {
		if a.typ == typ {
			return a.T
		}
	}
	panic("accessorOf " + typ)
}

// callMethod calls a method by name. Its last result may be an error; a must-form may panic.
func callMethod(t *g.Table, name string, args ...any) (vals []any, err error, panicked any) {
	m := reflect.ValueOf(t).MethodByName(name)
	if !m.IsValid() {
		panic("no method " + name)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(m.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	for _, o := range m.Call(in) {
		if o.Type().String() == "error" {
			if !o.IsNil() {
				err = o.Interface().(error)
			}
			continue
		}
		vals = append(vals, o.Interface())
	}
	return
}

// plain copies a value without following nested tables.
func sameCell(a, b any) bool {
	if x, ok := a.(*g.Table); ok {
		y, ok := b.(*g.Table)
		return ok && x == y
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return eqVal(a, b, cmpOpts{})
}

// readAll reads one cell in every way there is.
func readAll(c *Case, t *g.Table, col MCol, ci, r int, want any) {
	check := func(how string, vals []any, err error, panicked any) {
		c.Ev("reads", 1)
		if panicked != nil {
			c.Failf("%s(col %v, row %d) panicked: %v", how, col, r, panicked)
		}
		if err != nil {
			c.Failf("%s(col %v, row %d): %v", how, col, r, err)
		}
		if len(vals) != 1 || !sameCell(vals[0], want) {
			c.Failf("%s(col %v, row %d) = %s: stored %s", how, col, r, showVals(vals), showVal(want))
		}
	}
	for _, how := range []string{"GetVal", "GetValMustGet"} {
		v, e, p := callMethod(t, how, col.Name, r)
		check(how, v, e, p)
	}
	for _, how := range []string{"GetValByColIndex", "GetValByColIndexMustGet"} {
		v, e, p := callMethod(t, how, ci, r)
		check(how, v, e, p)
	}
	for _, a := range accessors {
		if !sameKind(a.typ, col.Type) {
			continue
		}
		for _, how := range []string{"Get" + a.T, "Get" + a.T + "MustGet"} {
			v, e, p := callMethod(t, how, col.Name, r)
			check(how, v, e, p)
		}
		for _, how := range []string{"Get" + a.T + "ByColIndex", "Get" + a.T + "ByColIndexMustGet"} {
			v, e, p := callMethod(t, how, ci, r)
			check(how, v, e, p)
		}
	}
}

func showVals(vs []any) string {
	var b []string
	for _, v := range vs {
		if t, ok := v.(*g.Table); ok {
			b = append(b, fmt.Sprintf("table %p", t))
			continue
		}
		b = append(b, showVal(v))
	}
	return strings.Join(b, ", ")
}

// textMeans tells what is wrong with the text of a cell, reading it back independently of gotables.
func textMeans(c *Case, typ string, s string, want any) string {
	var got any
	var err error
	parseI := func(bits int) int64 { var n int64; n, err = strconv.ParseInt(s, 10, bits); return n }
	parseU := func(bits int) uint64 { var n uint64; n, err = strconv.ParseUint(s, 10, bits); return n }
	switch typ {
	case "string":
		got = s
	case "bool":
		switch s {
		case "true":
			got = true
		case "false":
			got = false
		}
	case "byte", "uint8":
		got = uint8(parseU(8))
	case "uint16":
		got = uint16(parseU(16))
	case "uint32":
		got = uint32(parseU(32))
	case "uint64":
		got = parseU(64)
	case "uint":
		got = uint(parseU(64))
	case "int8":
		got = int8(parseI(8))
	case "int16":
		got = int16(parseI(16))
	case "int32":
		got = int32(parseI(32))
	case "int64":
		got = parseI(64)
	case "int":
		got = int(parseI(64))
	case "float32":
		var f float64
		f, err = strconv.ParseFloat(s, 32)
		got = float32(f)
	case "float64":
		got, err = strconv.ParseFloat(s, 64)
	case "rune":
		x, n := utf8.DecodeRuneInString(s)
		if n != len(s) {
			return "is not one rune"
		}
		got = x
	case "[]byte", "[]uint8":
		if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
			return "is not bracketed"
		}
		b := []byte{}
		for _, f := range strings.Fields(s[1 : len(s)-1]) {
			n, e := strconv.ParseUint(f, 10, 8)
			if e != nil {
				return e.Error()
			}
			b = append(b, byte(n))
		}
		got = b
	case "time.Time":
		got = readRFC3339(c, s)
	case "*Table":
		if s != "["+want.(*g.Table).Name()+"]" {
			return "is not the bracketed name"
		}
		return ""
	}
	if err != nil {
		return err.Error()
	}
	if !sameCell(got, want) {
		return "means " + showVal(got)
	}
	return ""
}

func textForms(c *Case, t *g.Table, col MCol, ci, r int, want any) {
	if x, isR := want.(rune); isR && col.Type == "rune" && !utf8.ValidRune(x) {
		return // Not a character: it has no text.
	}
	s1, e1 := t.GetValAsString(col.Name, r)
	s2, e2 := t.GetValAsStringByColIndex(ci, r)
	if e1 != nil || e2 != nil || s1 != s2 {
		c.Failf("GetValAsString(%v, %d) = %q, %v, by index %q, %v", col, r, s1, e1, s2, e2)
	}
	if why := textMeans(c, col.Type, s1, want); why != "" {
		c.Failf("GetValAsString of a %s cell holding %s gives %q, which %s", col.Type, showCell(want), s1, why)
	}
	all, err := t.GetColValsAsStrings(col.Name)
	if err != nil || len(all) != t.RowCount() || all[r] != s1 {
		c.Failf("GetColValsAsStrings(%q) = %q, %v: expected %q in row %d of %d", col.Name, all, err, s1, r, t.RowCount())
	}
	sep := pick(c.R, []string{"", ",", ", ", "\n", "--"})
	j1, e1 := t.JoinColVals(col.Name, sep)
	j2, e2 := t.JoinColValsByColIndex(ci, sep)
	if e1 != nil || e2 != nil || j1 != j2 || j1 != strings.Join(all, sep) {
		c.Failf("JoinColVals(%q, %q) = %q, %v, by index %q, %v: expected %q", col.Name, sep, j1, e1, j2, e2, strings.Join(all, sep))
	}
	c.Ev("text_forms", 1)
	// The text is also a literal, except that strings and runes are not quoted in it.
	switch col.Type {
	case "string", "rune":
		return
	case "*Table":
		if want.(*g.Table).Name() == "" {
			return
		}
	}
	src := "[back]\nc\n" + col.Type + "\n" + s1 + "\n"
	back, err := g.NewTableFromString(src)
	if err != nil {
		c.Failf("the text of a cell does not parse as a literal of its type: %q: %v", src, err)
	}
	v, err := back.GetVal("c", 0)
	if err != nil {
		c.Failf("%q: %v", src, err)
	}
	if x, ok := v.(*g.Table); ok {
		if x.Name() != want.(*g.Table).Name() {
			c.Failf("%q parses to table [%s]", src, x.Name())
		}
		return
	}
	if !sameCell(v, want) {
		c.Failf("%q parses to %s: the cell held %s", src, showVal(v), showVal(want))
	}
}

func showCell(v any) string {
	if t, ok := v.(*g.Table); ok {
		return fmt.Sprintf("table [%s] %p", t.Name(), t)
	}
	return showVal(v)
}

// live is the content of a real table as plain lists, nested tables by reference.
type live struct {
	cols []MCol
	rows [][]any
}

func (l *live) compare(c *Case, t *g.Table, after string) {
	if t.ColCount() != len(l.cols) || t.RowCount() != len(l.rows) {
		c.Failf("%s: table is %dx%d: expected %dx%d", after, t.ColCount(), t.RowCount(), len(l.cols), len(l.rows))
	}
	for r := range l.rows {
		for i := range l.cols {
			v, err := t.GetValByColIndex(i, r)
			if err != nil {
				c.Failf("%s: GetValByColIndex(%d, %d): %v", after, i, r, err)
			}
			if !sameCell(v, l.rows[r][i]) {
				c.Failf("%s: cell %v row %d is %s: expected %s", after, l.cols[i], r, showCell(v), showCell(l.rows[r][i]))
			}
		}
	}
}

// passedSlice is a slice given to a setter, and what it held then.
type passedSlice struct{ b, was []byte }

func runC12(c *Case) {
	r := c.R
	o := genOpts{emptyRows: true, minCols: 1, maxCols: 8, minRows: 0, maxRows: 6, depth: 1, keys: true, shape: true, bigStrings: true}
	large(c, &o, 1997)
	m := genTable(r, o)
	if chance(r, 4) {
		// Two columns of related types side by side.
		pairs := [][2]string{{"byte", "uint8"}, {"[]byte", "[]uint8"}, {"rune", "int32"}, {"int", "int64"}, {"uint", "uint64"}, {"float32", "float64"}}
		p := pick(r, pairs)
		names := genNames(r, 2, nil)
		m = &MTable{Name: "pair", Cols: []MCol{{names[0], p[0]}, {names[1], p[1]}}}
		for i := r.IntN(3); i >= 0; i-- {
			m.Rows = append(m.Rows, []any{genVal(r, p[0], genOpts{emptyRows: true}), genVal(r, p[1], genOpts{emptyRows: true})})
		}
	}
	t := buildSame(c, m)
	c.Logf("table %v", m)
	l := &live{cols: m.Cols}
	for row := range m.Rows {
		var cells []any
		for i := range m.Cols {
			v, err := t.GetValByColIndex(i, row)
			if err != nil {
				c.Failf("GetValByColIndex(%d, %d): %v", i, row, err)
			}
			cells = append(cells, v)
		}
		l.rows = append(l.rows, cells)
	}
	steps := 3 + r.IntN(8)
	var passed []passedSlice
	for s := 0; s < steps; s++ {
		ci, okc := anyIndex(r, len(m.Cols), chance(r, 4))
		row, okr := anyIndex(r, len(m.Rows), chance(r, 4))
		name := "noSuchCol"
		if okc {
			name = m.Cols[ci].Name
		} else if chance(r, 2) {
			name, _ = anyColName(r, m, true)
			if m.colIndex(name) >= 0 {
				continue
			}
		}
		typ := pick(r, allTypes)
		if okc && !chance(r, 3) {
			typ = m.Cols[ci].Type
		}
		if okc && chance(r, 6) {
			// The types most easily mistaken for this one.
			for _, x := range r.Perm(len(allTypes)) {
				if near(allTypes[x], m.Cols[ci].Type) {
					typ = allTypes[x]
					break
				}
			}
		}
		okt := okc && sameKind(typ, m.Cols[ci].Type)
		v := genVal(r, typ, genOpts{emptyRows: true, maxCols: 2, maxRows: 2, depth: 1, bigStrings: true})
		if chance(r, 10) {
			v = zeroOf(typ)
		}
		cell := buildVal(c, v)
		if _, isB := cell.([]byte); isB && len(passed) > 0 && chance(r, 3) {
			// A slice that is, or was, in a cell already.
			cell = pick(r, passed).b
			v = append([]byte{}, cell.([]byte)...)
			c.Ev("slices_stored_again", 1)
		} else if isB && len(passed) > 0 && chance(r, 3) {
			// One as long as one stored before, which it may replace.
			b := make([]byte, len(pick(r, passed).b))
			for i := range b {
				b[i] = byte(r.IntN(256))
			}
			cell, v = b, append([]byte{}, b...)
		}
		ok := okc && okr && okt
		nilSlice := false
		if chance(r, 25) && (typ == "[]byte" || typ == "[]uint8" || typ == "*Table") {
			// A nil is not a value.
			if typ == "*Table" {
				cell = (*g.Table)(nil)
				ok = false
			} else {
				cell = []byte(nil)
				nilSlice = true
			}
		}
		T := accessorOf(typ)
		var method string
		byIndex := chance(r, 2)
		must := false
		own := okc && !nilSlice && cell != nil && chance(r, 12)
		if own {
			cell = ownVal(r, m.Cols[ci].Type)
			ok, okt = false, false
			c.Ev("values_of_own_types", 1)
		}
		how := r.IntN(3)
		if own {
			how = 0 // The only setters that take it.
		}
		switch how {
		case 0:
			method = "SetVal"
		case 1:
			method = "Set" + T
		case 2:
			method = "Set" + T
			must = true
		}
		if nilSlice {
			// Refused by the typed setters. What the untyped ones do with it is not specified.
			if method == "SetVal" {
				method = "Set" + T
			}
			ok = false
		}
		args := []any{name, row, cell}
		if byIndex {
			method += "ByColIndex"
			args[0] = ci
		}
		if must {
			method += "MustSet"
		}
		call := fmt.Sprintf("%s(%v, %d, %s)", method, args[0], row, showCell(cell))
		c.Logf("%s", call)
		// The caller's slice must not be needed afterwards to know what was stored.
		var keep any = cell
		if b, isB := cell.([]byte); isB {
			keep = append([]byte{}, b...)
		}
		_, err, panicked := callMethod(t, method, args...)
		failed := err != nil || panicked != nil
		if panicked != nil && !must {
			c.Failf("%s panicked: %v", call, panicked)
		}
		if must && panicked != nil {
			if _, isErr := panicked.(error); !isErr {
				c.Failf("%s panicked with %T, not an error", call, panicked)
			}
			if strings.Contains(fmt.Sprint(panicked), "runtime error") {
				c.Failf("%s panicked with a runtime error: %v", call, panicked)
			}
		}
		if failed == ok {
			where := ""
			if okc {
				where = m.Cols[ci].Type
			}
			c.Failf("%s on a %dx%d table, col type %q: failed=%v (%v %v), expected failure=%v", call, len(m.Cols), len(m.Rows), where, failed, err, panicked, !ok)
		}
		if ok {
			l.rows[row][ci] = keep
			c.Ev("writes", 1)
		} else {
			c.Ev("refused_writes", 1)
		}
		c.Distinct(m.Cols, method, typ, okc, okr, okt, fmt.Sprint(v))
		l.compare(c, t, "after "+call)
		for _, p := range passed {
			if !bytes.Equal(p.b, p.was) {
				c.Failf("after %s, a slice stored by an earlier call, which held %v, holds %v", call, p.was, p.b)
			}
		}
		if b, isB := cell.([]byte); isB && ok {
			passed = append(passed, passedSlice{b, append([]byte{}, b...)})
		}
		if ok {
			readAll(c, t, m.Cols[ci], ci, row, keep)
			textForms(c, t, m.Cols[ci], ci, row, keep)
		}
		if okc {
			vOK, err := t.IsValidCellValue(name, cell)
			wantOK := okt
			if vOK != wantOK && !(cell == nil || reflect.ValueOf(cell).Kind() == reflect.Ptr && reflect.ValueOf(cell).IsNil() || reflect.ValueOf(cell).Kind() == reflect.Slice && reflect.ValueOf(cell).IsNil()) {
				c.Failf("IsValidCellValue(%q %s, %s) = %v, %v", name, m.Cols[ci].Type, showCell(cell), vOK, err)
			}
		}
		// Reads that must fail, and those that must not.
		for k := 0; k < 3; k++ {
			ci, okc := anyIndex(r, len(m.Cols), chance(r, 4))
			row, okr := anyIndex(r, len(m.Rows), chance(r, 4))
			name := "noSuchCol"
			if okc {
				name = m.Cols[ci].Name
			}
			a := pick(r, accessors)
			ok := okc && okr && sameKind(a.typ, colType(m, ci, okc))
			method := "Get" + a.T
			if chance(r, 5) {
				method, ok = "GetVal", okc && okr
			}
			byIndex, must := chance(r, 2), chance(r, 2)
			var first any = name
			if byIndex {
				method += "ByColIndex"
				first = ci
			}
			if must {
				method += "MustGet"
			}
			vals, err, panicked := callMethod(t, method, first, row)
			call := fmt.Sprintf("%s(%v, %d)", method, first, row)
			if panicked != nil && !must {
				c.Failf("%s panicked: %v", call, panicked)
			}
			if panicked != nil && strings.Contains(fmt.Sprint(panicked), "runtime error") {
				c.Failf("%s panicked with a runtime error: %v", call, panicked)
			}
			failed := err != nil || panicked != nil
			if failed == ok {
				c.Failf("%s of a %s cell on a %dx%d table: failed=%v (%v %v), expected failure=%v", call, colType(m, ci, okc), len(m.Cols), len(m.Rows), failed, err, panicked, !ok)
			}
			if ok {
				if !sameCell(vals[0], l.rows[row][ci]) {
					c.Failf("%s = %s: stored %s", call, showCell(vals[0]), showCell(l.rows[row][ci]))
				}
			} else {
				c.Ev("refused_reads", 1)
			}
			has, _ := t.HasCell(name, row)
			has2, _ := t.HasCellByColIndex(ci, row)
			if okc && (has != okr) || has2 != (okc && okr) {
				c.Failf("HasCell(%q, %d) = %v, HasCellByColIndex(%d) = %v on a %dx%d table", name, row, has, ci, has2, len(m.Cols), len(m.Rows))
			}
			info, err := t.GetCellInfoByColIndex(ci, row)
			if (err == nil) != (okc && okr) {
				c.Failf("GetCellInfoByColIndex(%d, %d) = %v, %v on a %dx%d table", ci, row, info, err, len(m.Cols), len(m.Rows))
			}
			if err == nil && (info.Table != t || info.ColName != name || info.ColType != m.Cols[ci].Type || info.ColIndex != ci || info.RowIndex != row) {
				c.Failf("GetCellInfoByColIndex(%d, %d) = %+v", ci, row, info)
			}
			if okc && okr {
				info2, err := t.GetCellInfo(name, row)
				if err != nil || info2 != info {
					c.Failf("GetCellInfo(%q, %d) = %+v, %v: by index %+v", name, row, info2, err, info)
				}
				isT, err := t.IsTableCol(name)
				isT2, err2 := t.IsTableColByColIndex(ci)
				if err != nil || err2 != nil || isT != (m.Cols[ci].Type == "*Table") || isT2 != isT {
					c.Failf("IsTableCol(%q) of a %s col = %v, %v; %v, %v", name, m.Cols[ci].Type, isT, err, isT2, err2)
				}
			}
		}
		l.compare(c, t, "after reading")
	}
	if len(m.Rows) > 0 {
		ci, row := r.IntN(len(m.Cols)), r.IntN(len(m.Rows))
		readAll(c, t, m.Cols[ci], ci, row, l.rows[row][ci])
		textForms(c, t, m.Cols[ci], ci, row, l.rows[row][ci])
	}
	// The rest of the table is what it was.
	m2 := snapshot(t)
	m2.Rows = nil
	m1 := m.clone()
	m1.Rows = nil
	if d := diffTables(m1, m2, cmpOpts{}); d != "" {
		c.Failf("setting cells changed the table: %s", d)
	}
	c.Sample(m.String())
}

func colType(m *MTable, ci int, ok bool) string {
	if !ok {
		return "none"
	}
	return m.Cols[ci].Type
}

// near: types that share a letter sequence or a kind and are not the same.
func near(a, b string) bool {
	if a == b {
		return false
	}
	strip := func(s string) string { return strings.Trim(s, "0123456789[]u") }
	return strip(a) == strip(b) || sameKind(a, b)
}

func init() {
	register(&Prop{ID: "C12", Quick: 100000, Thorough: 3000000, Run: runC12,
		Rule: "a case is a table of up to 8 columns of any of the 20 types and up to 6 rows, 3-10 writes through randomly chosen accessors (typed, untyped, by name, by index, must-form; right, alias and wrong types; existing and missing positions), each followed by a comparison of every cell with a plain list of the values stored, a read of the written cell through every accessor of its type, and its textual forms read back; distinct is counted over (columns, accessor, type, validity, value)",
		Need: []string{"writes", "refused_writes", "slices_stored_again", "values_of_own_types", "refused_reads", "reads", "text_forms"}})
}
