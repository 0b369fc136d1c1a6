package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
	"weak"

	g "github.com/urban-wombat/gotables"
)

// The reference model of a table: plain ordered lists. Nothing here calls gotables
// except snapshot(), which observes a real table through its public accessors.

type MCol struct{ Name, Type string }

type MKey struct {
	Col     string
	Type    string
	Reverse bool
}

type MTable struct {
	Name  string
	Nil   bool
	Shape bool
	Cols  []MCol
	Rows  [][]any // Nested tables are *MTable.
	Keys  []MKey
	Cycle bool // Stands for a table already on the path.
}

var allTypes = []string{
	"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "int64",
	"int8", "rune", "string", "time.Time", "uint", "uint16", "uint32", "uint64", "uint8", "*Table",
}

// Types with a sort order.
var sortableTypes = []string{
	"bool", "float32", "float64", "int", "int16", "int32", "int64", "int8", "string",
	"uint", "uint16", "uint32", "uint64", "uint8",
}

func isSortable(t string) bool {
	for _, s := range sortableTypes {
		if s == t {
			return true
		}
	}
	return false
}

func zeroOf(typ string) any {
	switch typ {
	case "[]byte", "[]uint8":
		return []byte{}
	case "bool":
		return false
	case "byte", "uint8":
		return uint8(0)
	case "float32":
		return float32(0)
	case "float64":
		return float64(0)
	case "int":
		return int(0)
	case "int8":
		return int8(0)
	case "int16":
		return int16(0)
	case "int32", "rune":
		return int32(0)
	case "int64":
		return int64(0)
	case "string":
		return ""
	case "time.Time":
		return time.Time{}
	case "uint":
		return uint(0)
	case "uint16":
		return uint16(0)
	case "uint32":
		return uint32(0)
	case "uint64":
		return uint64(0)
	case "*Table":
		return &MTable{Nil: true}
	}
	panic("zeroOf " + typ)
}

// hasGoType tells whether v has the Go type that a cell of this column type holds.
func hasGoType(typ string, v any) bool {
	switch typ {
	case "[]byte", "[]uint8":
		_, ok := v.([]byte)
		return ok
	case "*Table":
		if _, ok := v.(*MTable); ok {
			return true
		}
		_, ok := v.(*g.Table)
		return ok
	}
	return fmt.Sprintf("%T", v) == fmt.Sprintf("%T", zeroOf(typ))
}

func (m *MTable) colIndex(name string) int {
	for i, c := range m.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

func cloneVal(v any) any {
	switch x := v.(type) {
	case []byte:
		return append([]byte{}, x...)
	case *MTable:
		return x.clone()
	}
	return v
}

func (m *MTable) clone() *MTable {
	if m == nil {
		return nil
	}
	n := &MTable{Name: m.Name, Nil: m.Nil, Shape: m.Shape, Cycle: m.Cycle}
	n.Cols = append([]MCol(nil), m.Cols...)
	n.Keys = append([]MKey(nil), m.Keys...)
	for _, r := range m.Rows {
		nr := make([]any, len(r))
		for i, v := range r {
			nr[i] = cloneVal(v)
		}
		n.Rows = append(n.Rows, nr)
	}
	return n
}

// How strictly two snapshots are compared.
type cmpOpts struct {
	noKeys      bool // Ignore sort keys.
	noShape     bool // Ignore struct shape.
	signlessZ   bool // Floats -0 and 0 are the same.
	nameOnly    bool // Nested tables compare by name only.
	nestedLoose bool // Nested tables: ignore keys and shape.
	anyColOrder bool
}

func eqVal(a, b any, o cmpOpts) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		if !ok {
			return false
		}
		if math.IsNaN(x) || math.IsNaN(y) {
			return math.IsNaN(x) && math.IsNaN(y)
		}
		if o.signlessZ {
			return x == y
		}
		return math.Float64bits(x) == math.Float64bits(y)
	case float32:
		y, ok := b.(float32)
		if !ok {
			return false
		}
		if x != x || y != y {
			return x != x && y != y
		}
		if o.signlessZ {
			return x == y
		}
		return math.Float32bits(x) == math.Float32bits(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		if !ok || !x.Equal(y) {
			return false
		}
		_, ox := x.Zone()
		_, oy := y.Zone()
		return ox == oy
	case *MTable:
		y, ok := b.(*MTable)
		if !ok {
			return false
		}
		if o.nameOnly {
			return x.Name == y.Name && x.Nil == y.Nil
		}
		return diffTables(x, y, o) == ""
	}
	return a == b
}

// diffTables returns "" if equal, otherwise the first difference.
func diffTables(a, b *MTable, o cmpOpts) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("nil table: %v vs %v", a == nil, b == nil)
	}
	if a.Cycle != b.Cycle {
		return "cycle differs"
	}
	if a.Cycle {
		return ""
	}
	if a.Name != b.Name {
		return fmt.Sprintf("name %q vs %q", a.Name, b.Name)
	}
	if a.Nil != b.Nil {
		return fmt.Sprintf("table [%s] nil-table %v vs %v", a.Name, a.Nil, b.Nil)
	}
	if !o.noShape && a.Shape != b.Shape {
		return fmt.Sprintf("table [%s] struct shape %v vs %v", a.Name, a.Shape, b.Shape)
	}
	if len(a.Cols) != len(b.Cols) {
		return fmt.Sprintf("table [%s] col count %d vs %d (%v vs %v)", a.Name, len(a.Cols), len(b.Cols), a.Cols, b.Cols)
	}
	perm := make([]int, len(a.Cols))
	for i := range a.Cols {
		j := i
		if o.anyColOrder {
			j = b.colIndex(a.Cols[i].Name)
			if j < 0 {
				return fmt.Sprintf("table [%s] col %q missing", a.Name, a.Cols[i].Name)
			}
		}
		perm[i] = j
		if a.Cols[i] != b.Cols[j] {
			return fmt.Sprintf("table [%s] col %d %v vs %v", a.Name, i, a.Cols[i], b.Cols[j])
		}
	}
	if len(a.Rows) != len(b.Rows) {
		return fmt.Sprintf("table [%s] row count %d vs %d", a.Name, len(a.Rows), len(b.Rows))
	}
	if !o.noKeys {
		if len(a.Keys) != len(b.Keys) {
			return fmt.Sprintf("table [%s] sort keys %v vs %v", a.Name, a.Keys, b.Keys)
		}
		for i := range a.Keys {
			if a.Keys[i] != b.Keys[i] {
				return fmt.Sprintf("table [%s] sort keys %v vs %v", a.Name, a.Keys, b.Keys)
			}
		}
	}
	no := o
	if o.nestedLoose {
		no.noKeys, no.noShape = true, true
	}
	for r := range a.Rows {
		if len(a.Rows[r]) != len(b.Rows[r]) {
			return fmt.Sprintf("table [%s] row %d has %d vs %d cells", a.Name, r, len(a.Rows[r]), len(b.Rows[r]))
		}
		for i := range a.Rows[r] {
			va, vb := a.Rows[r][i], b.Rows[r][perm[i]]
			if !eqVal(va, vb, no) {
				extra := ""
				if x, ok := va.(*MTable); ok {
					if y, ok := vb.(*MTable); ok {
						extra = " nested: " + diffTables(x, y, no)
					}
				}
				return fmt.Sprintf("table [%s] col %q (%s) row %d: %s vs %s%s", a.Name, a.Cols[i].Name, a.Cols[i].Type, r, showVal(va), showVal(vb), extra)
			}
		}
	}
	return ""
}

func showVal(v any) string {
	switch x := v.(type) {
	case string:
		if len(x) > 300 {
			return fmt.Sprintf("%q...(%d bytes)", x[:300], len(x))
		}
		return fmt.Sprintf("%q", x)
	case float64:
		return fmt.Sprintf("%v(bits %x)", x, math.Float64bits(x))
	case float32:
		return fmt.Sprintf("%v(bits %x)", x, math.Float32bits(x))
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case *MTable:
		if x == nil {
			return "<nil table>"
		}
		return "[" + x.Name + "]"
	case []byte:
		if len(x) > 100 {
			return fmt.Sprintf("%v...(%d bytes)", x[:100], len(x))
		}
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// String shows a model table (for traces and samples).
func (m *MTable) String() string {
	if m == nil {
		return "<nil>"
	}
	if m.Cycle {
		return "<cycle>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "[%s]", m.Name)
	if m.Nil {
		b.WriteString("(nil)")
	}
	if m.Shape {
		b.WriteString("(struct)")
	}
	for i, c := range m.Cols {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, " %s %s", c.Name, c.Type)
	}
	if len(m.Keys) > 0 {
		fmt.Fprintf(&b, " keys%v", m.Keys)
	}
	for i, r := range m.Rows {
		if i >= 6 || b.Len() > 3000 {
			fmt.Fprintf(&b, " ...%d rows", len(m.Rows))
			break
		}
		b.WriteString(" {")
		for j, v := range r {
			if j > 0 {
				b.WriteString(" ")
			}
			if t, ok := v.(*MTable); ok && t != nil && !t.Nil {
				b.WriteString("(" + t.String() + ")")
			} else {
				b.WriteString(showVal(v))
			}
		}
		b.WriteString("}")
	}
	return b.String()
}

// snapErr is a broken invariant found while observing a table.
type snapErr struct{ s string }

// snapshot observes a real table through its public accessors, checking that they agree.
func snapshot(t *g.Table) *MTable { return snapshotPath(t, map[*g.Table]bool{}) }

func snapshotPath(t *g.Table, path map[*g.Table]bool) *MTable {
	if t == nil {
		return nil
	}
	if path[t] {
		return &MTable{Cycle: true}
	}
	path[t] = true
	defer delete(path, t)
	m := &MTable{Name: t.Name()}
	isNil, err := t.IsNilTable()
	if err != nil {
		panic(violation{fmt.Sprintf("IsNilTable: %v", err)})
	}
	m.Nil = isNil
	if m.Shape, err = t.IsStructShape(); err != nil {
		panic(violation{fmt.Sprintf("IsStructShape: %v", err)})
	}
	nc, nr := t.ColCount(), t.RowCount()
	if nc < 0 || nr < 0 {
		panic(violation{fmt.Sprintf("table [%s] ColCount=%d RowCount=%d", m.Name, nc, nr)})
	}
	for i := 0; i < nc; i++ {
		name, err := t.ColNameByColIndex(i)
		if err != nil {
			panic(violation{fmt.Sprintf("ColNameByColIndex(%d) of %d: %v", i, nc, err)})
		}
		typ, err := t.ColTypeByColIndex(i)
		if err != nil {
			panic(violation{fmt.Sprintf("ColTypeByColIndex(%d) of %d: %v", i, nc, err)})
		}
		m.Cols = append(m.Cols, MCol{name, typ})
	}
	for r := 0; r < nr; r++ {
		row := make([]any, nc)
		for i := 0; i < nc; i++ {
			v, err := t.GetValByColIndex(i, r)
			if err != nil {
				panic(violation{fmt.Sprintf("table [%s] %dx%d GetValByColIndex(%d, %d): %v", m.Name, nc, nr, i, r, err)})
			}
			if !hasGoType(m.Cols[i].Type, v) {
				panic(violation{fmt.Sprintf("table [%s] col %v row %d holds a value of Go type %T", m.Name, m.Cols[i], r, v)})
			}
			switch x := v.(type) {
			case *g.Table:
				row[i] = snapshotPath(x, path)
			case []byte:
				row[i] = append([]byte{}, x...)
			default:
				row[i] = v
			}
		}
		m.Rows = append(m.Rows, row)
	}
	m.Keys = snapKeys(t)
	return m
}

func snapKeys(t *g.Table) (keys []MKey) {
	n := t.SortKeyCount()
	if n == 0 {
		return nil
	}
	kt, err := t.GetSortKeysAsTable()
	if err != nil {
		panic(violation{fmt.Sprintf("GetSortKeysAsTable: %v", err)})
	}
	if kt.RowCount() != n {
		panic(violation{fmt.Sprintf("GetSortKeysAsTable has %d rows, SortKeyCount() is %d", kt.RowCount(), n)})
	}
	for r := 0; r < kt.RowCount(); r++ {
		c, e1 := kt.GetString("colName", r)
		ty, e2 := kt.GetString("colType", r)
		rv, e3 := kt.GetBool("reverse", r)
		if e1 != nil || e2 != nil || e3 != nil {
			panic(violation{fmt.Sprintf("sort key table: %v %v %v", e1, e2, e3)})
		}
		keys = append(keys, MKey{c, ty, rv})
	}
	return
}

// checkInvariants checks that every way of asking agrees with the snapshot, and that the table says it is valid.
func checkInvariants(c *Case, t *g.Table, m *MTable) {
	seen := map[string]bool{}
	for i, col := range m.Cols {
		if seen[col.Name] {
			c.Failf("duplicate col name %q in [%s]", col.Name, m.Name)
		}
		seen[col.Name] = true
		if ok, err := g.IsValidColName(col.Name); !ok {
			c.Failf("invalid col name %q in table: %v", col.Name, err)
		}
		if ok, err := g.IsValidColType(col.Type); !ok {
			c.Failf("invalid col type %q in table: %v", col.Type, err)
		}
		j, err := t.ColIndex(col.Name)
		if err != nil || j != i {
			c.Failf("ColIndex(%q) = %d, %v: expected %d", col.Name, j, err, i)
		}
		typ, err := t.ColType(col.Name)
		if err != nil || typ != col.Type {
			c.Failf("ColType(%q) = %q, %v: expected %q", col.Name, typ, err, col.Type)
		}
		if ok, err := t.HasCol(col.Name); !ok || err != nil {
			c.Failf("HasCol(%q) = %v, %v", col.Name, ok, err)
		}
		n2, err := t.ColName(i)
		if err != nil || n2 != col.Name {
			c.Failf("ColName(%d) = %q, %v: expected %q", i, n2, err, col.Name)
		}
		if ok, err := t.HasColByColIndex(i); !ok || err != nil {
			c.Failf("HasColByColIndex(%d) = %v, %v", i, ok, err)
		}
		ok, err := t.IsColType(col.Name, col.Type)
		if !ok || err != nil {
			c.Failf("IsColType(%q, %q) = %v, %v", col.Name, col.Type, ok, err)
		}
		other := pick(c.R, append([]string{"", "Int", "complex64"}, allTypes...))
		if ok, err := t.IsColType(col.Name, other); ok != (other == col.Type) || err != nil {
			c.Failf("IsColType(%q, %q) = %v, %v of a col of type %q", col.Name, other, ok, err, col.Type)
		}
		if ok, err := t.IsColTypeByColIndex(i, other); ok != (other == col.Type) || err != nil {
			c.Failf("IsColTypeByColIndex(%d, %q) = %v, %v of a col of type %q", i, other, ok, err, col.Type)
		}
		if ok, err := t.IsColTypeByColIndex(i, col.Type); !ok || err != nil {
			c.Failf("IsColTypeByColIndex(%d, %q) = %v, %v", i, col.Type, ok, err)
		}
		if ok, err := t.IsTableCol(col.Name); ok != (col.Type == "*Table") || err != nil {
			c.Failf("IsTableCol(%q) = %v, %v of a col of type %q", col.Name, ok, err, col.Type)
		}
		if ok, err := t.IsTableColByColIndex(i); ok != (col.Type == "*Table") || err != nil {
			c.Failf("IsTableColByColIndex(%d) = %v, %v of a col of type %q", i, ok, err, col.Type)
		}
		if len(m.Rows) > 0 {
			r := c.R.IntN(len(m.Rows))
			v, err := t.GetVal(col.Name, r)
			if err != nil {
				c.Failf("GetVal(%q, %d): %v", col.Name, r, err)
			}
			if x, isT := v.(*g.Table); isT {
				v = snapshot(x)
			}
			if !eqVal(m.Rows[r][i], v, cmpOpts{}) {
				c.Failf("GetVal(%q, %d) = %s, by index %s", col.Name, r, showVal(v), showVal(m.Rows[r][i]))
			}
		}
	}
	for _, absent := range []string{"", "noSuchCol_", " ", "a b"} {
		if seen[absent] {
			continue
		}
		if ok, _ := t.HasCol(absent); ok {
			c.Failf("HasCol(%q) is true", absent)
		}
		if _, err := t.ColIndex(absent); err == nil {
			c.Failf("ColIndex(%q) of a missing col gives no error", absent)
		}
		if ok, err := t.IsColType(absent, "int"); ok || err == nil {
			c.Failf("IsColType(%q) of a missing col gives %v, %v", absent, ok, err)
		}
		if ok, err := t.IsTableCol(absent); ok || err == nil {
			c.Failf("IsTableCol(%q) of a missing col gives %v, %v", absent, ok, err)
		}
	}
	for _, i := range []int{-1, len(m.Cols)} {
		if ok, err := t.IsColTypeByColIndex(i, "int"); ok || err == nil {
			c.Failf("IsColTypeByColIndex(%d) with %d cols gives %v, %v", i, len(m.Cols), ok, err)
		}
		if ok, err := t.IsTableColByColIndex(i); ok || err == nil {
			c.Failf("IsTableColByColIndex(%d) with %d cols gives %v, %v", i, len(m.Cols), ok, err)
		}
	}
	if m.Nil {
		return
	}
	names, types, err := t.GetColInfoAsSlices()
	if err != nil || len(names) != len(m.Cols) || len(types) != len(m.Cols) {
		c.Failf("GetColInfoAsSlices() = %v, %v, %v: expected %v", names, types, err, m.Cols)
	}
	for i := range names {
		if names[i] != m.Cols[i].Name || types[i] != m.Cols[i].Type {
			c.Failf("GetColInfoAsSlices() = %v, %v: expected %v", names, types, m.Cols)
		}
	}
	for i := range names {
		names[i], types[i] = "overwritten", "overwritten" // They are the caller's.
	}
	for _, k := range m.Keys {
		if !seen[k.Col] {
			c.Failf("sort key %q of [%s] names no column", k.Col, m.Name)
		}
		if ty := m.Cols[m.colIndex(k.Col)].Type; ty != k.Type {
			c.Failf("sort key %q has type %q but the column has type %q", k.Col, k.Type, ty)
		}
		if ok, err := t.IsSortKey(k.Col); !ok || err != nil {
			c.Failf("IsSortKey(%q) = %v, %v", k.Col, ok, err)
		}
	}
	if !m.Nil {
		if ok, err := t.IsValidTable(); !ok || err != nil {
			c.Failf("IsValidTable() = %v, %v of %v", ok, err, m)
		}
	}
	if ok, _ := t.HasRow(len(m.Rows)); ok {
		c.Failf("HasRow(%d) is true with %d rows", len(m.Rows), len(m.Rows))
	}
	if ok, _ := t.HasRow(-1); ok {
		c.Failf("HasRow(-1) is true")
	}
	for r := range m.Rows {
		if ok, err := t.HasRow(r); !ok || err != nil {
			c.Failf("HasRow(%d) = %v, %v with %d rows", r, ok, err, len(m.Rows))
		}
	}
}

// buildCell gives the value to store in a real cell.
func buildVal(c *Case, v any) any {
	switch x := v.(type) {
	case *MTable:
		return build(c, x)
	case []byte:
		return append([]byte{}, x...)
	}
	return v
}

// setTyped stores v with the typed setter of the column type.
func setTyped(t *g.Table, typ string, byIndex bool, col string, ci, r int, v any) error {
	switch typ {
	case "[]byte":
		if byIndex {
			return t.SetByteSliceByColIndex(ci, r, v.([]byte))
		}
		return t.SetByteSlice(col, r, v.([]byte))
	case "[]uint8":
		if byIndex {
			return t.SetUint8SliceByColIndex(ci, r, v.([]byte))
		}
		return t.SetUint8Slice(col, r, v.([]byte))
	case "bool":
		if byIndex {
			return t.SetBoolByColIndex(ci, r, v.(bool))
		}
		return t.SetBool(col, r, v.(bool))
	case "byte":
		if byIndex {
			return t.SetByteByColIndex(ci, r, v.(byte))
		}
		return t.SetByte(col, r, v.(byte))
	case "uint8":
		if byIndex {
			return t.SetUint8ByColIndex(ci, r, v.(uint8))
		}
		return t.SetUint8(col, r, v.(uint8))
	case "float32":
		if byIndex {
			return t.SetFloat32ByColIndex(ci, r, v.(float32))
		}
		return t.SetFloat32(col, r, v.(float32))
	case "float64":
		if byIndex {
			return t.SetFloat64ByColIndex(ci, r, v.(float64))
		}
		return t.SetFloat64(col, r, v.(float64))
	case "int":
		if byIndex {
			return t.SetIntByColIndex(ci, r, v.(int))
		}
		return t.SetInt(col, r, v.(int))
	case "int8":
		if byIndex {
			return t.SetInt8ByColIndex(ci, r, v.(int8))
		}
		return t.SetInt8(col, r, v.(int8))
	case "int16":
		if byIndex {
			return t.SetInt16ByColIndex(ci, r, v.(int16))
		}
		return t.SetInt16(col, r, v.(int16))
	case "int32":
		if byIndex {
			return t.SetInt32ByColIndex(ci, r, v.(int32))
		}
		return t.SetInt32(col, r, v.(int32))
	case "rune":
		if byIndex {
			return t.SetRuneByColIndex(ci, r, v.(rune))
		}
		return t.SetRune(col, r, v.(rune))
	case "int64":
		if byIndex {
			return t.SetInt64ByColIndex(ci, r, v.(int64))
		}
		return t.SetInt64(col, r, v.(int64))
	case "string":
		if byIndex {
			return t.SetStringByColIndex(ci, r, v.(string))
		}
		return t.SetString(col, r, v.(string))
	case "time.Time":
		if byIndex {
			return t.SetTimeByColIndex(ci, r, v.(time.Time))
		}
		return t.SetTime(col, r, v.(time.Time))
	case "uint":
		if byIndex {
			return t.SetUintByColIndex(ci, r, v.(uint))
		}
		return t.SetUint(col, r, v.(uint))
	case "uint16":
		if byIndex {
			return t.SetUint16ByColIndex(ci, r, v.(uint16))
		}
		return t.SetUint16(col, r, v.(uint16))
	case "uint32":
		if byIndex {
			return t.SetUint32ByColIndex(ci, r, v.(uint32))
		}
		return t.SetUint32(col, r, v.(uint32))
	case "uint64":
		if byIndex {
			return t.SetUint64ByColIndex(ci, r, v.(uint64))
		}
		return t.SetUint64(col, r, v.(uint64))
	case "*Table":
		if byIndex {
			return t.SetTableByColIndex(ci, r, v.(*g.Table))
		}
		return t.SetTable(col, r, v.(*g.Table))
	}
	panic("setTyped " + typ)
}

// builtTables collects references to the tables built, if it is not nil.
var builtTables *[]weak.Pointer[g.Table]

// build makes a real table from a model table: cell by cell, or now and then by editing another table into it.
func build(c *Case, m *MTable) *g.Table {
	if m == nil {
		return nil
	}
	if c.worn == 0 && chance(c.R, 6) && !m.Nil && len(m.Cols)*len(m.Rows) <= 1500 {
		c.worn++
		t, finish := wornTable(c, m, 0)
		finish()
		c.worn--
		return t
	}
	return buildFresh(c, m)
}

func buildFresh(c *Case, m *MTable) (t *g.Table) {
	if builtTables != nil {
		defer func() { *builtTables = append(*builtTables, weak.Make(t)) }()
	}
	if m.Nil {
		return g.NewNilTable()
	}
	t, err := g.NewTable(m.Name)
	if err != nil {
		c.Failf("NewTable(%q): %v", m.Name, err)
	}
	must := func(err error, what string) {
		if err != nil {
			c.Failf("building %v: %s: %v", m, what, err)
		}
	}
	for _, col := range m.Cols {
		must(t.AppendCol(col.Name, col.Type), "AppendCol "+col.Name)
	}
	must(t.AppendRows(len(m.Rows)), "AppendRows")
	how := c.R.IntN(3)
	for r := range m.Rows {
		for i, col := range m.Cols {
			v := buildVal(c, m.Rows[r][i])
			if how == 0 && col.Type != "*Table" {
				must(t.SetValByColIndex(i, r, v), "SetValByColIndex "+col.Type)
			} else {
				must(setTyped(t, col.Type, how == 1, col.Name, i, r, v), "Set "+col.Type)
			}
		}
	}
	setKeys(c, t, m.Keys)
	if m.Shape {
		must(t.SetStructShape(true), "SetStructShape")
	}
	return t
}

func setKeys(c *Case, t *g.Table, keys []MKey) {
	if len(keys) == 0 {
		return
	}
	var names, rev []string
	for _, k := range keys {
		names = append(names, k.Col)
		if k.Reverse {
			rev = append(rev, k.Col)
		}
	}
	if err := withOwn(t.SetSortKeys, names); err != nil {
		c.Failf("SetSortKeys(%v): %v", names, err)
	}
	if len(rev) > 0 {
		if err := withOwn(t.SetSortKeysReverse, rev); err != nil {
			c.Failf("SetSortKeysReverse(%v): %v", rev, err)
		}
	}
}

// buildSame builds and checks that the built table is what the model says.
func buildSame(c *Case, m *MTable) *g.Table {
	t := build(c, m)
	if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
		c.Failf("table built cell by cell differs from what was stored: %s", d)
	}
	return t
}

// compareVal orders two values of a sortable type. Ascending. Same as the documentation of Sort:
// strings alphabetically ignoring case, then by case; NaN before other floats.
func compareVal(typ string, a, b any) int {
	switch typ {
	case "bool":
		x, y := a.(bool), b.(bool)
		switch {
		case x == y:
			return 0
		case !x:
			return -1
		}
		return 1
	case "float32":
		return cmpFloat(float64(a.(float32)), float64(b.(float32)))
	case "float64":
		return cmpFloat(a.(float64), b.(float64))
	case "int":
		return cmpOrd(a.(int), b.(int))
	case "int8":
		return cmpOrd(a.(int8), b.(int8))
	case "int16":
		return cmpOrd(a.(int16), b.(int16))
	case "int32":
		return cmpOrd(a.(int32), b.(int32))
	case "int64":
		return cmpOrd(a.(int64), b.(int64))
	case "uint":
		return cmpOrd(a.(uint), b.(uint))
	case "uint8":
		return cmpOrd(a.(uint8), b.(uint8))
	case "uint16":
		return cmpOrd(a.(uint16), b.(uint16))
	case "uint32":
		return cmpOrd(a.(uint32), b.(uint32))
	case "uint64":
		return cmpOrd(a.(uint64), b.(uint64))
	case "string":
		x, y := a.(string), b.(string)
		if d := strings.Compare(strings.ToLower(x), strings.ToLower(y)); d != 0 {
			return d
		}
		return strings.Compare(x, y)
	}
	panic("compareVal " + typ)
}

func cmpFloat(x, y float64) int {
	nx, ny := math.IsNaN(x), math.IsNaN(y)
	switch {
	case nx && ny:
		return 0
	case nx:
		return -1
	case ny:
		return 1
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func cmpOrd[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](x, y T) int {
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

// keyCompare compares two rows by keys with directions applied.
func (m *MTable) keyCompare(keys []MKey, a, b []any) int {
	for _, k := range keys {
		i := m.colIndex(k.Col)
		d := compareVal(m.Cols[i].Type, a[i], b[i])
		if k.Reverse {
			d = -d
		}
		if d != 0 {
			return d
		}
	}
	return 0
}

// valKey is a printable identity of a value (-0 and 0, and all NaNs, are the same when loose).
func valKey(v any, loose bool) string {
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) {
			return "f64NaN"
		}
		if loose && x == 0 {
			x = 0
		}
		return fmt.Sprintf("f64%x", math.Float64bits(x))
	case float32:
		if x != x {
			return "f32NaN"
		}
		if loose && x == 0 {
			x = 0
		}
		return fmt.Sprintf("f32%x", math.Float32bits(x))
	case time.Time:
		_, o := x.Zone()
		return fmt.Sprintf("t%d.%d@%d", x.Unix(), x.Nanosecond(), o)
	case *MTable:
		return "T{" + x.fullKey() + "}"
	case []byte:
		return fmt.Sprintf("b%x", x)
	case string:
		return fmt.Sprintf("s%q", x)
	}
	return fmt.Sprintf("%T%v", v, v)
}

func rowKey(r []any) string {
	var b strings.Builder
	for _, v := range r {
		b.WriteString(valKey(v, false))
		b.WriteByte('|')
	}
	return b.String()
}

func (m *MTable) fullKey() string {
	if m == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %v %v %v %v %v;", m.Name, m.Nil, m.Shape, m.Cycle, m.Cols, m.Keys)
	for _, r := range m.Rows {
		b.WriteString(rowKey(r))
		b.WriteByte(';')
	}
	return b.String()
}

// sameMultiset tells whether two row lists hold the same rows, in any order.
func sameMultiset(a, b [][]any) bool {
	if len(a) != len(b) {
		return false
	}
	ka := make([]string, len(a))
	kb := make([]string, len(b))
	for i := range a {
		ka[i] = rowKey(a[i])
		kb[i] = rowKey(b[i])
	}
	sort.Strings(ka)
	sort.Strings(kb)
	for i := range ka {
		if ka[i] != kb[i] {
			return false
		}
	}
	return true
}

// withOwn calls a function with a slice of names that is overwritten afterwards.
func withOwn(call func(...string) error, names []string) error {
	own := append([]string(nil), names...)
	err := call(own...)
	for i := range own {
		own[i] = "overwritten"
	}
	return err
}
