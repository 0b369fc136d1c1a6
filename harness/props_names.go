package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C30: which names and types are valid

// goodName is the rule for names of tables and columns.
func goodName(s string) bool {
	if s == "" || isTypeName(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		letter := 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || b == '_'
		if !letter && (i == 0 || b < '0' || b > '9') {
			return false
		}
	}
	return true
}

var hostileRunes = []string{
	" ", "\t", "\n", "\r", "\x00", "\x1b", "\x7f", "-", ".", ",", ":", ";", "[", "]", "(", ")", "{", "}", "*", "/", "\\", "\"", "'", "`", "=", "#", "$", "%", "&", "@", "!", "?", "~", "|", "<", ">", "+", "^",
	"é", "ª", "º", "µ", "²", "³", "¹", "¼", "ß", "ÿ", "Ā", "İ", "ı", "ſ", "K", "Å", "Ω", "я", "א", "ب", "日", "ｆ", "Ａ", "＿", "０", "９", "٣", "०", "Ⅷ", "①", "𝐚", "𝟎", "😀", "\u0301", "\u200b", "\u200c", "\u200d", "\u00a0", "\u2028", "\ufeff", "\ufffd", "‿",
	"\x80", "\xc3", "\xe9", "\xff", "\xaa", "\xb5", "\xb2",
}

// genAnyText gives valid names and names that are nearly so.
func genAnyText(r *rand.Rand) string {
	switch r.IntN(10) {
	case 0, 1, 2:
		return genName(r)
	case 3, 4, 5: // One character that does not belong there.
		s := genName(r)
		if chance(r, 20) {
			s = strings.Repeat(s, logSize(r, 1, 300))
		}
		at := r.IntN(len(s) + 1)
		if chance(r, 3) {
			at = 0
		}
		x := pick(r, hostileRunes)
		if chance(r, 3) {
			x = string([]byte{byte(r.IntN(256))})
		}
		if chance(r, 3) {
			x = string(rune(r.IntN(128)))
		}
		if chance(r, 2) && at < len(s) {
			return s[:at] + x + s[at+1:]
		}
		return s[:at] + x + s[at:]
	case 6: // A type name, or nearly so.
		s := pick(r, allTypes)
		switch r.IntN(6) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.ToUpper(s[:1]) + s[1:]
		case 2:
			s += pick(r, []string{"_", "0", "s", " ", "\n"})
		case 3:
			s = pick(r, []string{"_", "u", " ", "*", "[]"}) + s
		case 4:
			s = s[:len(s)-1]
		}
		return s
	case 7:
		return pick(r, badNames)
	case 8:
		return pick(r, badTypes)
	default: // Any bytes.
		b := make([]byte, logSize(r, 0, 6))
		for i := range b {
			b[i] = byte(r.IntN(256))
			if chance(r, 2) {
				b[i] = "aZ_09 .-"[r.IntN(8)]
			}
		}
		return string(b)
	}
}

// genAnyType gives types and names that are nearly so.
func genAnyType(r *rand.Rand) string {
	if chance(r, 2) {
		return pick(r, allTypes)
	}
	if chance(r, 3) {
		return pick(r, badTypes)
	}
	s := pick(r, allTypes)
	switch r.IntN(7) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		return s + pick(r, []string{" ", "\n", "\x00", "s", "8", "16", "32", "64", "é", "\xff", "[]", "\u200b"})
	case 3:
		return pick(r, []string{" ", "\t", "*", "[]", "u", "\x00", "\ufeff", "big."}) + s
	case 4:
		return s[:r.IntN(len(s))]
	case 5:
		at := r.IntN(len(s))
		return s[:at] + pick(r, hostileRunes) + s[at+1:]
	default:
		return genAnyText(r)
	}
}

// plainDoc describes tables for documents of all formats; its names and types may be anything.
type plainDoc []struct {
	name  string
	names []string
	types []string
	rows  int
}

var plainText = map[string]string{
	"[]byte": "[7]", "[]uint8": "[7]", "bool": "true", "float32": "7", "float64": "7", "rune": "'7'", "string": `"7"`,
	"time.Time": "2007-07-07T07:07:07Z", "*Table": "[u]",
}

func textOfType(typ string) string {
	if s, ok := plainText[typ]; ok {
		return s
	}
	return "7"
}

func (d plainDoc) text(structs bool) string {
	var b strings.Builder
	for i, t := range d {
		if i > 0 {
			b.WriteString("\n")
		}
		fmt.Fprintf(&b, "[%s]\n", t.name)
		if structs && t.rows <= 1 {
			for j := range t.names {
				if t.rows == 0 {
					fmt.Fprintf(&b, "%s %s\n", t.names[j], t.types[j])
				} else {
					fmt.Fprintf(&b, "%s %s = %s\n", t.names[j], t.types[j], textOfType(t.types[j]))
				}
			}
			continue
		}
		if len(t.names) == 0 {
			continue
		}
		b.WriteString(strings.Join(t.names, " ") + "\n")
		b.WriteString(strings.Join(t.types, " ") + "\n")
		for k := 0; k < t.rows; k++ {
			var cells []string
			for _, typ := range t.types {
				cells = append(cells, textOfType(typ))
			}
			b.WriteString(strings.Join(cells, " ") + "\n")
		}
	}
	return b.String()
}

func (d plainDoc) doc(yaml bool, depth int) string {
	member := func(name string, v *jnode) *jnode {
		if yaml {
			return v
		}
		return jobj(name, v)
	}
	tables := jarr()
	for i, t := range d {
		md, data := jarr(), jarr()
		for j := range t.names {
			md.vals = append(md.vals, jobj(t.names[j], jstr(t.types[j])))
		}
		for k := 0; k < t.rows; k++ {
			row := jarr()
			for j := range t.names {
				row.vals = append(row.vals, member(t.names[j], plainCell(t.types[j], yaml)))
			}
			data.vals = append(data.vals, row)
		}
		table := jobj("tableName", jstr(t.name), "metadata", md, "data", data)
		for k := 0; k < depth; k++ {
			table = jobj("tableName", jstr(fmt.Sprintf("around_%d", i)), "metadata", jarr(jobj("t", jstr("*Table"))), "data", jarr(jarr(member("t", table))))
		}
		tables.vals = append(tables.vals, table)
	}
	doc := jobj("tableSetName", jstr(""), "tables", tables)
	if yaml {
		var b strings.Builder
		doc.writeFlow(&b)
		return b.String()
	}
	return doc.String()
}

func (d plainDoc) gob(c *Case) []bytes.Buffer {
	bufs := make([]bytes.Buffer, len(d)+1)
	for i, t := range d {
		gt := gobTable{TableName: t.name, ColNames: t.names, ColTypes: t.types, ColNamesMap: map[string]int{}}
		for j, n := range t.names {
			gt.ColNamesMap[n] = j
		}
		for k := 0; k < t.rows; k++ {
			var row []any
			for _, typ := range t.types {
				if !isTypeName(typ) || typ == "*Table" || typ == "time.Time" {
					row = append(row, 7)
				} else {
					row = append(row, zeroOf(typ))
				}
			}
			gt.Rows = append(gt.Rows, row)
		}
		if err := gob.NewEncoder(&bufs[i]).Encode(gt); err != nil {
			c.Failf("harness: GOB of %+v: %v", gt, err)
		}
	}
	if err := gob.NewEncoder(&bufs[len(d)]).Encode(gobHeader{}); err != nil {
		c.Failf("harness: %v", err)
	}
	return bufs
}

// allGood fails if any table or column in this set has a name or type that is none, or a name twice.
func allGood(c *Case, what string, ms []*MTable) {
	tables := map[string]bool{}
	for _, m := range ms {
		if m.Nil {
			continue
		}
		if !goodName(m.Name) {
			c.Failf("%s made a table with the name %q", what, m.Name)
		}
		if tables[m.Name] {
			c.Failf("%s made two tables with the name %q", what, m.Name)
		}
		tables[m.Name] = true
		cols := map[string]bool{}
		for _, col := range m.Cols {
			if !goodName(col.Name) {
				c.Failf("%s made a column with the name %q", what, col.Name)
			}
			if !isTypeName(col.Type) {
				c.Failf("%s made a column of type %q", what, col.Type)
			}
			if cols[col.Name] {
				c.Failf("%s made two columns with the name %q", what, col.Name)
			}
			cols[col.Name] = true
		}
		for _, row := range m.Rows {
			for _, v := range row {
				if sub, ok := v.(*MTable); ok && sub != nil {
					allGood(c, what, []*MTable{sub})
				}
			}
		}
	}
}

// same tells whether this set is what the document says.
func (d plainDoc) same(ms []*MTable, depth int) string {
	if len(ms) != len(d) {
		return fmt.Sprintf("%d tables, not %d", len(ms), len(d))
	}
	for i, t := range d {
		m := ms[i]
		for k := 0; k < depth; k++ {
			if len(m.Rows) != 1 || len(m.Rows[0]) != 1 {
				return "around it: " + m.String()
			}
			sub, _ := m.Rows[0][0].(*MTable)
			if sub == nil {
				return "around it: " + m.String()
			}
			m = sub
		}
		if m.Name != t.name || len(m.Cols) != len(t.names) || len(m.Rows) != t.rows {
			return m.String()
		}
		for j, col := range m.Cols {
			if col.Name != t.names[j] || col.Type != t.types[j] {
				return m.String()
			}
		}
	}
	return ""
}

// decode tries the document in every format. good: names and types are valid and no name is there twice.
// emptyTable: a table has no name (which makes it a NilTable where it is nested). flat: do not nest the tables.
func (d plainDoc) decode(c *Case, good, emptyTable, flat, gobToo bool) {
	r := c.R
	judge := func(what, src string, depth int, s *g.TableSet, err error, mustFail bool) {
		c.Logf("%s of %+v", what, d)
		if err == nil {
			ms := snapSet(s)
			allGood(c, what, ms)
			if good {
				if diff := d.same(ms, depth); diff != "" {
					c.Failf("%s is decoded as %s:\n%s", what, diff, src)
				}
				c.Ev("documents_accepted", 1)
				return
			}
			if mustFail {
				c.Failf("%s is decoded without error:\n%s", what, src)
			}
			c.Ev("documents_otherwise", 1)
			return
		}
		if good {
			c.Failf("%s: %v\n%s", what, err, src)
		}
		c.Ev("documents_refused", 1)
	}
	// In text, white space and a leading # mean something else.
	odd := false
	var all []string
	for _, t := range d {
		all = append(all, t.name)
		all = append(all, t.names...)
		all = append(all, t.types...)
	}
	for _, s := range all {
		odd = odd || s == "" || strings.ContainsAny(s, " \t\r\n\v\f\u0085\u00a0\u2028\u2029\u200b\ufeff#=[]") || strings.ToValidUTF8(s, "") != s
	}
	for _, structs := range []bool{false, true} {
		src := d.text(structs)
		s, err := g.NewTableSetFromString(src)
		judge("text", src, 0, s, err, !odd)
	}
	depth := 0
	if chance(r, 3) {
		depth = 1 + r.IntN(3)
	}
	if emptyTable || flat {
		depth = 0
	}
	src := d.doc(false, depth)
	s, err := g.NewTableSetFromJSON(src)
	judge("JSON", src, depth, s, err, !emptyTable)
	src = d.doc(true, depth)
	s, err = g.NewTableSetFromYAML(src)
	quoted := false
	for _, t := range d {
		for _, typ := range t.types {
			quoted = quoted || strings.HasPrefix(typ, `"`) || strings.HasSuffix(typ, `"`) // These are taken off, as documented there.
		}
	}
	judge("YAML", src, depth, s, err, !emptyTable && !quoted)
	if gobToo {
		s, err = g.NewTableSetFromGob(d.gob(c))
		judge("GOB", "", 0, s, err, true)
		if len(d) == 1 {
			t, err := g.NewTableFromGob(d.gob(c)[0].Bytes())
			if (err == nil) != good {
				c.Failf("NewTableFromGob of %+v: %v", d, err)
			}
			if err == nil {
				allGood(c, "NewTableFromGob", []*MTable{snapshot(t)})
			}
		}
	}
}

func runC30(c *Case) {
	r := c.R
	verdict := func(what, s string, good, ok bool, err error) {
		if ok != good || (err == nil) != good {
			c.Failf("%s(%q): %v, %v (valid: %v)", what, s, ok, err, good)
		}
	}
	did := func(what, s string, good bool, err error) bool {
		c.Logf("%s %q: %v", what, s, err)
		if (err == nil) != good {
			c.Failf("%s %q: %v (valid: %v)", what, s, err, good)
		}
		c.Ev("calls", 1)
		return err == nil
	}
	same := func(what string, t *g.Table, want *MTable) {
		if d := diffTables(want, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("after %s: %s", what, d)
		}
		checkInvariants(c, t, want)
	}
	some := func() (*g.Table, *MTable) {
		m := genTable(r, genOpts{maxCols: 6, maxRows: 3, shape: true, keys: true, noNilTable: true})
		return build(c, m), m
	}
	switch r.IntN(5) {
	case 0: // Names of tables.
		s := genAnyText(r)
		good := goodName(s)
		ok, err := g.IsValidTableName(s)
		verdict("IsValidTableName", s, good, ok, err)
		made := func(what string, t *g.Table, err error) {
			if did(what, s, good, err) {
				if t == nil || t.Name() != s {
					c.Failf("%s %q made a table with another name: %v", what, s, t)
				}
				if ok, err := t.IsValidTable(); !ok || err != nil {
					c.Failf("%s %q: IsValidTable: %v, %v", what, s, ok, err)
				}
			} else if t != nil {
				c.Failf("%s %q: an error and a table: %v", what, s, t)
			}
		}
		t, err := g.NewTable(s)
		made("NewTable", t, err)
		t, err = g.NewTableFromMetadata(s, []string{"k", "v"}, []string{"int", "string"})
		made("NewTableFromMetadata", t, err)
		src, m := some()
		if len(m.Rows) > 0 {
			t, err = src.NewTableFromRows(s, 0, len(m.Rows)-1)
			made("NewTableFromRows", t, err)
			same("NewTableFromRows", src, m)
		}
		keyed, err := g.NewTableFromString("[t]\nk\nint\n1\n2\n2\n3\n")
		if err == nil {
			err = keyed.SetSortKeys("k")
		}
		if err != nil {
			c.Failf("harness: %v", err)
		}
		t, err = keyed.NewTableFromRowsBySearchRange(s, 2)
		made("NewTableFromRowsBySearchRange", t, err)
		for i, rename := range []func(string) error{src.SetName, src.RenameTable} {
			if did([]string{"SetName", "Table.RenameTable"}[i], s, good, rename(s)) {
				m.Name = s
			}
			same("SetName", src, m)
		}
		nt := g.NewNilTable()
		if did("SetName of a NilTable", s, good, nt.SetName(s)) != (nt.Name() == s) && s != "" {
			c.Failf("NilTable is called %q", nt.Name())
		}
		if isNil, err := nt.IsNilTable(); isNil == good || err != nil {
			c.Failf("IsNilTable after SetName(%q): %v, %v", s, isNil, err)
		}
		// In a set, a name is taken once.
		n := logSize(r, 1, 40)
		names := genNames(r, n, nil)
		set, err := g.NewTableSet("")
		if err != nil {
			c.Failf("NewTableSet: %v", err)
		}
		for _, name := range names {
			t, err := g.NewTable(name)
			if err == nil {
				err = set.AppendTable(t)
			}
			if err != nil {
				c.Failf("AppendTable of %q: %v", name, err)
			}
		}
		at := r.IntN(n)
		to := s
		if chance(r, 2) {
			to = pick(r, names)
		}
		free := true
		for _, name := range names {
			free = free && name != to
		}
		if free || to != names[at] { // A table may keep its name.
			ok := goodName(to) && free
			if did("TableSet.RenameTable "+names[at], to, ok, set.RenameTable(names[at], to)) {
				names[at] = to
			}
			if x, err := set.GetTableByTableIndex(at); err != nil || x.Name() != names[at] {
				c.Failf("after RenameTable to %q: %v, %v", to, x, err)
			}
		}
		if extra, err := g.NewTable(pick(r, names)); err == nil {
			did("AppendTable of a table with the name of another", extra.Name(), false, set.AppendTable(extra))
			if set.TableCount() != n {
				c.Failf("set of %d tables has now %d", n, set.TableCount())
			}
		}
		// Documents.
		d := make(plainDoc, logSize(r, 1, 12))
		at = r.IntN(len(d))
		for i := range d {
			d[i].name = fmt.Sprintf("other_%d", i)
			d[i].names, d[i].types, d[i].rows = []string{"k"}, []string{"int"}, r.IntN(3)
		}
		d[at].name = s
		twice := len(d) > 1 && chance(r, 3)
		if twice {
			d[(at+1+r.IntN(len(d)-1))%len(d)].name = s
		}
		dup := strings.HasPrefix(s, "other_")
		if !dup {
			d.decode(c, good && !twice, s == "", twice, true)
		}
		// As a cell of a text.
		if !strings.ContainsAny(s, "[]\r\n") {
			src := "[t]\nx\n*Table\n[" + s + "]\n"
			set, err := g.NewTableSetFromString(src)
			c.Logf("cell [%s]: %v", s, err)
			if (err == nil) != (good || s == "") {
				c.Failf("text with cell [%s]: %v", s, err)
			}
			if err == nil {
				ms := snapSet(set)
				allGood(c, "text", ms)
				sub, _ := ms[0].Rows[0][0].(*MTable)
				if sub == nil || sub.Nil != (s == "") || sub.Name != s {
					c.Failf("text with cell [%s] has %v in it", s, sub)
				}
			}
		}
		c.Ev("table_names", 1)
		if good {
			c.Ev("valid", 1)
		} else {
			c.Ev("invalid", 1)
		}
		c.Distinct("table", s)
	case 1: // Names of columns.
		s := genAnyText(r)
		good := goodName(s)
		ok, err := g.IsValidColName(s)
		verdict("IsValidColName", s, good, ok, err)
		t, m := some()
		free := m.colIndex(s) < 0
		typ := pick(r, allTypes)
		if did("AppendCol", s, good && free, t.AppendCol(s, typ)) {
			m.Cols = append(m.Cols, MCol{s, typ})
			for i := range m.Rows {
				m.Rows[i] = append(m.Rows[i], zeroOf(typ))
			}
		}
		same("AppendCol", t, m)
		t, m = some()
		if len(m.Cols) > 0 {
			at := r.IntN(len(m.Cols))
			old := m.Cols[at].Name
			if s != old {
				ok := good && m.colIndex(s) < 0
				var err error
				what := "RenameCol"
				if chance(r, 2) {
					err = t.RenameCol(old, s)
				} else {
					what = "RenameColByColIndex"
					err = t.RenameColByColIndex(at, s)
				}
				if did(what+" "+old, s, ok, err) {
					m.renameKey(old, s)
					m.Cols[at].Name = s
				}
				same(what, t, m)
			}
		}
		keyed, err := g.NewTableFromString("[t]\nkk\nint\n1\n2\n3\n")
		if err == nil {
			err = keyed.SetSortKeys("kk")
		}
		if err != nil {
			c.Failf("harness: %v", err)
		}
		inner, err := g.NewTableFromString("[u]\nkk\nint\n2\n2\n")
		if err != nil {
			c.Failf("harness: %v", err)
		}
		did("Nest", s, good && s != "kk", keyed.Nest(inner, s))
		// Many columns, one with this name.
		n := logSize(r, 1, 60)
		d := make(plainDoc, 1)
		d[0].name = "t"
		d[0].rows = r.IntN(3)
		at := r.IntN(n)
		for i := 0; i < n; i++ {
			d[0].names = append(d[0].names, fmt.Sprintf("col_%d", i))
			d[0].types = append(d[0].types, pick(r, gobTypes))
		}
		if chance(r, 3) {
			d[0].types[at] = pick(r, allTypes)
		}
		d[0].names[at] = s
		twice := n > 1 && chance(r, 3)
		if twice {
			d[0].names[(at+1+r.IntN(n-1))%n] = s
		}
		if !strings.HasPrefix(s, "col_") {
			t, err := g.NewTableFromMetadata("t", append([]string{}, d[0].names...), append([]string{}, d[0].types...))
			if did("NewTableFromMetadata", s, good && !twice, err) {
				if diff := (plainDoc{{"t", d[0].names, d[0].types, 0}}).same([]*MTable{snapshot(t)}, 0); diff != "" {
					c.Failf("NewTableFromMetadata makes %s", diff)
				}
			} else if t != nil {
				c.Failf("NewTableFromMetadata: an error and a table: %v", t)
			}
			gobToo := true
			for _, typ := range d[0].types {
				gobToo = gobToo && typ != "*Table" && typ != "time.Time"
			}
			if gobToo || d[0].rows > 0 {
				d.decode(c, good && !twice, false, false, gobToo)
			}
		}
		c.Ev("column_names", 1)
		if good {
			c.Ev("valid", 1)
		} else {
			c.Ev("invalid", 1)
		}
		c.Distinct("column", s)
	case 2: // Types.
		s := genAnyType(r)
		good := isTypeName(s)
		ok, err := g.IsValidColType(s)
		verdict("IsValidColType", s, good, ok, err)
		judgeKinds(c, s)
		t, m := some()
		if m.colIndex("new_col") < 0 {
			if did("AppendCol of type", s, good, t.AppendCol("new_col", s)) {
				m.Cols = append(m.Cols, MCol{"new_col", s})
				for i := range m.Rows {
					m.Rows[i] = append(m.Rows[i], zeroOf(s))
				}
			}
			same("AppendCol", t, m)
		}
		n := logSize(r, 1, 60)
		d := make(plainDoc, 1)
		d[0].name = "t"
		d[0].rows = r.IntN(3)
		at := r.IntN(n)
		for i := 0; i < n; i++ {
			d[0].names = append(d[0].names, fmt.Sprintf("col_%d", i))
			d[0].types = append(d[0].types, pick(r, gobTypes))
		}
		d[0].types[at] = s
		mt, err := g.NewTableFromMetadata("t", append([]string{}, d[0].names...), append([]string{}, d[0].types...))
		if did("NewTableFromMetadata of type", s, good, err) {
			if diff := (plainDoc{{"t", d[0].names, d[0].types, 0}}).same([]*MTable{snapshot(mt)}, 0); diff != "" {
				c.Failf("NewTableFromMetadata makes %s", diff)
			}
		} else if mt != nil {
			c.Failf("NewTableFromMetadata: an error and a table: %v", mt)
		}
		d.decode(c, good, false, false, s != "*Table" && s != "time.Time")
		c.Ev("types", 1)
		if good {
			c.Ev("valid", 1)
		} else {
			c.Ev("invalid", 1)
		}
		c.Distinct("type", s)
	case 3: // The list of types, and all that is said of each of them.
		list := strings.Fields(g.TypesList())
		seen := map[string]bool{}
		for _, typ := range list {
			if !isTypeName(typ) || seen[typ] {
				c.Failf("TypesList: %v", list)
			}
			seen[typ] = true
		}
		if len(list) != len(allTypes) || !sort.StringsAreSorted(list) {
			c.Failf("TypesList is not the sorted list of the %d types: %v", len(allTypes), list)
		}
		for _, typ := range allTypes {
			judgeKinds(c, typ)
		}
		t, m := some()
		for i, col := range m.Cols {
			ct, err := t.ColTypeByColIndex(i)
			if ct != col.Type || err != nil {
				c.Failf("ColTypeByColIndex(%d): %s, %v", i, ct, err)
			}
		}
		c.Ev("lists", 1)
		c.Distinct("list", m.fullKey())
	case 4: // Which Go values fit in a column of each type.
		t, m := some()
		if len(m.Cols) == 0 {
			return
		}
		values := map[string]any{}
		for _, typ := range allTypes {
			values[typ] = zeroOf(typ)
		}
		values["*Table"] = g.NewNilTable()
		values["complex128"] = complex(0, 0)
		values["nil"] = nil
		values["[]int"] = []int{1}
		values["uintptr"] = uintptr(0)
		values["map"] = map[string]int{}
		values["Table"] = g.Table{}
		values["*int"] = new(int)
		values["duration"] = time.Second
		values["error"] = fmt.Errorf("x")
		type myInt int
		values["myInt"] = myInt(1)
		type myString string
		values["myString"] = myString("x")
		values["[1]byte"] = [1]byte{}
		var names []string
		for name := range values {
			names = append(names, name)
		}
		sort.Strings(names)
		at := r.IntN(len(m.Cols))
		col := m.Cols[at]
		for _, name := range names {
			if name == "*Table" {
				continue // Its own rules: C26 and C16.
			}
			v := values[name]
			fits := hasGoType(col.Type, v) && v != nil
			ok, err := t.IsValidCellValue(col.Name, v)
			ok2, err2 := t.IsValidColValue(col.Name, v)
			if ok != fits || (err == nil) != fits || ok2 != ok || (err2 == nil) != (err == nil) {
				c.Failf("a %T in column %s of type %s: IsValidCellValue %v, %v; IsValidColValue %v, %v", v, col.Name, col.Type, ok, err, ok2, err2)
			}
			if len(m.Rows) > 0 {
				row := r.IntN(len(m.Rows))
				did(fmt.Sprintf("SetVal of a %T in a column of type", v), col.Type, fits, t.SetVal(col.Name, row, v))
				if fits {
					m.Rows[row][at] = v
				}
			}
			c.Ev("values", 1)
		}
		same("SetVal", t, m)
		c.Distinct("values", m.fullKey())
	}
}

// judgeKinds compares the predicates on types.
func judgeKinds(c *Case, s string) {
	slice := s == "[]byte" || s == "[]uint8"
	if g.IsSliceColType(s) != slice {
		c.Failf("IsSliceColType(%q): %v", s, !slice)
	}
	if g.IsTableColType(s) != (s == "*Table") {
		c.Failf("IsTableColType(%q): %v", s, s != "*Table")
	}
	numeric := false
	switch s {
	case "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8":
		numeric = true
	}
	if s != "complex" && g.IsNumericColType(s) != numeric {
		c.Failf("IsNumericColType(%q): %v", s, !numeric)
	}
	c.Ev("predicates", 3)
}

func init() {
	register(&Prop{ID: "C30", Quick: 150000, Thorough: 4000000, Run: runC30,
		Rule: "a case gives one name or type (valid, nearly valid, or neither) to every call and every kind of document that takes one, and compares each answer with an own rule; distinct is counted over names and types",
		Need: []string{"table_names", "column_names", "types", "valid", "invalid", "calls", "documents_accepted", "documents_refused", "predicates", "values"},
		Assume: []string{"in text, white space, # and = have a meaning of their own, so that a name with them in it may be read as something else (which must then be valid)",
			"a double quote around a type in YAML is taken off"}})
}
