package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
	yaml "gopkg.in/yaml.v3"
)

// ---------------------------------------------------------------- what a codec can represent

// walkModel visits every cell, nested ones included.
func (m *MTable) walkCells(f func(t *MTable, col MCol, v any)) {
	for _, r := range m.Rows {
		for i, v := range r {
			f(m, m.Cols[i], v)
			if t, ok := v.(*MTable); ok && t != nil {
				t.walkCells(f)
			}
		}
	}
}

// jsonRefuses says why JSON cannot hold a table, or "".
func jsonRefuses(m *MTable) (why string) {
	m.walkCells(func(_ *MTable, _ MCol, v any) {
		switch x := v.(type) {
		case float64:
			if math.IsNaN(x) || math.IsInf(x, 0) {
				why = "NaN or Inf"
			}
		case float32:
			if x != x || math.IsInf(float64(x), 0) {
				why = "NaN or Inf"
			}
		case string:
			if !utf8.ValidString(x) {
				why = "invalid UTF-8"
			}
		}
	})
	return
}

func codecOpts(c *Case, representable bool) genOpts {
	o := genOpts{emptyRows: true, minCols: 0, maxCols: 8, minRows: 0, maxRows: 10, depth: 3, bigStrings: true, shape: true, keys: true}
	if representable {
		o.utf8Only, o.noNaN, o.noInf = true, true, true
	}
	if c.Idx%97 == 0 {
		o.maxRows, o.maxCols, o.depth = 300, 4, 1
	}
	if c.Idx%89 == 0 {
		o.depth, o.maxRows, o.maxCols = 12, 2, 3
		o.types = []string{"*Table", "int", "*Table", "string"}
	}
	if large(c, &o, 997) {
		return o
	}
	if chance(c.R, 4) {
		o.types = []string{pick(c.R, allTypes), pick(c.R, allTypes)}
	}
	return o
}

var jsonCmp = cmpOpts{noKeys: true}

// nestInItself makes a circular arrangement: some table of the nesting is stored below itself.
func nestInItself(c *Case, t *g.Table, depth int) {
	must := func(err error) {
		if err != nil {
			c.Failf("nesting: %v", err)
		}
	}
	cur := t
	for i := 0; i < depth; i++ {
		n, err := g.NewTable(fmt.Sprintf("below%d", i))
		must(err)
		col := fmt.Sprintf("nested%d", i)
		must(cur.AppendCol(col, "*Table"))
		if cur.RowCount() == 0 {
			must(cur.AppendRow())
		}
		must(cur.SetTable(col, c.R.IntN(cur.RowCount()), n))
		cur = n
	}
	must(cur.AppendCol("back", "*Table"))
	must(cur.AppendRows(1 + c.R.IntN(2)))
	must(cur.SetTable("back", cur.RowCount()-1, t))
}

func runC05(c *Case) {
	r := c.R
	representable := !chance(r, 4)
	o := codecOpts(c, representable)
	if chance(r, 2) {
		m := genTable(r, o)
		widen(c, m)
		c.Logf("table %v", m)
		t := buildSame(c, m)
		compact, e1 := t.GetTableAsJSON()
		indent, e2 := t.GetTableAsJSONIndent()
		if why := jsonRefuses(m); why != "" {
			if e1 == nil || e2 == nil {
				c.Failf("table with %s is encoded (%v, %v) as %s", why, e1, e2, compact)
			}
			c.Ev("refused", 1)
			c.Distinct("refused", m.fullKey())
			return
		}
		if e1 != nil || e2 != nil {
			c.Failf("table is not encoded: %v, %v: %v", e1, e2, m)
		}
		for _, text := range []string{compact, indent} {
			c.Logf("JSON %s", text)
			t2, err := g.NewTableFromJSON(text)
			if err != nil {
				c.Failf("JSON of a table is not decoded: %v: %s", err, text)
			}
			disturb(c)
			if d := diffTables(m, snapshot(t2), jsonCmp); d != "" {
				c.Failf("JSON round trip: %s\n%s", d, text)
			}
			checkInvariants(c, t2, snapshot(t2))
			t3, err := g.NewTableFromJSONByTableName(text, m.Name)
			if err != nil {
				c.Failf("NewTableFromJSONByTableName(%q): %v", m.Name, err)
			}
			if d := diffTables(m, snapshot(t3), jsonCmp); d != "" {
				c.Failf("NewTableFromJSONByTableName: %s", d)
			}
			// The decoded table encodes to the same text.
			if again, err := t2.GetTableAsJSON(); err != nil || again != compact {
				c.Failf("decoded table encodes differently: %v\n%s\n%s", err, compact, again)
			}
			decodeAgain(c, "decoding JSON", t2, func() (*g.Table, error) { return g.NewTableFromJSON(text) })
		}
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("encoding changed the table: %s", d)
		}
		c.Ev("tables", 1)
		c.Ev("cells", m.cellCount())
		if m.depth() > 0 {
			c.Ev("nested", 1)
		}
		if m.cellCount() > 0 {
			c.Distinct(m.fullKey())
			c.Sample(compact)
		}
		if chance(r, 10) {
			nestInItself(c, t, r.IntN(4))
			if s, err := t.GetTableAsJSON(); err == nil {
				c.Failf("a table nested in itself is encoded as %s", s)
			}
			c.Ev("refused_circular", 1)
		}
		return
	}

	ms := genSet(r, manyTables(c, logSize(r, 0, 5), 3001), o)
	name := ""
	if chance(r, 2) {
		name = genName(r)
	}
	s := buildSet(c, name, ms)
	c.Logf("set %q: %s", name, setString(ms))
	why := ""
	for _, m := range ms {
		if w := jsonRefuses(m); w != "" {
			why = w
		}
	}
	compact, e1 := s.GetTableSetAsJSON()
	indent, e2 := s.GetTableSetAsJSONIndent()
	if why != "" {
		if e1 == nil || e2 == nil {
			c.Failf("set with %s is encoded (%v, %v) as %s", why, e1, e2, compact)
		}
		c.Ev("refused", 1)
		return
	}
	if e1 != nil || e2 != nil {
		c.Failf("set is not encoded: %v, %v: %v", e1, e2, setString(ms))
	}
	for _, text := range []string{compact, indent} {
		s2, err := g.NewTableSetFromJSON(text)
		if err != nil {
			c.Failf("JSON of a set is not decoded: %v: %s", err, text)
		}
		if s2.Name() != name {
			c.Failf("set name %q became %q", name, s2.Name())
		}
		disturb(c)
		if d := diffSets(ms, snapSet(s2), jsonCmp); d != "" {
			c.Failf("JSON round trip of a set: %s\n%s", d, text)
		}
		for _, i := range someOf(r, len(ms)) {
			m := ms[i]
			t, err := g.NewTableFromJSONByTableName(text, m.Name)
			if err != nil {
				c.Failf("NewTableFromJSONByTableName(%q): %v", m.Name, err)
			}
			if d := diffTables(m, snapshot(t), jsonCmp); d != "" {
				c.Failf("NewTableFromJSONByTableName(%q): %s", m.Name, d)
			}
		}
		if _, err := g.NewTableFromJSONByTableName(text, "no_such_table_"); err == nil {
			c.Failf("NewTableFromJSONByTableName of a missing table gives no error")
		}
	}
	c.Ev("sets", 1)
	if len(ms) > 1 {
		c.Distinct(name, setString(ms))
	}
}

// ---------------------------------------------------------------- C06: an independent reading of the JSON

// jnode is JSON read in order.
type jnode struct {
	kind string // obj arr str num bool null
	keys []string
	vals []*jnode
	s    string
	b    bool
}

func readJSON(d *json.Decoder) (*jnode, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case json.Delim:
		switch x {
		case '{':
			n := &jnode{kind: "obj"}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := readJSON(d)
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, k.(string))
				n.vals = append(n.vals, v)
			}
			_, err := d.Token()
			return n, err
		case '[':
			n := &jnode{kind: "arr"}
			for d.More() {
				v, err := readJSON(d)
				if err != nil {
					return nil, err
				}
				n.vals = append(n.vals, v)
			}
			_, err := d.Token()
			return n, err
		}
	case string:
		return &jnode{kind: "str", s: x}, nil
	case json.Number:
		return &jnode{kind: "num", s: string(x)}, nil
	case bool:
		return &jnode{kind: "bool", b: x}, nil
	case nil:
		return &jnode{kind: "null"}, nil
	}
	return nil, fmt.Errorf("unexpected token %v", tok)
}

func parseJSON(text string) (*jnode, error) {
	if !json.Valid([]byte(text)) {
		return nil, fmt.Errorf("not valid JSON")
	}
	if !utf8.ValidString(text) {
		return nil, fmt.Errorf("not valid UTF-8")
	}
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	n, err := readJSON(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one document")
	}
	return n, nil
}

func (n *jnode) get(key string) *jnode {
	var found *jnode
	for i, k := range n.keys {
		if k == key {
			if found != nil {
				panic(violation{"duplicate key " + key})
			}
			found = n.vals[i]
		}
	}
	return found
}

func (n *jnode) write(b *strings.Builder) {
	switch n.kind {
	case "obj":
		b.WriteByte('{')
		for i := range n.keys {
			if i > 0 {
				b.WriteByte(',')
			}
			k, _ := json.Marshal(n.keys[i])
			b.Write(k)
			b.WriteByte(':')
			n.vals[i].write(b)
		}
		b.WriteByte('}')
	case "arr":
		b.WriteByte('[')
		for i := range n.vals {
			if i > 0 {
				b.WriteByte(',')
			}
			n.vals[i].write(b)
		}
		b.WriteByte(']')
	case "str":
		k, _ := json.Marshal(n.s)
		b.Write(k)
	case "num":
		b.WriteString(n.s)
	case "bool":
		b.WriteString(strconv.FormatBool(n.b))
	case "null":
		b.WriteString("null")
	}
}

func (n *jnode) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func intAsBig(v any) *big.Int {
	n, ok := new(big.Int).SetString(fmt.Sprint(v), 10)
	if !ok {
		panic(fmt.Sprintf("intAsBig %T", v))
	}
	return n
}

// judgeJSONTable checks an independently read JSON object against the table it came from.
func judgeJSONTable(c *Case, n *jnode, m *MTable) {
	if n.kind != "obj" {
		c.Failf("table [%s] is written as %s", m.Name, n)
	}
	for _, k := range n.keys {
		if k != "tableName" && k != "isStructShape" && k != "metadata" && k != "data" {
			c.Failf("unexpected key %q", k)
		}
	}
	if x := n.get("tableName"); x == nil || x.kind != "str" || x.s != m.Name {
		c.Failf("tableName of [%s] is %v", m.Name, x)
	}
	md := n.get("metadata")
	if md == nil || md.kind != "arr" || len(md.vals) != len(m.Cols) {
		c.Failf("metadata of [%s] is %v: expecting %v", m.Name, md, m.Cols)
	}
	for i, x := range md.vals {
		if x.kind != "obj" || len(x.keys) != 1 || x.keys[0] != m.Cols[i].Name || x.vals[0].kind != "str" || x.vals[0].s != m.Cols[i].Type {
			c.Failf("metadata %d of [%s] is %s: expecting %v", i, m.Name, x, m.Cols[i])
		}
	}
	data := n.get("data")
	if data == nil || data.kind != "arr" || len(data.vals) != len(m.Rows) {
		c.Failf("data of [%s] is %v: expecting %d rows", m.Name, data, len(m.Rows))
	}
	for r, row := range data.vals {
		if row.kind != "arr" || len(row.vals) != len(m.Cols) {
			c.Failf("row %d of [%s] is %s: expecting %d cells", r, m.Name, row, len(m.Cols))
		}
		for i, x := range row.vals {
			if x.kind != "obj" || len(x.keys) != 1 || x.keys[0] != m.Cols[i].Name {
				c.Failf("cell %d,%d of [%s] is %s: expecting %v", i, r, m.Name, x, m.Cols[i])
			}
			judgeJSONCell(c, m, m.Cols[i], x.vals[0], m.Rows[r][i])
			c.Ev("json_cells", 1)
		}
	}
}

func judgeJSONCell(c *Case, m *MTable, col MCol, x *jnode, v any) {
	bad := func() { c.Failf("[%s] col %v holds %s but JSON says %s", m.Name, col, showVal(v), x) }
	switch val := v.(type) {
	case bool:
		if x.kind != "bool" || x.b != val {
			bad()
		}
	case string:
		if x.kind != "str" || x.s != val {
			bad()
		}
	case float64:
		f, err := strconv.ParseFloat(x.s, 64)
		if x.kind != "num" || err != nil || math.Float64bits(f) != math.Float64bits(val) {
			bad()
		}
	case float32:
		f, err := strconv.ParseFloat(x.s, 32)
		if x.kind != "num" || err != nil || math.Float32bits(float32(f)) != math.Float32bits(val) {
			bad()
		}
	case []byte:
		if x.kind != "arr" || len(x.vals) != len(val) {
			bad()
		}
		for i, e := range x.vals {
			if e.kind != "num" || e.s != strconv.Itoa(int(val[i])) {
				bad()
			}
		}
	case *MTable:
		if val.Nil {
			if x.kind != "null" {
				bad()
			}
			return
		}
		judgeJSONTable(c, x, val)
	default:
		switch col.Type {
		case "rune":
			if x.kind != "str" || x.s != string(v.(rune)) {
				bad()
			}
		case "time.Time":
			if x.kind != "str" {
				bad()
			}
			// RFC 3339, read independently.
			if !eqVal(v, readRFC3339(c, x.s), cmpOpts{}) {
				bad()
			}
		default:
			rat, ok := new(big.Rat).SetString(x.s)
			if x.kind != "num" || !ok || !rat.IsInt() || rat.Num().Cmp(intAsBig(v)) != 0 {
				bad()
			}
		}
	}
}

// readRFC3339 reads a date and time field by field.
func readRFC3339(c *Case, s string) time.Time {
	bad := func() time.Time { c.Failf("%q is not RFC 3339", s); return time.Time{} }
	if len(s) < 20 || s[4] != '-' || s[7] != '-' || s[10] != 'T' || s[13] != ':' || s[16] != ':' {
		return bad()
	}
	num := func(a, b int) int {
		n, err := strconv.Atoi(s[a:b])
		if err != nil {
			bad()
		}
		return n
	}
	y, mo, d, h, mi, sec := num(0, 4), num(5, 7), num(8, 10), num(11, 13), num(14, 16), num(17, 19)
	i, ns := 19, 0
	if s[i] == '.' {
		scale := 100000000
		for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			ns += int(s[i]-'0') * scale
			scale /= 10
		}
	}
	loc := time.UTC
	switch {
	case s[i:] == "Z":
	case len(s) == i+6 && (s[i] == '+' || s[i] == '-') && s[i+3] == ':':
		off := num(i+1, i+3)*3600 + num(i+4, i+6)*60
		if s[i] == '-' {
			off = -off
		}
		loc = time.FixedZone("", off)
	default:
		return bad()
	}
	return time.Date(y, time.Month(mo), d, h, mi, sec, ns, loc)
}

func runC06(c *Case) {
	r := c.R
	o := codecOpts(c, true)
	ms := genSet(r, manyTables(c, logSize(r, 0, 4), 3001), o)
	if len(ms) > 0 {
		widen(c, ms[0])
	}
	single := chance(r, 2) && len(ms) > 0
	name := ""
	if chance(r, 2) && !single {
		name = genName(r)
		if chance(r, 3) {
			name = genString(r, genOpts{emptyRows: true, utf8Only: true})
		}
	}
	var compact, indent string
	var e1, e2 error
	if single {
		ms = ms[:1]
		t := buildSame(c, ms[0])
		compact, e1 = t.GetTableAsJSON()
		indent, e2 = t.GetTableAsJSONIndent()
	} else {
		s := buildSet(c, name, ms)
		compact, e1 = s.GetTableSetAsJSON()
		indent, e2 = s.GetTableSetAsJSONIndent()
	}
	if e1 != nil || e2 != nil {
		c.Failf("not encoded: %v, %v: %s", e1, e2, setString(ms))
	}
	c.Logf("set %q %s\nJSON %s", name, setString(ms), compact)
	n, err := parseJSON(compact)
	if err != nil {
		c.Failf("output is refused by a JSON reader: %v: %s", err, compact)
	}
	n2, err := parseJSON(indent)
	if err != nil {
		c.Failf("indented output is refused by a JSON reader: %v: %s", err, indent)
	}
	if n.String() != n2.String() {
		c.Failf("compact and indented differ:\n%s\n%s", compact, indent)
	}
	if x := n.get("tableSetName"); x == nil || x.kind != "str" || x.s != name {
		c.Failf("tableSetName is %v: expecting %q", x, name)
	}
	tables := n.get("tables")
	if tables == nil || tables.kind != "arr" || len(tables.vals) != len(ms) {
		c.Failf("tables is %v: expecting %d", tables, len(ms))
	}
	for i, x := range tables.vals {
		judgeJSONTable(c, x, ms[i])
		if ms[i].cellCount() > 0 {
			c.Distinct(ms[i].fullKey())
		}
	}
	c.Ev("documents", 2)
	c.Sample(compact)
}

// ---------------------------------------------------------------- C07

var yamlCmp = cmpOpts{noKeys: true, signlessZ: true}

func runC07(c *Case) {
	r := c.R
	o := codecOpts(c, false)
	ms := genSet(r, manyTables(c, logSize(r, 0, 4), 3001), o)
	if len(ms) > 0 {
		widen(c, ms[0])
	}
	name := ""
	if chance(r, 2) {
		name = genName(r)
		if chance(r, 3) {
			name = genString(r, genOpts{emptyRows: true})
		}
	}
	s := buildSet(c, name, ms)
	c.Logf("set %q %s", name, setString(ms))
	text, err := s.GetTableSetAsYAML()
	if err != nil {
		c.Failf("set is not encoded: %v: %s", err, setString(ms))
	}
	c.Logf("YAML %s", text)
	s2, err := g.NewTableSetFromYAML(text)
	if err != nil {
		c.Failf("YAML of a set is not decoded: %v\n%s\n%s", err, setString(ms), text)
	}
	if s2.Name() != name {
		c.Failf("set name %q became %q\n%s", name, s2.Name(), text)
	}
	disturb(c)
	if d := diffSets(ms, snapSet(s2), yamlCmp); d != "" {
		c.Failf("YAML round trip: %s\n%s", d, text)
	}
	if len(ms) > 0 {
		i := r.IntN(len(ms))
		t, _ := s2.GetTableByTableIndex(i)
		decodeAgain(c, "decoding YAML", t, func() (*g.Table, error) {
			s3, err := g.NewTableSetFromYAML(text)
			if err != nil {
				return nil, err
			}
			return s3.GetTableByTableIndex(i)
		})
	}
	if d := diffSets(ms, snapSet(s), cmpOpts{}); d != "" {
		c.Failf("encoding changed the set: %s", d)
	}
	// It is YAML, and says the same to a plain reader.
	var doc struct {
		TableSetName *string `yaml:"tableSetName"`
		Tables       []struct {
			TableName string              `yaml:"tableName"`
			Metadata  []map[string]string `yaml:"metadata"`
			Data      [][]yaml.Node       `yaml:"data"`
		} `yaml:"tables"`
	}
	if err := yaml.Unmarshal([]byte(text), &doc); err != nil {
		c.Failf("a YAML reader refuses the output: %v\n%s", err, text)
	}
	if len(doc.Tables) != len(ms) {
		c.Failf("a YAML reader finds %d tables, not %d\n%s", len(doc.Tables), len(ms), text)
	}
	for i, t := range doc.Tables {
		if t.TableName != ms[i].Name || len(t.Metadata) != len(ms[i].Cols) || len(t.Data) != len(ms[i].Rows) {
			c.Failf("a YAML reader finds table %q with %d cols and %d rows: expecting %v", t.TableName, len(t.Metadata), len(t.Data), ms[i])
		}
		for j, md := range t.Metadata {
			if got := strings.Trim(md[ms[i].Cols[j].Name], `"`); len(md) != 1 || got != ms[i].Cols[j].Type {
				c.Failf("a YAML reader finds metadata %v: expecting %v", md, ms[i].Cols[j])
			}
		}
	}
	for _, m := range ms {
		c.Ev("tables", 1)
		c.Ev("cells", m.cellCount())
		if m.depth() > 0 {
			c.Ev("nested", 1)
		}
		if m.cellCount() > 0 {
			c.Distinct(m.fullKey())
		}
	}
	c.Sample(text)
	if chance(r, 10) && len(ms) > 0 {
		t, _ := s.GetTableByTableIndex(r.IntN(len(ms)))
		nestInItself(c, t, r.IntN(4))
		if y, err := s.GetTableSetAsYAML(); err == nil {
			c.Failf("a table nested in itself is encoded as %s", y)
		}
		c.Ev("refused_circular", 1)
	}
}

// ---------------------------------------------------------------- C08

var gobTypes = func() (out []string) {
	for _, t := range allTypes {
		if t != "*Table" && t != "time.Time" {
			out = append(out, t)
		}
	}
	return
}()

func runC08(c *Case) {
	r := c.R
	o := genOpts{emptyRows: true, types: gobTypes, minCols: 0, maxCols: 9, minRows: 0, maxRows: 14, shape: true, keys: true, bigStrings: true}
	if c.Idx%97 == 0 {
		o.maxRows = 400
	}
	large(c, &o, 997)
	if chance(r, 4) {
		o.smallValues = true
	}
	// The decoded table is judged, then the source is changed, then judged again; and the other way.
	independent := func(m *MTable, t, t2 *g.Table) {
		before := snapshot(t2)
		scramble(c, t)
		if d := diffTables(before, snapshot(t2), cmpOpts{}); d != "" {
			c.Failf("changing the encoded table changed the decoded one: %s", d)
		}
		before = snapshot(t)
		scramble(c, t2)
		if d := diffTables(before, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("changing the decoded table changed the encoded one: %s", d)
		}
		c.Ev("independence", 2)
	}
	switch r.IntN(8) {
	case 0: // A table that GOB cannot hold is refused.
		o.types = append(append([]string(nil), gobTypes...), "*Table", "time.Time", "*Table", "time.Time")
		o.minCols, o.minRows, o.depth = 1, 1, 1
		m := genTable(r, o)
		widen(c, m)
		t := buildSame(c, m)
		if !m.hasType("*Table") && !m.hasType("time.Time") {
			return
		}
		buf, err := t.GobEncode()
		if err != nil {
			c.Ev("refused", 1)
			c.Distinct("refused", m.fullKey())
			return
		}
		t2, err := g.NewTableFromGob(buf)
		if err != nil {
			c.Ev("refused", 1)
			return
		}
		if d := diffTables(m, snapshot(t2), cmpOpts{}); d != "" {
			c.Failf("a table which GOB cannot hold is encoded as something else: %s", d)
		}
	case 1, 2:
		ms := genSet(r, manyTables(c, logSize(r, 0, 5), 3001), o)
		name := genString(r, genOpts{emptyRows: true})
		s := buildSet(c, name, ms)
		c.Logf("set %q %s", name, setString(ms))
		if chance(r, 2) {
			s.SetFileName("some/file.got")
		}
		bufs, err := s.GobEncode()
		if err != nil {
			c.Failf("set is not encoded: %v: %s", err, setString(ms))
		}
		disturb(c)
		s2, err := g.NewTableSetFromGob(bufs)
		if err != nil {
			c.Failf("set is not decoded: %v: %s", err, setString(ms))
		}
		disturb(c)
		if s2.Name() != name || s2.FileName() != s.FileName() {
			c.Failf("set name %q file %q became %q %q", name, s.FileName(), s2.Name(), s2.FileName())
		}
		if d := diffSets(ms, snapSet(s2), cmpOpts{}); d != "" {
			c.Failf("GOB round trip of a set: %s", d)
		}
		for i, m := range ms {
			a, _ := s.GetTableByTableIndex(i)
			b, _ := s2.GetTableByTableIndex(i)
			independent(m, a, b)
		}
		c.Ev("sets", 1)
		if len(ms) > 1 {
			c.Distinct(setString(ms))
		}
	default:
		m := genTable(r, o)
		c.Logf("table %v", m)
		t := buildSame(c, m)
		buf, err := t.GobEncode()
		if err != nil {
			c.Failf("table is not encoded: %v: %v", err, m)
		}
		disturb(c)
		own := append([]byte(nil), buf...)
		t2, err := g.NewTableFromGob(own)
		if err != nil {
			c.Failf("table is not decoded: %v: %v", err, m)
		}
		if !bytes.Equal(own, buf) {
			c.Failf("decoding changed its input")
		}
		for i := range own {
			own[i] = 0xEE // The caller may use its buffer again.
		}
		disturb(c)
		if d := diffTables(m, snapshot(t2), cmpOpts{}); d != "" {
			c.Failf("GOB round trip: %s", d)
		}
		checkInvariants(c, t2, snapshot(t2))
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("encoding changed the table: %s", d)
		}
		// The decoded sort keys work.
		if len(m.Keys) > 0 {
			if err := t2.Sort(); err != nil {
				c.Failf("sorting the decoded table: %v", err)
			}
			m2 := snapshot(t2)
			for i := 1; i < len(m2.Rows); i++ {
				if m2.keyCompare(m2.Keys, m2.Rows[i-1], m2.Rows[i]) > 0 {
					c.Failf("decoded table does not sort by its keys %v: rows %d and %d", m2.Keys, i-1, i)
				}
			}
			c.Ev("keys", 1)
			t2, _ = g.NewTableFromGob(buf)
		}
		decodeAgain(c, "decoding GOB", t2, func() (*g.Table, error) { return g.NewTableFromGob(buf) })
		independent(m, t, t2)
		c.Ev("tables", 1)
		c.Ev("cells", m.cellCount())
		if m.cellCount() > 0 {
			c.Distinct(m.fullKey())
			c.Sample(m.String())
		}
	}
}

// scramble changes a table in many ways: cells, bytes of byte slices, names, rows, columns, keys.
func scramble(c *Case, t *g.Table) {
	r := c.R
	m := snapshot(t)
	for n := 1 + r.IntN(6); n > 0; n-- {
		switch r.IntN(7) {
		case 0, 1, 2:
			if len(m.Cols) > 0 && len(m.Rows) > 0 {
				i, j := r.IntN(len(m.Cols)), r.IntN(len(m.Rows))
				typ := m.Cols[i].Type
				if (typ == "[]byte" || typ == "[]uint8") && chance(r, 2) {
					v, _ := t.GetValByColIndex(i, j)
					b := v.([]byte)
					for k := range b {
						b[k] ^= 0xA5
					}
					continue
				}
				if typ != "*Table" {
					t.SetValByColIndex(i, j, buildVal(c, genVal(r, typ, genOpts{emptyRows: true})))
				}
			}
		case 3:
			t.AppendRow()
			m = snapshot(t)
		case 4:
			if len(m.Rows) > 0 {
				t.DeleteRow(r.IntN(len(m.Rows)))
				m = snapshot(t)
			}
		case 5:
			if len(m.Cols) > 0 {
				t.RenameColByColIndex(r.IntN(len(m.Cols)), fmt.Sprintf("renamed%d", r.IntN(1000)))
				m = snapshot(t)
			}
		case 6:
			switch r.IntN(4) {
			case 0:
				t.AppendCol(fmt.Sprintf("appended%d", r.IntN(1000)), pick(r, allTypes))
			case 1:
				t.Reverse()
			case 2:
				t.SetSortKeys()
			case 3:
				t.SetName(fmt.Sprintf("name%d", r.IntN(1000)))
			}
			m = snapshot(t)
		}
	}
}

// ---------------------------------------------------------------- C09

// randNode is an arbitrary JSON value.
func randNode(r *rand.Rand, depth int) *jnode {
	switch r.IntN(9) {
	case 0:
		return &jnode{kind: "null"}
	case 1:
		return &jnode{kind: "bool", b: chance(r, 2)}
	case 2, 3:
		return &jnode{kind: "num", s: randNumber(r)}
	case 4, 5:
		return &jnode{kind: "str", s: pick(r, append(append([]string{}, trickyStrings...), allTypes...))}
	case 6:
		n := &jnode{kind: "arr"}
		if depth > 0 {
			for k := r.IntN(4); k > 0; k-- {
				n.vals = append(n.vals, randNode(r, depth-1))
			}
		}
		return n
	default:
		n := &jnode{kind: "obj"}
		if depth > 0 {
			for k := r.IntN(4); k > 0; k-- {
				n.keys = append(n.keys, pick(r, []string{"tableName", "metadata", "data", "tables", "tableSetName", "isStructShape", "a", "b", ""}))
				n.vals = append(n.vals, randNode(r, depth-1))
			}
		}
		return n
	}
}

func randNumber(r *rand.Rand) string {
	return pick(r, []string{"0", "-0", "1", "-1", "0.5", "1.0", "1.5", "1e2", "1E+2", "1e-2", "127", "128", "-128", "-129", "255", "256", "32768", "65536", "2147483648", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e19", "1e20", "1e308", "1e309", "1e400", "-1e400", "1e-400", "1.00000000000000000001", "1e99999999999", "0.1e1", "10e-1", "12345678901234567890123", "3.4028236e38", "1e39"})
}

// all nodes of a tree, for mutation.
func (n *jnode) all(out *[]*jnode) {
	*out = append(*out, n)
	for _, v := range n.vals {
		v.all(out)
	}
}

// mutateTree changes the structure of a document.
func mutateTree(r *rand.Rand, n *jnode) {
	for k := 1 + r.IntN(3); k > 0; k-- {
		var nodes []*jnode
		n.all(&nodes)
		x := pick(r, nodes)
		if len(nodes) > 3000 && chance(r, 2) {
			lateRow(r, nodes)
			return
		}
		if chance(r, 8) {
			// What names one thing names two.
			var single []*jnode
			for _, x := range nodes {
				if x.kind == "obj" && len(x.keys) == 1 {
					single = append(single, x)
				}
			}
			if len(single) > 0 {
				x := pick(r, single)
				v := x.vals[0]
				if v.kind == "str" && chance(r, 2) {
					v = jstr(pick(r, allTypes))
				}
				i := r.IntN(2)
				x.keys = slices.Insert(x.keys, i, pick(r, []string{"a", "x", "more", "Z"}))
				x.vals = slices.Insert(x.vals, i, v)
				continue
			}
		}
		switch r.IntN(6) {
		case 0, 1:
			*x = *randNode(r, 2)
		case 2:
			if len(x.vals) > 0 {
				i := r.IntN(len(x.vals))
				x.vals = append(x.vals[:i:i], x.vals[i+1:]...)
				if x.kind == "obj" {
					x.keys = append(x.keys[:i:i], x.keys[i+1:]...)
				}
			}
		case 3:
			if len(x.vals) > 0 {
				i := r.IntN(len(x.vals))
				x.vals = append(x.vals, x.vals[i])
				if x.kind == "obj" {
					x.keys = append(x.keys, pick(r, []string{x.keys[i], "a", "tableName"}))
				}
			}
		case 4:
			y := pick(r, nodes)
			if !y.contains(x) && !x.contains(y) {
				*x, *y = *y, *x
			}
		case 5:
			if x.kind == "obj" && len(x.keys) > 0 {
				x.keys[r.IntN(len(x.keys))] = pick(r, []string{"", "tableName", "metadata", "data", "a b", "1x", "é", "tables"})
			}
		}
		var sb strings.Builder
		if n.write(&sb); sb.Len() > 1<<16 {
			return
		}
	}
}

// lateRow changes one thing in a row near the end of a long document.
func lateRow(r *rand.Rand, nodes []*jnode) {
	for _, x := range nodes {
		if x.kind != "arr" || len(x.vals) < 500 {
			continue
		}
		i := len(x.vals) - 1 - r.IntN(len(x.vals)/2)
		row := x.vals[i]
		if row.kind != "arr" || len(row.vals) == 0 || chance(r, 8) {
			*row = *randNode(r, 2)
			return
		}
		j := r.IntN(len(row.vals))
		cell := row.vals[j]
		switch r.IntN(4) {
		case 0: // One cell too many.
			row.vals = append(row.vals, cell)
		case 1: // One cell missing.
			row.vals = append(row.vals[:j:j], row.vals[j+1:]...)
		case 2: // Another value.
			if cell.kind == "obj" && len(cell.vals) == 1 {
				cell = cell.vals[0]
			}
			*cell = *randNode(r, 1)
		case 3: // Another name.
			if cell.kind == "obj" && len(cell.keys) == 1 {
				cell.keys[0] = pick(r, []string{"", "a", cell.keys[0] + "x", "tableName"})
			}
		}
		return
	}
}

func (n *jnode) contains(x *jnode) bool {
	if n == x {
		return true
	}
	for _, v := range n.vals {
		if v.contains(x) {
			return true
		}
	}
	return false
}

// treeYAML writes a tree as block YAML with plain or quoted scalars.
func (n *jnode) node() *yaml.Node {
	switch n.kind {
	case "obj":
		y := &yaml.Node{Kind: yaml.MappingNode}
		seen := map[string]bool{}
		for i := range n.keys {
			if seen[n.keys[i]] {
				continue
			}
			seen[n.keys[i]] = true
			y.Content = append(y.Content, &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: n.keys[i]}, n.vals[i].node())
		}
		return y
	case "arr":
		y := &yaml.Node{Kind: yaml.SequenceNode}
		for _, v := range n.vals {
			y.Content = append(y.Content, v.node())
		}
		return y
	case "str":
		y := &yaml.Node{}
		y.SetString(n.s)
		return y
	case "num":
		return &yaml.Node{Kind: yaml.ScalarNode, Value: n.s}
	case "bool":
		return &yaml.Node{Kind: yaml.ScalarNode, Value: strconv.FormatBool(n.b)}
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Value: "null"}
}

// By the names of members.
func (n *jnode) Len() int           { return len(n.keys) }
func (n *jnode) Less(i, j int) bool { return n.keys[i] < n.keys[j] }
func (n *jnode) Swap(i, j int) {
	n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
	n.vals[i], n.vals[j] = n.vals[j], n.vals[i]
}

// unique is the tree with its members in order of name, and only the first of those of one name, as node has it.
func (n *jnode) unique() *jnode {
	u := &jnode{kind: n.kind, s: n.s, b: n.b}
	seen := map[string]bool{}
	for i, v := range n.vals {
		if n.kind == "obj" {
			if seen[n.keys[i]] {
				continue
			}
			seen[n.keys[i]] = true
			u.keys = append(u.keys, n.keys[i])
		}
		u.vals = append(u.vals, v.unique())
	}
	sort.Sort(u)
	return u
}

// restyle writes the same YAML another way: flow style, quotes, block scalars, comments, and references
// in place of things that occur more than once.
func restyle(r *rand.Rand, y *yaml.Node, seen map[string]*yaml.Node, anchors *int) {
	if chance(r, 12) {
		y.LineComment = pick(r, []string{"x", "#", "a: b", "[", "'"})
	}
	switch y.Kind {
	case yaml.ScalarNode:
		if y.Tag == "!!str" {
			y.Style = pick(r, []yaml.Style{0, 0, yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle, yaml.LiteralStyle, yaml.FoldedStyle})
		}
		return
	case yaml.MappingNode, yaml.SequenceNode:
		if chance(r, 6) {
			y.Style = yaml.FlowStyle
		}
	}
	if y.Kind == yaml.MappingNode {
		n := len(y.Content) / 2
		r.Shuffle(n, func(i, j int) {
			y.Content[2*i], y.Content[2*j] = y.Content[2*j], y.Content[2*i]
			y.Content[2*i+1], y.Content[2*j+1] = y.Content[2*j+1], y.Content[2*i+1]
		})
	}
	for i, x := range y.Content {
		if y.Kind == yaml.MappingNode && i%2 == 0 {
			continue
		}
		if x.Kind != yaml.ScalarNode || chance(r, 4) {
			key := fmt.Sprint(x.Tag, fromYAML(x))
			if first := seen[key]; first != nil && chance(r, 2) {
				if first.Anchor == "" {
					*anchors++
					first.Anchor = fmt.Sprintf("a%d", *anchors)
				}
				y.Content[i] = &yaml.Node{Kind: yaml.AliasNode, Value: first.Anchor, Alias: first}
				continue
			}
			restyle(r, x, seen, anchors)
			seen[key] = x
			continue
		}
		restyle(r, x, seen, anchors)
	}
}

// respell writes the same JSON another way: with space, and letters as escapes.
func (n *jnode) respell(r *rand.Rand, b *strings.Builder) {
	space := func() {
		for chance(r, 4) {
			b.WriteString(pick(r, []string{" ", "\n", "\t", "\r"}))
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, x := range s {
			if x < 0x20 || x == '"' || x == '\\' || chance(r, 4) {
				for _, u := range utf16.Encode([]rune{x}) {
					fmt.Fprintf(b, pick(r, []string{"\\u%04x", "\\u%04X"}), u)
				}
			} else {
				b.WriteRune(x)
			}
		}
		b.WriteByte('"')
	}
	space()
	switch n.kind {
	case "obj":
		b.WriteByte('{')
		for i := range n.keys {
			if i > 0 {
				b.WriteByte(',')
			}
			space()
			str(n.keys[i])
			space()
			b.WriteByte(':')
			n.vals[i].respell(r, b)
		}
		space()
		b.WriteByte('}')
	case "arr":
		b.WriteByte('[')
		for i := range n.vals {
			if i > 0 {
				b.WriteByte(',')
			}
			n.vals[i].respell(r, b)
		}
		space()
		b.WriteByte(']')
	case "str":
		str(n.s)
	default:
		n.write(b)
	}
	space()
}

// judgeDecoded judges whatever a decoder accepted.
func judgeDecoded(c *Case, s *g.TableSet, what string) {
	ms := snapSet(s)
	seen := map[string]bool{}
	for i, m := range ms {
		if seen[m.Name] {
			c.Failf("%s: duplicate table [%s]", what, m.Name)
		}
		seen[m.Name] = true
		t, _ := s.GetTableByTableIndex(i)
		judgeDecodedTable(c, t, m)
	}
	if ok, err := s.IsValidTableSet(); !ok || err != nil {
		nilTop := false
		for _, m := range ms {
			nilTop = nilTop || m.Nil
		}
		if !nilTop {
			c.Failf("%s: IsValidTableSet() = %v, %v", what, ok, err)
		}
	}
	_ = s.String()
	_ = s.StringUnpadded()
}

func judgeDecodedTable(c *Case, t *g.Table, m *MTable) {
	checkInvariants(c, t, m)
	for r := range m.Rows {
		for i := range m.Cols {
			if n, ok := m.Rows[r][i].(*MTable); ok && n != nil && !n.Cycle {
				v, err := t.GetTableByColIndex(i, r)
				if err != nil {
					c.Failf("GetTableByColIndex: %v", err)
				}
				judgeDecodedTable(c, v, n)
			}
		}
	}
}

// A spot is where in a document a cell under test is: which table of the set, how deeply nested,
// which column and row. All other cells are 7.
type spot struct {
	tables, table        int
	depth                int
	cols, col, rows, row int
}

func someSpot(r *rand.Rand) spot {
	p := spot{tables: 1, cols: 2, col: 1, rows: 1}
	if chance(r, 2) {
		p.tables = 1 + r.IntN(3)
		p.table = r.IntN(p.tables)
		p.cols = logSize(r, 1, 20)
		p.col = r.IntN(p.cols)
		p.rows = logSize(r, 1, 20)
		p.row = r.IntN(p.rows)
		if chance(r, 2) {
			p.depth = 1 + r.IntN(3)
			if chance(r, 1000) {
				p.depth, p.rows = 0, 1000+r.IntN(2000)
				p.row = p.rows - 1 - r.IntN(min(p.rows, 500))
			} else if chance(r, 1000) {
				p.depth = logSize(r, 10, 1000)
				p.tables, p.table, p.cols, p.col, p.rows, p.row = 1, 0, 1, 0, 1, 0
			}
		}
	}
	return p
}

func jobj(kv ...any) *jnode {
	n := &jnode{kind: "obj"}
	for i := 0; i < len(kv); i += 2 {
		n.keys = append(n.keys, kv[i].(string))
		n.vals = append(n.vals, kv[i+1].(*jnode))
	}
	return n
}

func jarr(v ...*jnode) *jnode { return &jnode{kind: "arr", vals: v} }
func jstr(s string) *jnode    { return &jnode{kind: "str", s: s} }

// doc makes a document with this cell at the spot, in the layout of JSON (a cell is a member with the name of
// its column) or of YAML (a cell is a value).
func (p spot) doc(col MCol, cell *jnode, yaml bool) string {
	member := func(name string, v *jnode) *jnode {
		if yaml {
			return v
		}
		return jobj(name, v)
	}
	seven := &jnode{kind: "num", s: "7"}
	name := func(i int) string {
		if i == p.col {
			return col.Name
		}
		return fmt.Sprintf("k%d", i)
	}
	md, data := jarr(), jarr()
	for i := 0; i < p.cols; i++ {
		typ := "int"
		if i == p.col {
			typ = col.Type
		}
		md.vals = append(md.vals, jobj(name(i), jstr(typ)))
	}
	for j := 0; j < p.rows; j++ {
		row := jarr()
		for i := 0; i < p.cols; i++ {
			switch {
			case i == p.col && j == p.row:
				row.vals = append(row.vals, member(name(i), cell))
			case i == p.col:
				row.vals = append(row.vals, member(name(i), plainCell(col.Type, yaml)))
			default:
				row.vals = append(row.vals, member(name(i), seven))
			}
		}
		data.vals = append(data.vals, row)
	}
	table := jobj("tableName", jstr("t"), "metadata", md, "data", data)
	for d := 0; d < p.depth; d++ {
		table = jobj("tableName", jstr("t"), "metadata", jarr(jobj("k", jstr("int")), jobj("t", jstr("*Table"))),
			"data", jarr(jarr(member("k", seven), member("t", table))))
	}
	tables := jarr()
	for i := 0; i < p.tables; i++ {
		if i == p.table {
			tables.vals = append(tables.vals, table)
		} else {
			tables.vals = append(tables.vals, jobj("tableName", jstr(fmt.Sprintf("other%d", i)), "metadata", jarr(jobj("k", jstr("int"))), "data", jarr(jarr(member("k", seven)))))
		}
	}
	doc := jobj("tableSetName", jstr(""), "tables", tables)
	if yaml {
		// Flow style, but with the space that YAML wants.
		var b strings.Builder
		doc.writeFlow(&b)
		return b.String()
	}
	return doc.String()
}

// plainCell is what any decoder accepts in a column of this type.
func plainCell(typ string, yaml bool) *jnode {
	switch typ {
	case "string":
		return jstr("7")
	case "rune":
		if yaml {
			return &jnode{kind: "num", s: "55"}
		}
		return jstr("7")
	case "bool":
		return &jnode{kind: "bool", b: true}
	case "[]byte", "[]uint8":
		return jarr(&jnode{kind: "num", s: "7"})
	case "time.Time":
		if yaml {
			return &jnode{kind: "num", s: "2007-07-07T07:07:07Z"} // Without quotes.
		}
		return jstr("2007-07-07T07:07:07Z")
	case "*Table":
		return jobj("tableName", jstr("u"), "metadata", jarr(jobj("k", jstr("int"))), "data", jarr())
	}
	return &jnode{kind: "num", s: "7"}
}

func (n *jnode) writeFlow(b *strings.Builder) {
	switch n.kind {
	case "obj":
		b.WriteByte('{')
		for i := range n.keys {
			if i > 0 {
				b.WriteString(", ")
			}
			k, _ := json.Marshal(n.keys[i])
			if len(k) > 1000 {
				b.WriteString("? ") // YAML wants this of a long key.
			}
			b.Write(k)
			b.WriteString(": ")
			n.vals[i].writeFlow(b)
		}
		b.WriteByte('}')
	case "arr":
		b.WriteByte('[')
		for i := range n.vals {
			if i > 0 {
				b.WriteString(", ")
			}
			n.vals[i].writeFlow(b)
		}
		b.WriteByte(']')
	default:
		n.write(b)
	}
}

// find gives the cell at the spot, after a look at all the others.
func (p spot) find(c *Case, what string, col MCol, s *g.TableSet) any {
	ms := snapSet(s)
	if len(ms) != p.tables {
		c.Failf("%s: %d tables are decoded as %d", what, p.tables, len(ms))
	}
	m := ms[p.table]
	for d := 0; d < p.depth; d++ {
		if len(m.Rows) != 1 || len(m.Cols) != 2 || m.Rows[0][0] != any(int(7)) {
			c.Failf("%s: the table around it is decoded as %s", what, m)
		}
		sub, _ := m.Rows[0][1].(*MTable)
		if sub == nil {
			c.Failf("%s: the table around it is decoded as %s", what, m)
		}
		m = sub
	}
	if len(m.Rows) != p.rows || len(m.Cols) != p.cols {
		c.Failf("%s: %d rows of %d columns are decoded as %s", what, p.rows, p.cols, m)
	}
	for j := range m.Rows {
		for i := range m.Cols {
			if i != p.col && m.Rows[j][i] != any(int(7)) {
				c.Failf("%s: column %d row %d was 7 and is decoded as %s", what, i, j, showVal(m.Rows[j][i]))
			}
			if !hasGoType(m.Cols[i].Type, m.Rows[j][i]) {
				c.Failf("%s: column %d row %d is decoded as a %T", what, i, j, m.Rows[j][i])
			}
		}
	}
	return m.Rows[p.row][p.col]
}

// exactNumber gives a decimal text and its exact value.
func exactNumber(r *rand.Rand, typ string) (string, *big.Rat) {
	var s string
	switch r.IntN(6) {
	case 0, 1, 2:
		if intBits[typ] > 0 {
			s = genBigInt(r, typ).String()
			break
		}
		fallthrough
	case 3:
		s = randNumber(r)
	default:
		var b strings.Builder
		if chance(r, 3) {
			b.WriteByte('-')
		}
		if chance(r, 3) {
			b.WriteByte('0')
		} else {
			b.WriteByte(byte('1' + r.IntN(9)))
			for k := r.IntN(20); k > 0; k-- {
				b.WriteByte(byte('0' + r.IntN(10)))
			}
		}
		if chance(r, 2) {
			b.WriteByte('.')
			for k := 1 + r.IntN(25); k > 0; k-- {
				b.WriteByte(pick(r, []byte("0000123456789")))
			}
		}
		if chance(r, 2) {
			fmt.Fprintf(&b, "%s%s%d", pick(r, []string{"e", "E"}), pick(r, []string{"", "+", "-"}), r.IntN(40))
		}
		s = b.String()
	}
	if strings.Contains(s, "e99999") {
		return s, nil
	}
	rat, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("exactNumber " + s)
	}
	return s, rat
}

func isPlainInt(s string) bool {
	s = strings.TrimPrefix(s, "-")
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) == 1 || s[0] != '0'
}

var numericTypes = []string{"byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}

// judgeNumber: the decoded cell is the number in the input, or the input is refused.
func judgeNumber(c *Case, how, typ, text string, rat *big.Rat, p spot, s *g.TableSet, err error) {
	var v any
	if err == nil {
		v = p.find(c, fmt.Sprintf("%s %s in a %s column at %+v", how, text, typ, p), MCol{"c", typ}, s)
		if typ == "[]byte" || typ == "[]uint8" {
			b := v.([]byte)
			if len(b) != 2 || b[0] != 7 {
				c.Failf("%s [7, %s] in a %s column is decoded as %s", how, text, typ, showVal(v))
			}
			typ, v = "uint8", b[1]
		}
	}
	mayRefuse := typ == "rune" // JSON has them as text.
	switch typ {
	case "[]byte", "[]uint8":
		typ = "uint8"
	case "rune":
		typ = "int32"
	}
	if intBits[typ] > 0 {
		var want any
		fits := false
		if rat != nil && rat.IsInt() {
			want, fits = bigToTyped(typ, rat.Num())
		}
		switch {
		case err == nil && !fits:
			c.Failf("%s number %s does not fit a %s column and is decoded as %s", how, text, typ, showVal(v))
		case err == nil && v != want:
			c.Failf("%s number %s in a %s column is decoded as %s", how, text, typ, showVal(v))
		case err != nil && fits && isPlainInt(text) && text != "-0" && !mayRefuse:
			c.Failf("%s number %s fits a %s column and is refused: %v", how, text, typ, err)
		}
		if err != nil {
			c.Ev("numbers_refused", 1)
		} else {
			c.Ev("numbers_decoded", 1)
		}
		return
	}
	// Floats.
	if rat == nil {
		return
	}
	if typ == "float32" {
		f, _ := rat.Float32()
		if err == nil && (math.IsInf(float64(f), 0) || !closeFloat32(v.(float32), f, how)) {
			c.Failf("%s number %s in a float32 column is decoded as %s", how, text, showVal(v))
		}
		if err != nil && !math.IsInf(float64(f), 0) && how == "JSON" {
			c.Failf("%s number %s fits a float32 column and is refused: %v", how, text, err)
		}
	} else {
		f, _ := rat.Float64()
		if err == nil && (math.IsInf(f, 0) || v.(float64) != f) {
			c.Failf("%s number %s in a float64 column is decoded as %s", how, text, showVal(v))
		}
		if err != nil && !math.IsInf(f, 0) && how == "JSON" {
			c.Failf("%s number %s fits a float64 column and is refused: %v", how, text, err)
		}
	}
	c.Ev("floats", 1)
}

// YAML numbers reach a float32 column by way of float64: one unit in the last place of rounding.
func closeFloat32(a, b float32, how string) bool {
	if a == b {
		return true
	}
	return how == "YAML" && (math.Nextafter32(a, b) == b)
}

// The exported form that GOB streams of tables hold.
type gobTable struct {
	TableName   string
	ColNames    []string
	ColTypes    []string
	ColNamesMap map[string]int
	Rows        [][]any
	SortKeys    []gobKey
	StructShape bool
}

type gobKey struct {
	ColName string
	ColType string
	Reverse bool
}

type gobHeader struct {
	TableSetName string
	FileName     string
}

func gobHostile(c *Case, m *MTable) gobTable {
	r := c.R
	gt := gobTable{TableName: m.Name, ColNamesMap: map[string]int{}, StructShape: m.Shape}
	for i, col := range m.Cols {
		gt.ColNames = append(gt.ColNames, col.Name)
		gt.ColTypes = append(gt.ColTypes, col.Type)
		gt.ColNamesMap[col.Name] = i
	}
	for _, row := range m.Rows {
		var rr []any
		for _, v := range row {
			rr = append(rr, v)
		}
		gt.Rows = append(gt.Rows, rr)
	}
	for _, k := range m.Keys {
		gt.SortKeys = append(gt.SortKeys, gobKey{k.Col, k.Type, k.Reverse})
	}
	for k := r.IntN(3); k > 0; k-- {
		switch r.IntN(12) {
		case 0:
			gt.TableName = pick(r, []string{"", "1", "a b", "int", "é", "\x00"})
		case 1:
			gt.ColNames = append(gt.ColNames, pick(r, []string{"extra", "", "1", "int"}))
		case 2:
			gt.ColTypes = append(gt.ColTypes, pick(r, []string{"int", "", "what"}))
		case 3:
			if len(gt.ColTypes) > 0 {
				gt.ColTypes[r.IntN(len(gt.ColTypes))] = pick(r, append([]string{"", "complex128", "what"}, gobTypes...))
			}
		case 4:
			if len(gt.ColNames) > 1 {
				gt.ColNames[0] = gt.ColNames[1]
			}
		case 5:
			if gt.ColNamesMap == nil {
				gt.ColNamesMap = map[string]int{}
			}
			gt.ColNamesMap[pick(r, []string{"bogus", "a", "b"})] = r.IntN(20) - 5
		case 6:
			for n := range gt.ColNamesMap {
				gt.ColNamesMap[n] = r.IntN(20) - 5
				break
			}
		case 7:
			gt.ColNamesMap = nil
		case 8:
			if len(gt.Rows) > 0 {
				i := r.IntN(len(gt.Rows))
				if chance(r, 2) && len(gt.Rows[i]) > 0 {
					gt.Rows[i] = gt.Rows[i][:len(gt.Rows[i])-1]
				} else {
					gt.Rows[i] = append(gt.Rows[i], 5)
				}
			}
		case 9:
			if len(gt.Rows) > 0 {
				i := r.IntN(len(gt.Rows))
				if len(gt.Rows[i]) > 0 {
					gt.Rows[i][r.IntN(len(gt.Rows[i]))] = pick(r, []any{"s", 1, 1.5, true, uint8(3), int64(4), []byte{1}, float32(2), rune('x'), nil})
				}
			}
		case 10:
			gt.SortKeys = append(gt.SortKeys, gobKey{pick(r, []string{"nope", "", "a"}), pick(r, []string{"int", "string", ""}), true})
		case 11:
			if len(gt.SortKeys) > 0 {
				gt.SortKeys[0].ColType = pick(r, []string{"", "string", "int", "nope"})
			}
		}
	}
	return gt
}

// longDocument makes the tables of a document long now and then.
func longDocument(c *Case, o *genOpts) {
	if chance(c.R, 150) {
		n := 1000 + c.R.IntN(1500)
		o.minRows, o.maxRows, o.minCols, o.maxCols, o.depth = n, n, 1, 3, 0
		c.Ev("long_documents", 1)
	}
}

func runC09(c *Case) {
	r := c.R
	for k := 0; k < 6; k++ {
		switch r.IntN(9) {
		case 0, 1: // Numbers.
			typ := pick(r, append([]string{"rune", "[]byte", "[]uint8"}, numericTypes...))
			text, rat := exactNumber(r, typ)
			p := someSpot(r)
			c.Logf("number %s in a %s column, %+v", text, typ, p)
			cell := &jnode{kind: "num", s: text}
			if typ == "[]byte" || typ == "[]uint8" {
				cell = jarr(&jnode{kind: "num", s: "7"}, cell)
			}
			s, err := g.NewTableSetFromJSON(p.doc(MCol{"c", typ}, cell, false))
			judgeNumber(c, "JSON", typ, text, rat, p, s, err)
			s, err = g.NewTableSetFromYAML(p.doc(MCol{"c", typ}, cell, true))
			if text == "-0" || rat == nil {
				continue
			}
			if strings.ContainsAny(text, "eE") && !strings.Contains(text, ".") {
				// Whether this is a number depends on the version of YAML.
				if err == nil {
					judgeNumber(c, "YAML", typ, text, rat, p, s, err)
				}
				continue
			}
			judgeNumber(c, "YAML", typ, text, rat, p, s, err)
			c.Distinct(typ, text)
		case 2: // Values of the wrong kind.
			typ := pick(r, allTypes)
			var cell *jnode
			for {
				cell = randNode(r, 1)
				if wrongKind(typ, cell) {
					break
				}
			}
			p := someSpot(r)
			c.Logf("%s in a %s column, %+v", cell, typ, p)
			for _, yaml := range []bool{false, true} {
				// What is right there.
				src := p.doc(MCol{"c", typ}, plainCell(typ, yaml), yaml)
				read := g.NewTableSetFromJSON
				if yaml {
					read = g.NewTableSetFromYAML
				}
				s, err := read(src)
				if err != nil {
					c.Failf("refused: %v: %s", err, src)
				}
				p.find(c, src, MCol{"c", typ}, s)
			}
			if s, err := g.NewTableSetFromJSON(p.doc(MCol{"c", typ}, cell, false)); err == nil {
				c.Failf("JSON value %s is accepted in a %s column: %s", cell, typ, snapSet(s)[0])
			}
			// A number beyond the range of a YAML float is text.
			huge := cell.kind == "num" && strings.Contains(cell.s, "e")
			if typ != "time.Time" && typ != "rune" && !(typ == "string" && huge) && !(typ == "*Table" && cell.kind == "obj") {
				if s, err := g.NewTableSetFromYAML(p.doc(MCol{"c", typ}, cell, true)); err == nil {
					c.Failf("YAML value %s is accepted in a %s column: %s", cell, typ, snapSet(s)[0])
				}
			}
			c.Ev("wrong_kind", 1)
			c.Distinct("kind", typ, cell.String())
		case 3: // Structure of JSON documents.
			o := codecOpts(c, true)
			o.maxRows, o.maxCols, o.depth, o.bigStrings, o.minCols = 4, 4, 2, false, 0
			longDocument(c, &o)
			text, err := buildSet(c, "s", genSet(r, 1+r.IntN(2), o)).GetTableSetAsJSON()
			if err != nil {
				c.Failf("not encoded: %v", err)
			}
			n, err := parseJSON(text)
			if err != nil {
				c.Failf("not JSON: %v", err)
			}
			src := n.String()
			if chance(r, 10) {
				// More than one document, or something else behind it.
				src += pick(r, []string{"", " ", "\n"}) + pick(r, []string{src, "{}", "null", "}", "]", ",", "0", "\"\"", "x", "\x00", "//", text[:len(text)/2]})
				c.Ev("behind", 1)
				if s, err := g.NewTableSetFromJSON(src); err == nil {
					c.Failf("what follows a JSON document is ignored: %s\n%s", setString(snapSet(s)), src)
				}
			} else {
				if !chance(r, 4) {
					mutateTree(r, n)
				}
				src = n.String()
				if chance(r, 3) {
					var b strings.Builder
					n.respell(r, &b)
					src = b.String()
					c.Ev("respelt", 1)
				}
			}
			c.Logf("JSON %s", src)
			hostileJSON(c, src)
			c.Distinct(src)
			if k == 0 {
				c.Sample(src)
			}
		case 4: // Bytes of JSON documents.
			o := codecOpts(c, true)
			o.maxRows, o.maxCols, o.depth, o.bigStrings = 3, 4, 1, false
			text, _ := buildSet(c, "s", genSet(r, 1+r.IntN(2), o)).GetTableSetAsJSON()
			src := mutate(r, text)
			c.Logf("JSON %q", src)
			hostileJSON(c, src)
			c.Distinct(src)
		case 5: // Structure of YAML documents.
			o := codecOpts(c, true)
			o.maxRows, o.maxCols, o.depth, o.bigStrings = 4, 4, 2, false
			longDocument(c, &o)
			text, err := buildSet(c, "s", genSet(r, 1+r.IntN(2), o)).GetTableSetAsYAML()
			if err != nil {
				c.Failf("not encoded: %v", err)
			}
			var doc yaml.Node
			if err := yaml.Unmarshal([]byte(text), &doc); err != nil {
				c.Failf("not YAML: %v", err)
			}
			n := fromYAML(&doc)
			if !chance(r, 4) {
				mutateTree(r, n)
			}
			y := n.node()
			styled := chance(r, 3)
			if styled {
				restyle(r, y, map[string]*yaml.Node{}, new(int))
			}
			out, err := yaml.Marshal(y)
			if err != nil {
				continue
			}
			if styled && yaml.Unmarshal(out, &doc) == nil && fromYAML(&doc).unique().String() == n.unique().String() {
				c.Ev("restyled", 1)
				if s, err := g.NewTableSetFromYAML(string(out)); err == nil {
					c.Ev("restyled_accepted", 1)
					judgeAccepted(c, "YAML", string(out), n.unique(), snapSet(s))
					judgeDecoded(c, s, "YAML "+string(out))
				}
			}
			if chance(r, 10) {
				out = append(out, "---\n"+pick(r, []string{text, "x\n", "[1]\n", "{", "a: b\n"})...)
				c.Ev("behind", 1)
				if s, err := g.NewTableSetFromYAML(string(out)); err == nil {
					c.Failf("what follows a YAML document is ignored: %s\n%s", setString(snapSet(s)), out)
				}
			}
			c.Logf("YAML %s", out)
			hostileYAML(c, string(out))
			c.Distinct(out)
		case 6: // Bytes of YAML documents.
			o := codecOpts(c, true)
			o.maxRows, o.maxCols, o.depth, o.bigStrings = 3, 4, 1, false
			text, _ := buildSet(c, "s", genSet(r, 1+r.IntN(2), o)).GetTableSetAsYAML()
			src := mutate(r, text)
			if chance(r, 8) {
				src = pick(r, []string{"&a [*a]", "a: &a [*a]", "<<: *a", "tableSetName: &x y\ntables: *x", "- - - -", "? ? ?", "!!binary x", "tableSetName: s\ntables:\n- *q", "tableSetName: s\ntables: &t\n- &u {tableName: a, metadata: [], data: *t}", "{", "\t", "tableSetName: s\ntables: {a: b}", "!!float x", "%YAML 9.9\n---\n"}) + src[:min(len(src), r.IntN(10))]
			}
			c.Logf("YAML %q", src)
			hostileYAML(c, src)
			c.Distinct(src)
		case 7: // Bytes of GOB streams.
			m := genTable(r, genOpts{emptyRows: true, types: gobTypes, maxCols: 5, maxRows: 4, shape: true, keys: true})
			buf, err := build(c, m).GobEncode()
			if err != nil {
				c.Failf("not encoded: %v", err)
			}
			src := []byte(mutate(r, string(buf)))
			if chance(r, 10) {
				src = append(append([]byte{}, buf...), pick(r, [][]byte{buf, {0}, []byte("x"), buf[:len(buf)/2]})...)
				c.Ev("behind", 1)
				if t, err := g.NewTableFromGob(src); err == nil {
					c.Failf("what follows a GOB stream is ignored: %v\n%x", snapshot(t), src)
				}
			}
			c.Logf("GOB %x", src)
			hostileGob(c, src)
			c.Distinct(src)
			var bufs []bytes.Buffer
			for n := r.IntN(4); n > 0; n-- {
				b := pick(r, [][]byte{src, buf, {}, []byte("x")})
				bufs = append(bufs, *bytes.NewBuffer(append([]byte(nil), b...)))
			}
			if s, err := g.NewTableSetFromGob(bufs); err == nil {
				judgeDecoded(c, s, "GOB")
			}
		case 8: // Structure of GOB streams.
			m := genTable(r, genOpts{emptyRows: true, types: gobTypes, minCols: 1, maxCols: 5, maxRows: 4, shape: true, keys: true})
			gt := gobHostile(c, m)
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(gt); err != nil {
				continue
			}
			c.Logf("GOB of %+v", gt)
			hostileGob(c, buf.Bytes())
			c.Distinct(fmt.Sprintf("%+v", gt))
		}
	}
}

// wrongKind tells whether a value can never be the content of a column of this type.
func wrongKind(typ string, n *jnode) bool {
	switch typ {
	case "string":
		return n.kind != "str"
	case "bool":
		return n.kind != "bool"
	case "rune":
		return n.kind != "str" && n.kind != "num" || n.kind == "str" && utf8.RuneCountInString(n.s) != 1
	case "time.Time":
		return n.kind != "str" || !strings.HasSuffix(n.s, "Z")
	case "*Table":
		return n.kind != "obj" && n.kind != "null" || n.kind == "obj" && n.get2("tableName") == nil
	case "[]byte", "[]uint8":
		if n.kind == "arr" {
			for _, v := range n.vals {
				if v.kind != "num" {
					return true
				}
			}
			return false
		}
		return true
	case "float32", "float64":
		return n.kind != "num"
	}
	if n.kind == "num" {
		rat, ok := new(big.Rat).SetString(n.s)
		return !strings.Contains(n.s, "e99999") && ok && !rat.IsInt()
	}
	return true
}

func (n *jnode) get2(key string) *jnode {
	for i, k := range n.keys {
		if k == key {
			return n.vals[i]
		}
	}
	return nil
}

func fromYAML(y *yaml.Node) *jnode {
	switch y.Kind {
	case yaml.DocumentNode:
		return fromYAML(y.Content[0])
	case yaml.AliasNode:
		return fromYAML(y.Alias)
	case yaml.MappingNode:
		n := &jnode{kind: "obj"}
		for i := 0; i+1 < len(y.Content); i += 2 {
			n.keys = append(n.keys, y.Content[i].Value)
			n.vals = append(n.vals, fromYAML(y.Content[i+1]))
		}
		return n
	case yaml.SequenceNode:
		n := &jnode{kind: "arr"}
		for _, v := range y.Content {
			n.vals = append(n.vals, fromYAML(v))
		}
		return n
	}
	switch y.Tag {
	case "!!int", "!!float", "!!timestamp":
		return &jnode{kind: "num", s: y.Value}
	case "!!bool":
		return &jnode{kind: "bool", b: y.Value == "true"}
	case "!!null":
		return &jnode{kind: "null"}
	}
	return &jnode{kind: "str", s: y.Value}
}

// last gives the member of that name that counts when a name is repeated.
func (n *jnode) last(key string) (v *jnode) {
	if n == nil || n.kind != "obj" {
		return nil
	}
	for i, k := range n.keys {
		if k == key {
			v = n.vals[i]
		}
	}
	return
}

// judgeAccepted: a document that was decoded holds no table, column, row or cell that the result has not,
// and no other values.
func judgeAccepted(c *Case, how, src string, doc *jnode, ms []*MTable) {
	tables := doc.last("tables")
	if doc.kind != "obj" || tables == nil || tables.kind != "arr" {
		if len(ms) > 0 {
			return // Some other way to write one table.
		}
		if doc.last("tableName") != nil {
			c.Failf("%s of a table is decoded as a set without tables: %s", how, src)
		}
		return
	}
	if len(tables.vals) != len(ms) {
		c.Failf("%s of %d tables is decoded as %d tables: %s", how, len(tables.vals), len(ms), src)
	}
	for i, m := range ms {
		judgeAcceptedTable(c, how, src, tables.vals[i], m)
	}
}

func judgeAcceptedTable(c *Case, how, src string, n *jnode, m *MTable) {
	if m == nil || m.Nil || m.Cycle || n.kind != "obj" {
		return
	}
	if x := n.last("tableName"); x == nil || x.kind != "str" || x.s != m.Name {
		c.Failf("%s table called %v is decoded as [%s]: %s", how, x, m.Name, src)
	}
	md := n.last("metadata")
	if md == nil || md.kind != "arr" || len(md.vals) != len(m.Cols) {
		c.Failf("%s table with metadata %v is decoded with columns %v: %s", how, md, m.Cols, src)
	}
	for i, x := range md.vals {
		v := x.last(m.Cols[i].Name)
		for _, k := range x.keys {
			if k != m.Cols[i].Name {
				c.Failf("%s column %s, which has two names, is decoded as %v: %s", how, x, m.Cols[i], src)
			}
		}
		if v == nil || v.kind != "str" || strings.Trim(v.s, "\"'") != m.Cols[i].Type {
			c.Failf("%s column %s is decoded as %v: %s", how, x, m.Cols[i], src)
		}
	}
	data := n.last("data")
	if data == nil || data.kind == "null" {
		if len(m.Rows) > 0 {
			c.Failf("%s table without data is decoded as %d rows: %s", how, len(m.Rows), src)
		}
		return
	}
	if data.kind != "arr" || len(data.vals) != len(m.Rows) {
		c.Failf("%s table with data %s is decoded as %d rows: %s", how, data, len(m.Rows), src)
	}
	for ri, row := range data.vals {
		if row.kind != "arr" || len(row.vals) > len(m.Cols) {
			c.Failf("%s row %s is decoded as %d cells: %s", how, row, len(m.Cols), src)
		}
		for ci, x := range row.vals {
			if how == "JSON" {
				if x.kind != "obj" || len(x.vals) == 0 {
					c.Failf("JSON cell %s is decoded as %s: %s", x, showVal(m.Rows[ri][ci]), src)
				}
				for _, name := range x.keys {
					if name != m.Cols[ci].Name {
						c.Failf("JSON cell called %q is decoded into column %v: %s", name, m.Cols[ci], src)
					}
				}
				x = x.vals[len(x.vals)-1]
			}
			ok := true
			switch v := m.Rows[ri][ci].(type) {
			case *MTable:
				judgeAcceptedTable(c, how, src, x, v)
			case bool:
				ok = x.kind == "bool" && x.b == v || how == "YAML" && x.kind != "num"
			case string:
				ok = x.kind == "str" && x.s == v || how == "YAML"
			case []byte:
				ok = x.kind == "arr" && len(x.vals) == len(v)
				for i := 0; ok && i < len(v); i++ {
					ok = x.vals[i].kind == "num" && strings.TrimPrefix(x.vals[i].s, "-") == strconv.Itoa(int(v[i])) || !isPlainInt(x.vals[i].s)
				}
			case float64, float32, time.Time:
			default:
				if _, isInt := intBits[m.Cols[ci].Type]; isInt && m.Cols[ci].Type != "rune" && isPlainInt(x.s) {
					ok = x.s == fmt.Sprint(v) || x.s == "-0"
				}
			}
			if !ok {
				c.Failf("%s value %s in a %s column is decoded as %s: %s", how, x, m.Cols[ci].Type, showVal(m.Rows[ri][ci]), src)
			}
			c.Ev("accepted_cells", 1)
		}
	}
}

func hostileJSON(c *Case, src string) {
	s, err := g.NewTableSetFromJSON(src)
	t, err2 := g.NewTableFromJSON(src)
	if err == nil {
		c.Ev("json_accepted", 1)
		judgeDecoded(c, s, "JSON "+src)
		if !json.Valid([]byte(src)) {
			c.Failf("what is not one JSON document is accepted: %s", src)
		}
		if doc, err := parseJSON(src); err == nil {
			judgeAccepted(c, "JSON", src, doc, snapSet(s))
		}
	} else {
		c.Ev("json_refused", 1)
		if err2 == nil {
			c.Failf("NewTableFromJSON accepts what NewTableSetFromJSON refuses (%v): %s", err, src)
		}
	}
	if err2 == nil {
		judgeDecodedTable(c, t, snapshot(t))
	}
	if t, err := g.NewTableFromJSONByTableName(src, "t"); err == nil {
		judgeDecodedTable(c, t, snapshot(t))
	}
}

func hostileYAML(c *Case, src string) {
	s, err := g.NewTableSetFromYAML(src)
	if err != nil {
		c.Ev("yaml_refused", 1)
		return
	}
	c.Ev("yaml_accepted", 1)
	judgeDecoded(c, s, "YAML "+src)
	var doc yaml.Node
	docs := yaml.NewDecoder(strings.NewReader(src))
	for n := 0; docs.Decode(&doc) != io.EOF; n++ {
		if n == 1 {
			c.Failf("YAML of more than one document is accepted: %s", src)
		}
	}
	if !strings.ContainsAny(src, "&*<?!%") && yaml.Unmarshal([]byte(src), &doc) == nil && len(doc.Content) == 1 {
		judgeAccepted(c, "YAML", src, fromYAML(&doc), snapSet(s))
	}
}

func hostileGob(c *Case, src []byte) {
	t, err := g.NewTableFromGob(src)
	if err != nil {
		c.Ev("gob_refused", 1)
		return
	}
	c.Ev("gob_accepted", 1)
	m := snapshot(t)
	judgeDecodedTable(c, t, m)
	_ = t.String()
	for _, k := range m.Keys {
		if !isSortable(k.Type) {
			return
		}
	}
	if len(m.Keys) > 0 {
		if err := t.Sort(); err != nil {
			c.Failf("sorting a decoded table by its keys %v: %v", m.Keys, err)
		}
	}
}

func init() {
	register(&Prop{ID: "C05", Quick: 100000, Thorough: 4000000, Run: runC05,
		Rule: "one case = one random table or table set (nesting to depth 12), encoded compact and indented and decoded, or refused; distinct = different contents with at least one cell",
		Need: []string{"tables", "sets", "nested", "refused", "refused_circular"}})
	register(&Prop{ID: "C06", Quick: 200000, Thorough: 8000000, Run: runC06,
		Rule: "one case = one table or table set whose JSON is read by encoding/json's token reader and compared cell by cell with the source; distinct = different table contents with at least one cell",
		Need: []string{"documents", "json_cells"}})
	register(&Prop{ID: "C07", Quick: 60000, Thorough: 3000000, Run: runC07,
		Rule:   "one case = one table set encoded as YAML, decoded, and read by a plain YAML reader; distinct = different table contents with at least one cell",
		Need:   []string{"tables", "nested", "refused_circular"},
		Assume: []string{"a negative zero float may come back as zero (they are equal)"}})
	register(&Prop{ID: "C08", Quick: 100000, Thorough: 4000000, Run: runC08,
		Rule: "one case = one table or set encoded and decoded as GOB, then source and copy scrambled in turn; distinct = different table contents with at least one cell",
		Need: []string{"tables", "sets", "refused", "keys", "independence"}})
	register(&Prop{ID: "C09", Quick: 60000, Thorough: 3000000, Run: runC09,
		Rule: "one case = 6 hostile inputs: exact numbers in every column type, values of the wrong kind, structurally and bytewise mutated JSON, YAML and GOB; distinct = different inputs",
		Need: []string{"numbers_refused", "numbers_decoded", "wrong_kind", "json_accepted", "json_refused", "yaml_accepted", "yaml_refused", "gob_accepted", "gob_refused"}})
}
