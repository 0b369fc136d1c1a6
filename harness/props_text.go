package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

// genSet makes the tables of a table set: unique names.
func genSet(r *rand.Rand, n int, o genOpts) (tables []*MTable) {
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		m := genTable(r, o)
		for seen[m.Name] {
			m.Name = fmt.Sprintf("%s_%d", m.Name, i)
		}
		seen[m.Name] = true
		tables = append(tables, m)
	}
	return
}

func buildSet(c *Case, name string, ms []*MTable) *g.TableSet {
	if cells := 0; c.worn == 0 && len(ms) > 0 && chance(c.R, 6) {
		for _, m := range ms {
			cells += len(m.Cols) * len(m.Rows)
		}
		if cells <= 1500 && len(ms) <= 50 {
			c.worn++
			defer func() { c.worn-- }()
			return wornSet(c, name, ms)
		}
	}
	s, err := g.NewTableSet(name)
	if err != nil {
		c.Failf("NewTableSet(%q): %v", name, err)
	}
	for _, m := range ms {
		if err := s.AppendTable(build(c, m)); err != nil {
			c.Failf("AppendTable [%s]: %v", m.Name, err)
		}
	}
	return s
}

func snapSet(s *g.TableSet) (ms []*MTable) {
	for i := 0; i < s.TableCount(); i++ {
		t, err := s.GetTableByTableIndex(i)
		if err != nil {
			panic(violation{fmt.Sprintf("GetTableByTableIndex(%d) of %d: %v", i, s.TableCount(), err)})
		}
		ms = append(ms, snapshot(t))
	}
	return
}

func diffSets(a, b []*MTable, o cmpOpts) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d tables vs %d tables", len(a), len(b))
	}
	for i := range a {
		if d := diffTables(a[i], b[i], o); d != "" {
			return fmt.Sprintf("table %d: %s", i, d)
		}
	}
	return ""
}

func setString(ms []*MTable) string {
	var b strings.Builder
	for _, m := range ms {
		b.WriteString(m.String())
		b.WriteByte('\n')
	}
	return b.String()
}

// Text round trips compare nested tables by name: the text form holds their names only.
var textCmp = cmpOpts{noKeys: true, noShape: true, nameOnly: true}

var textOpts = genOpts{minCols: 0, maxCols: 9, minRows: 0, maxRows: 14, depth: 1, bigStrings: true, shape: true, keys: true}

func sizedText(c *Case) genOpts {
	o := textOpts
	switch {
	case c.Idx%97 == 0:
		o.maxRows, o.maxCols = 400, 4
	case c.Idx%89 == 0:
		o.maxCols, o.maxRows = 60, 3
	case c.Idx%4 == 0:
		o.minRows, o.maxRows = 0, 1 // Struct shape.
	}
	if c.Idx%3 == 0 {
		o.minCols = 1
	}
	if large(c, &o, 997) {
		return o
	}
	if chance(c.R, 3) {
		// All columns of one type, or of two.
		o.types = []string{pick(c.R, allTypes), pick(c.R, allTypes)}
	}
	return o
}

func parseBack(c *Case, what, text string) []*MTable {
	s, err := g.NewTableSetFromString(text)
	if err != nil {
		c.Failf("%s does not parse: %v\n%s", what, err, text)
	}
	ms := snapSet(s)
	return ms
}

// nestedText: the nested form holds each of the tables nested in a table, whatever the depth.
func nestedText(c *Case) {
	r := c.R
	o := genOpts{minCols: 1, maxCols: 5, maxRows: 4, depth: 3, shape: true}
	if chance(r, 2) {
		o.types = []string{"*Table", "*Table", "int", "string"}
	}
	m := genTable(r, o)
	// Distinct names, and no NilTables, so that a table set can hold them all.
	var all []*MTable
	var places []string
	seen := map[string]bool{}
	var collect func(t *MTable, place string)
	collect = func(t *MTable, place string) {
		for seen[t.Name] {
			t.Name = fmt.Sprintf("%s_%d", t.Name, len(all))
		}
		seen[t.Name] = true
		all = append(all, t)
		places = append(places, place)
		for ri, row := range t.Rows {
			for i, v := range row {
				if x, ok := v.(*MTable); ok {
					if x.Nil {
						x = &MTable{Name: genName(r)}
						row[i] = x
					}
					collect(x, fmt.Sprintf("__FROM_TABLE_%s_COL_%s_row_%d", t.Name, t.Cols[i].Name, ri))
				}
			}
		}
	}
	collect(m, "")
	if len(all) > 400 {
		return
	}
	text := build(c, m).StringNested()
	c.Logf("StringNested():\n%s", text)
	s, err := g.NewTableSetFromString(text)
	if err != nil {
		c.Failf("text from StringNested() does not parse: %v\n%s", err, text)
	}
	if s.TableCount() != len(all) {
		c.Failf("StringNested() of %d tables holds %d:\n%s", len(all), s.TableCount(), text)
	}
	// A nested table's name says where it is.
	got := snapSet(s)
	for i, x := range all {
		found := false
		for _, t := range got {
			rest, ok := strings.CutPrefix(t.Name, x.Name+places[i])
			if !ok || i == 0 && rest != "" || rest != "" && !strings.HasPrefix(rest, "__FROM_TABLE_") {
				continue
			}
			found = true
			t.Name = x.Name
			if d := diffTables(x, t, textCmp); d != "" {
				c.Failf("StringNested() then parse: %s\n%s", d, text)
			}
			t.Name = "found"
			break
		}
		c.Check(found, "StringNested() lacks table [%s] (%s):\n%s", x.Name, places[i], text)
	}
	c.Ev("nested_texts", 1)
	c.Ev("nested_text_tables", len(all))
}

func runC01(c *Case) {
	r := c.R
	if c.Idx%7 == 3 {
		nestedText(c)
	}
	o := sizedText(c)
	if chance(r, 2) {
		m := genTable(r, o)
		widen(c, m)
		t := buildSame(c, m)
		c.Logf("table %v", m)
		for _, form := range []struct {
			name string
			text string
		}{{"String()", t.String()}, {"StringPadded()", t.StringPadded()}, {"StringUnpadded()", t.StringUnpadded()}} {
			c.Logf("%s:\n%s", form.name, form.text)
			t2, err := g.NewTableFromString(form.text)
			if err != nil {
				c.Failf("text from %s does not parse: %v\ntable %v\ntext:\n%s", form.name, err, m, form.text)
			}
			disturb(c)
			m2 := snapshot(t2)
			if d := diffTables(m, m2, textCmp); d != "" {
				c.Failf("%s then parse: %s\ntext:\n%s", form.name, d, form.text)
			}
			if want := m.Shape && len(m.Rows) <= 1 && len(m.Cols) > 0; m2.Shape != want {
				c.Failf("%s then parse: struct shape is %v, of a table with %d rows and struct shape %v\n%s", form.name, m2.Shape, len(m.Rows), m.Shape, form.text)
			}
			checkInvariants(c, t2, m2)
			t3, err := g.NewTableFromStringByTableName(form.text, m.Name)
			if err != nil {
				c.Failf("NewTableFromStringByTableName(%q): %v", m.Name, err)
			}
			if d := diffTables(m2, snapshot(t3), cmpOpts{}); d != "" {
				c.Failf("NewTableFromStringByTableName: %s", d)
			}
			t4, err := g.NewTableFromStringByTableIndex(form.text, 0)
			if err != nil {
				c.Failf("NewTableFromStringByTableIndex(0): %v", err)
			}
			if d := diffTables(m2, snapshot(t4), cmpOpts{}); d != "" {
				c.Failf("NewTableFromStringByTableIndex: %s", d)
			}
			if !strings.Contains(form.text, "\r") {
				c.Ev("crlf", 1)
				if d := diffSets([]*MTable{m2}, parseBack(c, form.name+" with CRLF", strings.ReplaceAll(form.text, "\n", "\r\n")), cmpOpts{}); d != "" {
					c.Failf("CRLF line ends: %s\n%s", d, form.text)
				}
			}
			decodeAgain(c, "parsing "+form.name, t2, func() (*g.Table, error) { return g.NewTableFromString(form.text) })
			if m2.Shape {
				c.Ev("struct_shape", 1)
			}
			c.Ev("table_round_trips", 1)
			c.Ev("cells", m.cellCount())
		}
		if len(m.Rows) > 0 {
			c.Distinct(m.fullKey())
			c.Sample(t.StringUnpadded())
		}
		if d := diffTables(m, snapshot(t), cmpOpts{}); d != "" {
			c.Failf("writing the table as text changed it: %s", d)
		}
		return
	}

	ms := genSet(r, manyTables(c, logSize(r, 0, 6), 3001), o)
	if len(ms) > 0 {
		widen(c, ms[0])
	}
	name := ""
	if chance(r, 2) {
		name = genName(r)
	}
	s := buildSet(c, name, ms)
	c.Logf("set %q: %v", name, setString(ms))
	for _, form := range []struct {
		name string
		text string
	}{{"TableSet.String()", s.String()}, {"TableSet.StringPadded()", s.StringPadded()}, {"TableSet.StringUnpadded()", s.StringUnpadded()}} {
		c.Logf("%s:\n%s", form.name, form.text)
		s2, err := g.NewTableSetFromString(form.text)
		if err != nil {
			c.Failf("text from %s does not parse: %v\n%s", form.name, err, form.text)
		}
		if s2.Name() != name {
			c.Failf("%s then parse: set name %q became %q\n%s", form.name, name, s2.Name(), form.text)
		}
		disturb(c)
		if d := diffSets(ms, snapSet(s2), textCmp); d != "" {
			c.Failf("%s then parse: %s\n%s", form.name, d, form.text)
		}
		if len(ms) > 0 {
			i := r.IntN(len(ms))
			t, _ := s2.GetTableByTableIndex(i)
			decodeAgain(c, "parsing a set", t, func() (*g.Table, error) {
				s3, err := g.NewTableSetFromString(form.text)
				if err != nil {
					return nil, err
				}
				return s3.GetTableByTableIndex(i)
			})
		}
		for _, i := range someOf(r, len(ms)) {
			m := ms[i]
			t, err := g.NewTableFromStringByTableName(form.text, m.Name)
			if err != nil {
				c.Failf("NewTableFromStringByTableName(%q): %v", m.Name, err)
			}
			if d := diffTables(m, snapshot(t), textCmp); d != "" {
				c.Failf("NewTableFromStringByTableName(%q): %s", m.Name, d)
			}
			t, err = g.NewTableFromStringByTableIndex(form.text, i)
			if err != nil {
				c.Failf("NewTableFromStringByTableIndex(%d): %v", i, err)
			}
			if d := diffTables(m, snapshot(t), textCmp); d != "" {
				c.Failf("NewTableFromStringByTableIndex(%d): %s", i, d)
			}
		}
		c.Ev("set_round_trips", 1)
	}
	if len(ms) > 1 {
		c.Distinct(setString(ms), name)
	}
}

// ---------------------------------------------------------------- C02

// genSource writes source text freely: literals in many notations, odd spacing, comments.
func genSource(r *rand.Rand) string {
	var b strings.Builder
	ws := func() string { return pick(r, []string{" ", "  ", "\t", " \t "}) }
	nl := func() string { return pick(r, []string{"\n", "\n", "\n", "\r\n", " \n", "\t\n"}) }
	ind := func() string { return pick(r, []string{"", "", "", " ", "\t", "    "}) }
	comment := func() {
		if chance(r, 8) {
			b.WriteString(ind() + "# " + pick(r, []string{"comment", "[x]", "a b c", "", "= 5"}) + nl())
		}
	}
	if chance(r, 4) {
		b.WriteString("[[" + genName(r) + "]]" + nl())
		if chance(r, 2) {
			b.WriteString(nl())
		}
	}
	nt := 1 + r.IntN(3)
	for i, name := range genNames(r, nt, nil) {
		if i > 0 {
			b.WriteString(nl())
		}
		comment()
		b.WriteString(ind() + "[" + name + "]" + nl())
		nc := r.IntN(5)
		names := genNames(r, nc, nil)
		types := make([]string, nc)
		for j := range types {
			types[j] = pick(r, allTypes)
		}
		if nc == 0 {
			continue
		}
		if chance(r, 3) {
			withData := chance(r, 2)
			for j := range names {
				comment()
				b.WriteString(ind() + names[j] + ws() + types[j])
				if withData {
					lit, _, _ := genLiteral(r, types[j])
					b.WriteString(ws() + "=" + ws() + lit)
				}
				b.WriteString(nl())
			}
			continue
		}
		comment()
		b.WriteString(ind() + strings.Join(names, ws()) + nl())
		comment()
		b.WriteString(ind() + strings.Join(types, ws()) + nl())
		for k := r.IntN(4); k > 0; k-- {
			comment()
			b.WriteString(ind())
			for j := range types {
				if j > 0 {
					b.WriteString(ws())
				}
				lit, _, _ := genLiteral(r, types[j])
				b.WriteString(lit)
			}
			b.WriteString(nl())
		}
	}
	s := b.String()
	if chance(r, 5) {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

var fuzzTokens = []string{"[", "]", "[[", "]]", "[]", "[t]", "[[s]]", "\n", "\n\n", "\r", "=", " = ", "\"", "'", "`", "\\", "#", " ", "\t", "0", "1", "-1", "+1", "0x", "0b", "0o", "08", "1e", "1e5", ".", "5.", ".5", "-", "+", "NaN", "nan", "+Inf", "-Inf", "Inf", "true", "false", "int", "string", "[]byte", "[]uint8", "*Table", "time.Time", "rune", "float64", "'a'", "'\\n'", "''", "'''", "\"\"", "\"x\"", "[1 2]", "[1 2 256]", "[ 1]", "[1 ]", "[-1]", "2020-01-02T03:04:05Z", "2020-13-02T03:04:05Z", "a", "b", "c1", "1c", "é", "日", "\x00", "\xff", "\u00a0", "\u2028", "\ufeff", "99999999999999999999", "1e999", "complex128", "a b c", "int int int", "\v", "\f", "\u0085"}

func mutate(r *rand.Rand, s string) string {
	n := 1 + r.IntN(4)
	for ; n > 0; n-- {
		switch r.IntN(9) {
		case 0: // Insert a token.
			i := r.IntN(len(s) + 1)
			s = s[:i] + pick(r, fuzzTokens) + s[i:]
		case 1: // Delete a span.
			if len(s) > 0 {
				i := r.IntN(len(s))
				j := min(len(s), i+1+logSize(r, 0, 10))
				s = s[:i] + s[j:]
			}
		case 2: // Replace a byte.
			if len(s) > 0 {
				i := r.IntN(len(s))
				s = s[:i] + string([]byte{byte(r.IntN(256))}) + s[i+1:]
			}
		case 3: // Truncate.
			s = s[:r.IntN(len(s)+1)]
		case 4: // Duplicate a line.
			ls := strings.Split(s, "\n")
			i := r.IntN(len(ls))
			ls = append(ls[:i+1], ls[i:]...)
			s = strings.Join(ls, "\n")
		case 5: // Delete a line.
			ls := strings.Split(s, "\n")
			i := r.IntN(len(ls))
			ls = append(ls[:i:i], ls[i+1:]...)
			s = strings.Join(ls, "\n")
		case 6: // Swap two lines.
			ls := strings.Split(s, "\n")
			i, j := r.IntN(len(ls)), r.IntN(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
			s = strings.Join(ls, "\n")
		case 7: // Replace a word.
			f := strings.Fields(s)
			if len(f) > 0 {
				s = strings.Replace(s, pick(r, f), pick(r, fuzzTokens), 1)
			}
		case 8: // Repeat a span.
			if len(s) > 0 {
				i := r.IntN(len(s))
				j := min(len(s), i+1+logSize(r, 0, 20))
				s = s[:j] + strings.Repeat(s[i:j], logSize(r, 1, 20)) + s[j:]
			}
		}
		if len(s) > 1<<16 {
			s = s[:1<<16]
		}
	}
	return s
}

// judgeParsed judges an accepted text: valid tables, and a stable text form.
func judgeParsed(c *Case, src string, s *g.TableSet) {
	if s == nil {
		c.Failf("no error and no table set for %q", src)
	}
	ms := snapSet(s)
	seen := map[string]bool{}
	for i, m := range ms {
		if seen[m.Name] {
			c.Failf("duplicate table [%s] accepted from %q", m.Name, src)
		}
		seen[m.Name] = true
		if ok, err := g.IsValidTableName(m.Name); !ok {
			c.Failf("invalid table name %q accepted: %v", m.Name, err)
		}
		if !isIdent(m.Name) {
			c.Failf("malformed table name %q accepted from %q", m.Name, src)
		}
		for _, col := range m.Cols {
			if !isIdent(col.Name) || !contains(allTypes, col.Type) {
				c.Failf("malformed col %v accepted from %q", col, src)
			}
		}
		t, _ := s.GetTableByTableIndex(i)
		checkInvariants(c, t, m)
	}
	if ok, err := s.IsValidTableSet(); !ok || err != nil {
		c.Failf("IsValidTableSet() = %v, %v of accepted %q", ok, err, src)
	}
	for _, unpadded := range []bool{false, true} {
		write := func(s *g.TableSet) string {
			if unpadded {
				return s.StringUnpadded()
			}
			return s.String()
		}
		text := write(s)
		s2, err := g.NewTableSetFromString(text)
		if err != nil {
			c.Failf("accepted input %q is written as text that does not parse: %v\n%s", src, err, text)
		}
		if d := diffSets(ms, snapSet(s2), textCmp); d != "" {
			c.Failf("accepted input %q: text form parses to something else: %s\n%s", src, d, text)
		}
		if s2.Name() != s.Name() {
			c.Failf("accepted input %q: set name %q becomes %q", src, s.Name(), s2.Name())
		}
		text2 := write(s2)
		if text != text2 {
			c.Failf("accepted input %q: text form is not stable (unpadded %v):\n%s\nthen:\n%s", src, unpadded, text, text2)
		}
	}
	c.Ev("accepted", 1)
	c.Ev("accepted_tables", len(ms))
}

func isIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		ok := ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || i > 0 && ch >= '0' && ch <= '9'
		if !ok {
			return false
		}
	}
	return len(s) > 0
}

func runC02(c *Case) {
	r := c.R
	for k := 0; k < 12; k++ {
		var src string
		kind := r.IntN(6)
		if chance(r, 6000) {
			kind = -1
		}
		switch kind {
		case -1: // Long lines. Padded, they are longer still.
			cols := 2 + r.IntN(3)
			var b strings.Builder
			fmt.Fprintf(&b, "[long]\n%s\n%s\n", strings.Join([]string{"a", "b", "c", "d"}[:cols], " "), strings.TrimSpace(strings.Repeat("string ", cols)))
			for i := 0; i < cols; i++ {
				for j := 0; j < cols; j++ {
					n := 0
					if i == j {
						n = logSize(r, 500, 80000)
					}
					fmt.Fprintf(&b, " \"%s\"", strings.Repeat("w", n))
				}
				b.WriteString("\n")
			}
			src = b.String()
			c.Ev("long_lines", 1)
		case 0:
			o := textOpts
			o.maxRows, o.maxCols = 4, 5
			src = mutate(r, buildSet(c, pick(r, []string{"", "s"}), genSet(r, 1+r.IntN(3), o)).String())
		case 1, 2:
			src = mutate(r, genSource(r))
		case 3:
			src = genSource(r)
		case 4: // Token soup.
			var b strings.Builder
			b.WriteString(pick(r, []string{"", "[t]\n", "[t]\na b\nint string\n", "[t]\na int = "}))
			for n := logSize(r, 0, 30); n > 0; n-- {
				b.WriteString(pick(r, fuzzTokens))
				if chance(r, 2) {
					b.WriteString(pick(r, []string{" ", "\n"}))
				}
			}
			src = b.String()
		default: // Bytes.
			b := make([]byte, logSize(r, 0, 200))
			for i := range b {
				b[i] = byte(r.IntN(256))
			}
			src = pick(r, []string{"", "[t]\n", "[t]\na\nstring\n\"", "[t]\na\nrune\n'", "[t]\na b\n[]byte *Table\n["}) + string(b)
		}
		c.Logf("parse %q", src)
		s, err := g.NewTableSetFromString(src)
		c.Ev("parsed", 1)
		c.Distinct(src)
		if err != nil {
			c.Ev("rejected", 1)
		} else {
			judgeParsed(c, src, s)
		}
		// The single-table forms agree with the table set.
		t, err1 := g.NewTableFromString(src)
		if err != nil && err1 == nil {
			c.Failf("NewTableFromString accepts what NewTableSetFromString rejects (%v): %q", err, src)
		}
		if k%4 == 1 {
			var made *g.Table
			panicked := func() (p any) {
				defer func() { p = recover() }()
				made = g.NewTableFromStringMustMake(src)
				return nil
			}()
			if (panicked != nil) != (err1 != nil) {
				c.Failf("NewTableFromStringMustMake panics with %v: NewTableFromString gives error %v: %q", panicked, err1, src)
			}
			if panicked == nil {
				if d := diffTables(snapshot(t), snapshot(made), cmpOpts{}); d != "" {
					c.Failf("NewTableFromStringMustMake: %s: %q", d, src)
				}
			}
		}
		if err == nil && s.TableCount() >= 1 {
			t0, e := g.NewTableFromStringByTableIndex(src, 0)
			if e != nil {
				c.Failf("NewTableFromStringByTableIndex(0) of an accepted text: %v: %q", e, src)
			}
			st0, _ := s.GetTableByTableIndex(0)
			if d := diffTables(snapshot(st0), snapshot(t0), cmpOpts{}); d != "" {
				c.Failf("NewTableFromStringByTableIndex(0): %s: %q", d, src)
			}
			if err1 == nil {
				if d := diffTables(snapshot(st0), snapshot(t), cmpOpts{}); d != "" {
					c.Failf("NewTableFromString: %s: %q", d, src)
				}
			}
		}
		// A missing final line end makes no difference to what a text means.
		if strings.HasSuffix(src, "\n") && !strings.HasSuffix(src, "\n\n") {
			s2, err2 := g.NewTableSetFromString(strings.TrimSuffix(src, "\n"))
			if (err == nil) != (err2 == nil) {
				c.Failf("with final line end: %v, without: %v: %q", err, err2, src)
			}
			if err == nil {
				c.Ev("final_line_end", 1)
				if d := diffSets(snapSet(s), snapSet(s2), cmpOpts{}); d != "" {
					c.Failf("without the final line end: %s: %q", d, src)
				}
			}
		}
		if k == 0 {
			c.Sample(fmt.Sprintf("%q -> err %v", src, err))
		}
	}
}

// ---------------------------------------------------------------- C03

// litWant is what a literal must give.
type litWant int

const (
	litOK   litWant = iota // Accepted with exactly this value.
	litBad                 // Rejected.
	litFree                // Not specified.
)

var intBits = map[string]int{"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int": 64, "byte": 8, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uint": 64}

func isUnsigned(t string) bool { return t[0] == 'u' || t == "byte" }

// bigToTyped converts an in-range integer, or says that it does not fit.
func bigToTyped(typ string, n *big.Int) (any, bool) {
	bits := uint(intBits[typ])
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
	if !isUnsigned(typ) {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		return nil, false
	}
	if isUnsigned(typ) {
		u := n.Uint64()
		switch typ {
		case "byte", "uint8":
			return uint8(u), true
		case "uint16":
			return uint16(u), true
		case "uint32":
			return uint32(u), true
		case "uint64":
			return u, true
		case "uint":
			return uint(u), true
		}
	}
	return intOf(typ, n.Int64()), true
}

// genBigInt: values within, at, just beyond and far beyond the limits of a type.
func genBigInt(r *rand.Rand, typ string) *big.Int {
	bits := intBits[typ]
	n := new(big.Int)
	switch r.IntN(7) {
	case 0: // Around the limits.
		lim := uint(bits)
		if !isUnsigned(typ) {
			lim--
		}
		n.Lsh(big.NewInt(1), lim)
		if chance(r, 3) {
			n.Neg(n)
		}
		n.Add(n, big.NewInt(int64(r.IntN(7)-3)))
	case 1: // Around limits of other widths.
		n.Lsh(big.NewInt(1), uint(pick(r, []int{7, 8, 15, 16, 31, 32, 53, 63, 64, 65, 128})))
		if chance(r, 2) {
			n.Neg(n)
		}
		n.Add(n, big.NewInt(int64(r.IntN(5)-2)))
	case 2:
		n.SetInt64(int64(r.IntN(20) - 10))
	case 3: // Wraps into range when truncated to the width.
		n.Lsh(big.NewInt(int64(1+r.IntN(5))), uint(bits))
		n.Add(n, big.NewInt(int64(r.IntN(20)-5)))
	case 4:
		for i := logSize(r, 1, 30); i > 0; i-- {
			n.Mul(n, big.NewInt(10))
			n.Add(n, big.NewInt(int64(r.IntN(10))))
		}
	default:
		if isUnsigned(typ) {
			n.SetUint64(genUint(r, bits))
		} else {
			n.SetInt64(genInt(r, bits))
		}
	}
	return n
}

// genLiteral gives a literal for a column type and what it must mean. The values come from
// the generator, or from an independent reading (math/big), not from the parser.
func genLiteral(r *rand.Rand, typ string) (lit string, want litWant, val any) {
	switch typ {
	case "bool":
		if chance(r, 6) {
			return pick(r, []string{"True", "FALSE", "T", "1", "0", "yes", "truefalse", "tru", "\"true\"", "true1"}), litBad, nil
		}
		v := chance(r, 2)
		return strconv.FormatBool(v), litOK, v
	case "string":
		return genStringLiteral(r)
	case "rune":
		return genRuneLiteral(r)
	case "time.Time":
		return genTimeLiteral(r)
	case "float32", "float64":
		return genFloatLiteral(r, typ)
	case "[]byte", "[]uint8":
		n := logSize(r, 0, 12)
		out := []byte{}
		var parts []string
		want = litOK
		for i := 0; i < n; i++ {
			l, w, v := genIntLiteral(r, "uint8")
			if w != litOK && !chance(r, 6) {
				x := uint8(r.IntN(256))
				l, w, v = strconv.Itoa(int(x)), litOK, x
			}
			parts = append(parts, l)
			if w == litBad && want == litOK {
				want = litBad
			}
			if w == litFree {
				want = litFree
			}
			if w == litOK {
				out = append(out, v.(uint8))
			}
		}
		lit = "[" + strings.Join(parts, " ") + "]"
		if chance(r, 25) {
			return pick(r, []string{"[1,2]", "[1", "1]", "1", "{1 2}", "[a]", "[1 \"2\"]", "[1.5]", "[[1]]", "\"\"", "nil"}), litBad, nil
		}
		if want != litOK {
			return lit, want, nil
		}
		return lit, litOK, out
	case "*Table":
		if chance(r, 4) {
			return "[]", litOK, &MTable{Nil: true}
		}
		if chance(r, 8) {
			return pick(r, []string{"[1a]", "[a b]", "[a", "a", "[é]", "nil", "[a-b]", "{a}", "[[a]]", "[ ]", "[*]"}), litBad, nil
		}
		n := genName(r)
		return "[" + n + "]", litOK, &MTable{Name: n}
	}
	return genIntLiteral(r, typ)
}

func genIntLiteral(r *rand.Rand, typ string) (string, litWant, any) {
	if chance(r, 12) {
		return pick(r, []string{"1.0", "1e3", "0x", "0b", "0b2", "0o8", "0xG", "--1", "+-1", "-", "+", "1_000", "abc", "\"1\"", "'1'", "1a", "0x1.0", "NaN", "08", "09", "019", "true", "１", "٣", "1,000", "$1", "(1)", "0b12", "0o18"}), litBad, nil
	}
	n := genBigInt(r, typ)
	v, fits := bigToTyped(typ, n)
	want := litOK
	if !fits {
		want = litBad
	}
	abs := new(big.Int).Abs(n)
	switch r.IntN(8) {
	case 0:
		if n.Sign() >= 0 {
			return pick(r, []string{"0x", "0X"}) + pick(r, []string{abs.Text(16), strings.ToUpper(abs.Text(16))}), want, v
		}
		return "-0x" + abs.Text(16), litFree, nil
	case 1:
		if n.Sign() >= 0 {
			return pick(r, []string{"0b", "0B"}) + abs.Text(2), want, v
		}
	case 2:
		if n.Sign() >= 0 {
			return pick(r, []string{"0o", "0O"}) + abs.Text(8), want, v
		}
	case 3:
		if n.Sign() >= 0 && abs.Sign() > 0 {
			return strings.Repeat("0", 1+r.IntN(3)) + abs.Text(8), want, v // Octal with a leading zero.
		}
	case 4:
		if n.Sign() > 0 && !isUnsigned(typ) {
			return "+" + abs.Text(10), want, v
		}
	}
	return n.String(), want, v
}

// nearMiddle writes the exact middle of two neighbouring floats, or a number next to that middle.
func nearMiddle(r *rand.Rand, bits int) string {
	f := genFloat(r, bits, genOpts{noNaN: true, noInf: true})
	if chance(r, 2) {
		f = 1 + r.Float64()
	}
	next := math.Nextafter(f, 2*f)
	if bits == 32 {
		f = float64(float32(f))
		next = float64(math.Nextafter32(float32(f), 2*float32(f)))
	}
	if a := math.Abs(f); a < 1e-30 || a > 1e30 || math.IsInf(next, 0) {
		return ""
	}
	mid := new(big.Float).SetPrec(2000).SetFloat64(f)
	mid.Add(mid, new(big.Float).SetFloat64(next))
	mid.Quo(mid, big.NewFloat(2))
	s := mid.Text('f', 250) // Exact: multiples of 2^-180 at the least.
	s = strings.TrimRight(s, "0")
	if strings.HasSuffix(s, ".") {
		s += "0"
	}
	switch r.IntN(3) {
	case 0: // A little further from zero.
		s += strings.Repeat("0", r.IntN(20)) + "1"
	case 1: // A little nearer to zero.
		if i := len(s) - 1; s[i] >= '1' && s[i] <= '9' {
			s = s[:i] + string(s[i]-1) + strings.Repeat("9", 1+r.IntN(20))
		}
	}
	return s
}

func genFloatLiteral(r *rand.Rand, typ string) (string, litWant, any) {
	bits := 64
	if typ == "float32" {
		bits = 32
	}
	conv := func(f float64) any {
		if bits == 32 {
			return float32(f)
		}
		return f
	}
	switch r.IntN(10) {
	case 0:
		switch r.IntN(3) {
		case 0:
			return "NaN", litOK, conv(math.NaN())
		case 1:
			return "+Inf", litOK, conv(math.Inf(1))
		default:
			return "-Inf", litOK, conv(math.Inf(-1))
		}
	case 1:
		return pick(r, []string{"nan", "NAN", "Nan", "1.2.3", "1e", "1e+", ".", "-", "+", "e5", "1e5.5", "abc", "\"1\"", "1_0.5", "0x1p4", "1,5", "--1", "true", "1..2", "infinity", "1f", "1e9999", "-1e9999", "1.5x", "∞"}), litBad, nil
	case 3, 4: // In the middle of two neighbouring values, or as near to it as can be written.
		if s := nearMiddle(r, bits); s != "" {
			rat, _ := new(big.Rat).SetString(s)
			if bits == 32 {
				f, _ := rat.Float32()
				return s, litOK, f
			}
			f, _ := rat.Float64()
			return s, litOK, f
		}
	case 2: // Beyond or at the limits.
		if bits == 32 {
			p := pick(r, []struct {
				s string
				w litWant
				v any
			}{{"3.4028234663852886e38", litOK, float32(math.MaxFloat32)}, {"3.4028235e38", litOK, float32(math.MaxFloat32)}, {"3.4028236e38", litBad, nil}, {"1e39", litBad, nil}, {"-1e39", litBad, nil}, {"1e300", litBad, nil},
				{"1e-46", litOK, float32(0)}, {"1.401298464324817e-45", litOK, float32(math.SmallestNonzeroFloat32)}, {"16777217", litOK, float32(16777216)}, {"16777219", litOK, float32(16777220)}, {"0.1", litOK, float32(0.1)}})
			return p.s, p.w, p.v
		}
		p := pick(r, []struct {
			s string
			w litWant
			v any
		}{{"1.7976931348623157e308", litOK, math.MaxFloat64}, {"1.7976931348623159e308", litBad, nil}, {"1e309", litBad, nil}, {"-1e309", litBad, nil}, {"5e-324", litOK, 5e-324}, {"2e-324", litOK, 0.0}, {"9007199254740993", litOK, 9007199254740992.0}, {"9007199254740995", litOK, 9007199254740996.0}, {"0.1", litOK, 0.1}})
		return p.s, p.w, p.v
	}
	// A random decimal, rounded by math/big rather than by the parser.
	var s string
	if chance(r, 3) {
		f := genFloat(r, bits, genOpts{noNaN: true, noInf: true})
		s = strconv.FormatFloat(f, pick(r, []byte{'g', 'e', 'f'}), -1, bits)
		if len(s) > 60 {
			s = strconv.FormatFloat(f, 'g', -1, bits)
		}
	} else {
		var b strings.Builder
		b.WriteString(pick(r, []string{"", "", "-", "+"}))
		id, fd := r.IntN(22), r.IntN(22)
		if id+fd == 0 {
			id = 1
		}
		for i := 0; i < id; i++ {
			b.WriteByte(byte('0' + r.IntN(10)))
		}
		if fd > 0 || chance(r, 4) {
			b.WriteByte('.')
		}
		for i := 0; i < fd; i++ {
			b.WriteByte(byte('0' + r.IntN(10)))
		}
		if chance(r, 3) {
			fmt.Fprintf(&b, "%s%s%d", pick(r, []string{"e", "E"}), pick(r, []string{"", "+", "-"}), r.IntN(30))
		}
		s = b.String()
	}
	rat, ok := new(big.Rat).SetString(s)
	if !ok {
		return s, litFree, nil
	}
	neg := strings.HasPrefix(s, "-")
	if bits == 32 {
		f, _ := rat.Float32()
		if math.IsInf(float64(f), 0) {
			return s, litBad, nil
		}
		if f == 0 && neg {
			f = float32(math.Copysign(0, -1))
		}
		return s, litOK, f
	}
	f, _ := rat.Float64()
	if math.IsInf(f, 0) {
		return s, litBad, nil
	}
	if f == 0 && neg {
		f = math.Copysign(0, -1)
	}
	return s, litOK, f
}

// escapeRune writes one rune of a quoted literal in one of the notations of Go.
func escapeRune(r *rand.Rand, x rune, delim rune) string {
	simple := map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`, '\\': `\\`}
	simple[delim] = `\` + string(delim)
	plainOK := x >= 32 && x != 0x7f && x != '\\' && x != delim && x != 0x85 && x != 0xa0 && x != 0x2028 && x != 0x2029 && x != 0xfeff
	for {
		switch r.IntN(6) {
		case 0:
			if e, ok := simple[x]; ok {
				return e
			}
		case 1:
			if x < 0x80 {
				return fmt.Sprintf(`\x%02x`, x)
			}
		case 2:
			if x < 0x80 {
				return fmt.Sprintf(`\%03o`, x)
			}
		case 3:
			if x < 0x10000 {
				return fmt.Sprintf(`\u%04X`, x)
			}
		case 4:
			return fmt.Sprintf(`\U%08x`, x)
		default:
			if plainOK {
				return string(x)
			}
		}
	}
}

func genStringLiteral(r *rand.Rand) (string, litWant, any) {
	if chance(r, 10) {
		return pick(r, []string{"abc", "'abc'", "\"abc", "abc\"", "\"a\\q\"", "\"\\x4\"", "\"\\u12\"", "\"\\ud800\"", "\"\\U00110000\"", "\"\\400\"", "`abc`", "\"\\", "\"\\'\"", "\"a\"b\"", "\"a\"\"b\"", "1", "true"}), litBad, nil
	}
	var b, v strings.Builder
	b.WriteByte('"')
	for n := logSize(r, 0, 20); n > 0; n-- {
		if chance(r, 15) {
			// A byte escape: need not be UTF-8.
			x := byte(r.IntN(256))
			v.WriteByte(x)
			if chance(r, 2) {
				fmt.Fprintf(&b, `\x%02X`, x)
			} else {
				fmt.Fprintf(&b, `\%03o`, x)
			}
			continue
		}
		x := genRune(r)
		v.WriteRune(x)
		b.WriteString(escapeRune(r, x, '"'))
	}
	b.WriteByte('"')
	return b.String(), litOK, v.String()
}

func genRuneLiteral(r *rand.Rand) (string, litWant, any) {
	if chance(r, 8) {
		return pick(r, []string{"''", "'ab'", "'", "a", "\"a\"", "'\\q'", "'\\x4'", "'\\u12'", "'\\ud800'", "'\\U00110000'", "'\\400'", "'\\\"'", "'ab", "'\\'", "97", "'é\u0301'", "'\\x41b'", "'\\u0041\\u0042'"}), litBad, nil
	}
	x := genRune(r)
	return "'" + escapeRune(r, x, '\'') + "'", litOK, x
}

func daysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && y%100 != 0 || y%400 == 0 {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func genTimeLiteral(r *rand.Rand) (string, litWant, any) {
	if chance(r, 12) {
		return pick(r, []string{"2020-01-02", "2020-01-02T03:04Z", "2020-01-02T03:04:05", "2020-01-02 03:04:05Z", "20-01-02T03:04:05Z", "2020-1-2T3:4:5Z", "2020-01-02T03:04:05+1000", "2020-01-02T03:04:05X", "\"2020-01-02T03:04:05Z\"", "12020-01-02T03:04:05Z", "-2020-01-02T03:04:05Z", "2020/01/02T03:04:05Z", "now", "0", "2020-01-02T03:04:05ZZ", "2020-01-02T03:04:05Z0"}), litBad, nil
	}
	y := pick(r, []int{0, 1, 4, 100, 400, 1600, 1700, 1900, 1904, 1999, 2000, 2001, 2020, 2023, 2024, 2100, 9999, 1000 + r.IntN(9000)})
	mo, d, h, mi, s := 1+r.IntN(12), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60)
	switch r.IntN(10) {
	case 0:
		mo, d = 2, 28+r.IntN(3)
	case 1:
		d = 29 + r.IntN(4)
	case 2:
		switch r.IntN(5) {
		case 0:
			mo = pick(r, []int{0, 12, 13})
		case 1:
			d = 0
		case 2:
			h = 23 + r.IntN(3)
		case 3:
			mi = 59 + r.IntN(2)
		case 4:
			s = 59 + r.IntN(3)
		}
	}
	ok := mo >= 1 && mo <= 12 && h <= 23 && mi <= 59 && s <= 59 && d >= 1
	if ok {
		ok = d <= daysIn(y, mo)
	}
	ns := 0
	frac := ""
	if chance(r, 2) {
		digits := 1 + r.IntN(9)
		scale := 1000000000
		frac = "."
		for i := 0; i < digits; i++ {
			scale /= 10
			x := r.IntN(10)
			ns += x * scale
			frac += strconv.Itoa(x)
		}
	}
	zone, off := "Z", 0
	if chance(r, 2) {
		oh, om := r.IntN(15), pick(r, []int{0, 0, 30, 45, r.IntN(60)})
		sign := pick(r, []int{1, -1})
		off = sign * (oh*3600 + om*60)
		zone = fmt.Sprintf("%s%02d:%02d", map[int]string{1: "+", -1: "-"}[sign], oh, om)
	}
	lit := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", y, mo, d, h, mi, s, frac, zone)
	if !ok {
		return lit, litBad, nil
	}
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("", off)
	}
	return lit, litOK, time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
}

func runC03(c *Case) {
	r := c.R
	for k := 0; k < 25; k++ {
		typ := pick(r, allTypes)
		if chance(r, 3) {
			typ = pick(r, []string{"int8", "int16", "int32", "int64", "int", "uint8", "byte", "uint16", "uint32", "uint64", "uint"})
		}
		lit, want, val := genLiteral(r, typ)
		// The literal alone, in a struct, or among other cells.
		layout := r.IntN(4)
		var src string
		col, row := 0, 0
		switch layout {
		case 0:
			src = "[t]\nc\n" + typ + "\n" + lit + "\n"
		case 1:
			src = "[t]\nc " + typ + " = " + lit + "\n"
		case 2:
			src = "[t]\na c b\nint " + typ + " string\n7 " + lit + " \"x\"\n"
			col = 1
		case 3:
			// Valid rows around it.
			var good string
			for {
				l, w, _ := genLiteral(r, typ)
				if w == litOK {
					good = l
					break
				}
			}
			before := 1
			if chance(r, 2000) {
				before = logSize(r, 100, 30000)
				c.Ev("long_tables", 1)
			}
			src = "[t]\nc d\n" + typ + " bool\n" + strings.Repeat(good+" true\n", before) + lit + " false\n" + good + " true\n"
			row = before
		}
		c.Logf("%s literal %s (want %d %v) in %q", typ, lit, want, val, src)
		t, err := g.NewTableFromString(src)
		switch want {
		case litBad:
			c.Ev("bad_literals", 1)
			if err == nil {
				v, _ := t.GetValByColIndex(col, row)
				c.Failf("%s literal %s is accepted as %s: %q", typ, lit, showVal(v), src)
			}
		case litOK:
			c.Ev("good_literals", 1)
			if err != nil {
				c.Failf("%s literal %s is rejected: %v: %q", typ, lit, err, src)
			}
			v, e := t.GetValByColIndex(col, row)
			if e != nil {
				c.Failf("%s literal %s: %v", typ, lit, e)
			}
			if x, isT := v.(*g.Table); isT {
				v = snapshot(x)
			}
			if !hasGoType(typ, v) || !eqVal(val, v, cmpOpts{}) {
				c.Failf("%s literal %s is read as %s, it denotes %s: %q", typ, lit, showVal(v), showVal(val), src)
			}
			if layout == 2 {
				if v, _ := t.GetInt("a", 0); v != 7 {
					c.Failf("cell before the literal is %d, not 7: %q", v, src)
				}
				if v, _ := t.GetString("b", 0); v != "x" {
					c.Failf("cell after the literal is %q, not x: %q", v, src)
				}
			}
		default:
			c.Ev("unspecified_literals", 1)
		}
		c.Ev("type_"+typ, 1)
		if want != litFree {
			c.Distinct(typ, lit, layout)
		}
		if k == 0 {
			c.Sample(fmt.Sprintf("%s %s -> %v", typ, lit, err))
		}
	}
}

// ---------------------------------------------------------------- C04

type srcLine struct {
	text string
	kind string // set, name, names, types, row, structrow, structdef, blank, comment
	cols []MCol
	name string
}

func genLines(r *rand.Rand) (lines []srcLine) {
	add := func(kind, text string, cols []MCol, name string) {
		lines = append(lines, srcLine{text, kind, cols, name})
	}
	filler := func(blankOK bool) {
		for chance(r, 4) {
			if blankOK && chance(r, 2) {
				add("blank", pick(r, []string{"", "  ", "\t"}), nil, "")
			} else {
				add("comment", "# comment "+pick(r, []string{"", "[x]", "a b", "1 2 3"}), nil, "")
			}
		}
	}
	good := func(typ string) string {
		for {
			l, w, _ := genLiteral(r, typ)
			if w == litOK {
				return l
			}
		}
	}
	filler(true)
	if chance(r, 4) {
		add("set", "[["+genName(r)+"]]", nil, "")
		filler(true)
	}
	nt := 1 + r.IntN(4)
	for _, name := range genNames(r, nt, nil) {
		filler(true)
		add("name", "["+name+"]", nil, name)
		nc := 1 + r.IntN(5)
		var cols []MCol
		for _, n := range genNames(r, nc, nil) {
			cols = append(cols, MCol{n, pick(r, allTypes)})
		}
		filler(false)
		switch r.IntN(4) {
		case 0:
			for _, col := range cols {
				add("structrow", col.Name+" "+col.Type+" = "+good(col.Type), []MCol{col}, "")
				filler(false)
			}
		case 1:
			for _, col := range cols {
				add("structdef", col.Name+" "+col.Type, []MCol{col}, "")
				filler(false)
			}
		default:
			if len(cols) == 2 && contains(allTypes, cols[1].Name) {
				cols[1].Name += "_"
			}
			var ns, ts []string
			for _, col := range cols {
				ns = append(ns, col.Name)
				ts = append(ts, col.Type)
			}
			add("names", strings.Join(ns, " "), cols, "")
			filler(false)
			add("types", strings.Join(ts, " "), cols, "")
			for k := r.IntN(5); k > 0; k-- {
				filler(false)
				var vs []string
				for _, col := range cols {
					vs = append(vs, good(col.Type))
				}
				add("row", strings.Join(vs, " "), cols, "")
			}
		}
		add("blank", "", nil, "")
	}
	return
}

// damage makes one line unparsable on its own. Returns "" if this kind of line is not damaged.
func damage(r *rand.Rand, lines []srcLine, i int) string {
	l := lines[i]
	badLit := func(typ string) string {
		for {
			lit, w, _ := genLiteral(r, typ)
			if w == litBad {
				return lit
			}
		}
	}
	switch l.kind {
	case "name":
		return pick(r, []string{"[1" + l.name + "]", "[" + l.name, l.name + "]", "[" + l.name + "é]", "[a b]", "[a-b]", "[ ]", "[]", l.name + " x"})
	case "names":
		f := strings.Fields(l.text)
		k := r.IntN(len(f))
		f[k] = pick(r, []string{"1" + f[k], f[k] + "-x", f[k] + "é", "\"" + f[k] + "\"", "5", "a,b", "*"})
		if len(f) == 2 && contains(allTypes, f[1]) {
			return ""
		}
		return strings.Join(f, " ")
	case "types":
		f := strings.Fields(l.text)
		k := r.IntN(len(f))
		switch r.IntN(3) {
		case 0:
			f[k] = pick(r, []string{"integer", "Int", "complex64", "complex128", "[]int", "Time", "Table", "error", "5", "map", f[k] + "x", "interface{}"})
		case 1:
			f = append(f, pick(r, allTypes))
		case 2:
			if len(f) < 2 {
				return ""
			}
			f = f[:len(f)-1]
		}
		return strings.Join(f, " ")
	case "row":
		k := r.IntN(len(l.cols))
		var vs []string
		for j, col := range l.cols {
			if j == k {
				vs = append(vs, badLit(col.Type))
				continue
			}
			for {
				lit, w, _ := genLiteral(r, col.Type)
				if w == litOK {
					vs = append(vs, lit)
					break
				}
			}
		}
		switch r.IntN(5) {
		case 2: // Something stuck to the end.
			return l.text + pick(r, []string{",", ";", "}", "|", ".,"})
		case 0: // A value too many.
			return l.text + " " + pick(r, []string{"5", "\"x\"", "true", "zzz"})
		case 1: // A value too few.
			if len(l.cols) > 1 && !strings.ContainsAny(l.text, "\"'[") {
				f := strings.Fields(l.text)
				return strings.Join(f[:len(f)-1], " ")
			}
		}
		return strings.Join(vs, " ")
	case "structrow":
		// The first line of a struct decides the shape of the table.
		first := lines[i-1].kind == "name"
		for k := i - 1; k >= 0 && lines[k].kind == "comment"; k-- {
			if lines[k-1].kind == "name" {
				first = true
			}
		}
		col := l.cols[0]
		if first {
			return col.Name + " " + col.Type + " = " + badLit(col.Type)
		}
		switch r.IntN(4) {
		case 0:
			return col.Name + " " + col.Type + " ="
		case 1:
			return "1" + col.Name + " " + l.text[len(col.Name)+1:]
		case 2:
			return col.Name + " badtype = 5"
		}
		return col.Name + " " + col.Type + " = " + badLit(col.Type)
	case "structdef":
		first := lines[i-1].kind == "name"
		for k := i - 1; k >= 0 && lines[k].kind == "comment"; k-- {
			if lines[k-1].kind == "name" {
				first = true
			}
		}
		if first {
			return ""
		}
		col := l.cols[0]
		return pick(r, []string{"1" + col.Name + " " + col.Type, col.Name + " badtype", col.Name, col.Name + " " + col.Type + " = 5"})
	}
	return ""
}

// blame finds the line an error names. name is the file name or "".
func blamed(err error, name string, line int) bool {
	return strings.Contains(err.Error(), fmt.Sprintf("%s:%d:", name, line))
}

func runC04(c *Case) {
	r := c.R
	dir := c.scratch()
	for k := 0; k < 8; k++ {
		lines := genLines(r)
		at := -1
		var bad string
		for tries := 0; tries < 30 && at < 0; tries++ {
			i := r.IntN(len(lines))
			if bad = damage(r, lines, i); bad != "" {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		kind := lines[at].kind
		// A duplicate name is damage too.
		if kind == "name" && chance(r, 4) {
			for j := 0; j < at; j++ {
				if lines[j].kind == "name" {
					bad = lines[j].text
					break
				}
			}
		}
		if kind == "names" && chance(r, 4) {
			f := strings.Fields(lines[at].text)
			if len(f) > 2 {
				f[len(f)-1] = f[0]
				bad = strings.Join(f, " ")
			}
		}
		var goodText, text []string
		longTable := 0
		if kind == "row" && chance(r, 200) {
			// The row comes after many like it.
			longTable = logSize(r, 100, 70000/len(lines[at].cols))
			c.Ev("long_tables", 1)
		}
		for i, l := range lines {
			if i == at {
				for n := 0; n < longTable; n++ {
					goodText, text = append(goodText, l.text), append(text, l.text)
				}
			}
			goodText = append(goodText, l.text)
			if i == at {
				text = append(text, bad)
			} else {
				text = append(text, l.text)
			}
		}
		nl := pick(r, []string{"\n", "\r\n"})
		filled := chance(r, 500)
		if filled {
			// Comment lines in front: many, or one long one.
			n := logSize(r, 1, 70000)
			if chance(r, 3) {
				n = 65530 + r.IntN(12)
			}
			var fill []string
			for i := 0; i < n; i++ {
				fill = append(fill, pick(r, []string{"#", "# [a]", "# int", " #1"}))
			}
			if chance(r, 2) {
				fill[r.IntN(n)] = "# " + strings.Repeat(pick(r, []string{"x", "long ", "[a] ", "1 "}), logSize(r, 1000, 60000))
			}
			goodText, text = append(slices.Clone(fill), goodText...), append(fill, text...)
			at += n
			c.Ev("long_texts", 1)
		}
		at += longTable
		src := strings.Join(text, nl) + nl
		orig := strings.Join(goodText, nl) + nl
		if !utf8.ValidString(src) {
			continue
		}
		if _, err := g.NewTableSetFromString(orig); err != nil {
			c.Failf("valid text is rejected: %v: %q", err, orig)
		}
		// What was parsed before makes no difference.
		for n := r.IntN(3); n > 0 && !filled && longTable == 0; n-- {
			g.NewTableSetFromString(mutate(r, orig))
		}
		c.Logf("line %d (%s) of %q", at+1, kind, src)
		var err error
		file := ""
		how := r.IntN(4)
		switch how {
		case 0:
			_, err = g.NewTableSetFromString(src)
		case 1:
			_, err = g.NewTableFromStringByTableIndex(src, 0)
		default:
			file = filepath.Join(dir, fmt.Sprintf("f%d_%d.got", c.Idx, r.IntN(1000)))
			if e := os.WriteFile(file, []byte(src), 0o644); e != nil {
				panic(e)
			}
			if how == 2 {
				_, err = g.NewTableSetFromFile(file)
			} else {
				_, err = g.NewTableFromFileByTableName(file, strings.Trim(lines[firstName(lines)].text, "[]"))
			}
			os.Remove(file)
		}
		if err == nil {
			c.Failf("line %d (%s) is damaged, and the text is accepted: %q", at+1, kind, src)
		}
		if !blamed(err, file, at+1) {
			c.Failf("line %d (%s) of file %q is damaged: %q, but the error says: %v\ntext %q", at+1, kind, file, bad, err, src)
		}
		if file == "" && strings.Contains(err.Error(), ".got:") {
			c.Failf("a text that came from no file is blamed on a file: %v", err)
		}
		c.Ev("damaged_"+kind, 1)
		c.Ev("errors_judged", 1)
		if file != "" {
			c.Ev("from_file", 1)
		}
		c.Distinct(src, how)
		if k == 0 {
			c.Sample(fmt.Sprintf("line %d %q: %v", at+1, bad, err))
		}
	}
}

func firstName(lines []srcLine) int {
	for i, l := range lines {
		if l.kind == "name" {
			return i
		}
	}
	return 0
}

func init() {
	register(&Prop{ID: "C01", Quick: 48000, Thorough: 1500000, Run: runC01,
		Rule: "one case = one random table (all 20 column types, all layouts) or table set, written in three text forms and parsed back; distinct = different table contents with at least one row, or sets of at least two tables",
		Need: []string{"table_round_trips", "set_round_trips", "struct_shape", "crlf", "nested_texts"}})
	register(&Prop{ID: "C02", Quick: 60000, Thorough: 2500000, Run: runC02,
		Rule: "one case = 12 source texts (grammar-generated, mutated, token soup, raw bytes); distinct = different source texts parsed",
		Need: []string{"accepted", "rejected", "final_line_end"}})
	register(&Prop{ID: "C03", Quick: 100000, Thorough: 5000000, Run: runC03,
		Rule: "one case = 25 literals over all column types in four layouts, with the denoted value computed independently (math/big, calendar arithmetic, rune by rune escapes); distinct = different (type, literal, layout) with a specified meaning",
		Need: []string{"good_literals", "bad_literals"}})
	register(&Prop{ID: "C04", Quick: 30000, Thorough: 1000000, Run: runC04,
		Rule: "one case = 8 valid texts, each with exactly one damaged line, parsed from a string or a file after other parses; distinct = different damaged texts",
		Need: []string{"errors_judged", "from_file", "damaged_row", "damaged_types", "damaged_names", "damaged_name", "damaged_structrow"}})
}
