package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// C29: the layout of padded and unpadded text.

// field of a line, with the positions (in characters) where it begins and where it has ended.
type field struct {
	text       string
	begin, end int
}

// fieldsOf reads the fields of a line of cells: quoted strings, quoted runes, slices in brackets, and words.
func fieldsOf(line string) (fs []field, err error) {
	at := 0 // In characters.
	for line != "" {
		if line[0] == ' ' {
			line = line[1:]
			at++
			continue
		}
		n := 0
		switch line[0] {
		case '"', '\'':
			q := line[0]
			for n = 1; n < len(line) && line[n] != q; n++ {
				if line[n] == '\\' {
					n++
				}
			}
			n++
		case '[':
			n = strings.IndexByte(line, ']') + 1
			if strings.HasPrefix(line, "[]") && len(line) > 2 && line[2] != ' ' {
				n = 2 + strings.IndexByte(line[2:]+" ", ' ') // A column type such as []byte.
			}
		default:
			n = strings.IndexByte(line+" ", ' ')
		}
		if n <= 0 || n > len(line) {
			return nil, fmt.Errorf("a field without end at character %d: %.60q", at, line)
		}
		f := field{line[:n], at, at + utf8.RuneCountInString(line[:n])}
		if n < len(line) && line[n] != ' ' {
			return nil, fmt.Errorf("fields touch at character %d: %.60q", f.end, line)
		}
		fs = append(fs, f)
		at = f.end
		line = line[n:]
	}
	return fs, nil
}

func isRightAligned(typ string) bool {
	switch typ {
	case "float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte":
		return true
	}
	return false
}

// judgeLayout compares the padded text of a table with its unpadded text.
func judgeLayout(c *Case, m *MTable, padded, unpadded string) {
	fail := func(format string, args ...any) {
		c.Failf("%s\nin\n%s", fmt.Sprintf(format, args...), padded)
	}
	if !strings.HasSuffix(padded, "\n") || !strings.HasSuffix(unpadded, "\n") {
		fail("the last line has no end")
	}
	pl := strings.Split(strings.TrimSuffix(padded, "\n"), "\n")
	ul := strings.Split(strings.TrimSuffix(unpadded, "\n"), "\n")
	if m.Shape && len(m.Rows) <= 1 {
		// A name, a type, and a value if there is a row, on a line of their own for each column.
		if padded != unpadded {
			fail("padded and unpadded text of a struct differ: %q", unpadded)
		}
		if len(pl) != 1+len(m.Cols) || pl[0] != "["+m.Name+"]" {
			fail("%d lines for %d columns", len(pl), len(m.Cols))
		}
		for i, col := range m.Cols {
			want := col.Name + " " + col.Type
			if len(m.Rows) == 1 {
				want += " = "
				if len(pl[1+i]) <= len(want) {
					fail("no value for %s", col.Name)
				}
			} else if pl[1+i] != want {
				fail("line %q: expected %q", pl[1+i], want)
			}
			if !strings.HasPrefix(pl[1+i], want) {
				fail("line %q: expected %q ...", pl[1+i], want)
			}
		}
		c.Ev("structs", 1)
		return
	}
	if len(m.Cols) == 0 {
		return
	}
	if len(pl) != 3+len(m.Rows) || len(ul) != len(pl) {
		fail("%d lines padded, %d lines unpadded, for %d rows", len(pl), len(ul), len(m.Rows))
	}
	if pl[0] != "["+m.Name+"]" || ul[0] != pl[0] {
		fail("name line %q and %q", pl[0], ul[0])
	}
	edge := make([]int, len(m.Cols))
	point := make([]int, len(m.Cols))
	last := make([]int, len(m.Cols)) // Where the longest fraction ends.
	for i := range edge {
		edge[i], point[i], last[i] = -1, -1, -1
	}
	for li := 1; li < len(pl); li++ {
		if strings.HasSuffix(pl[li], " ") || strings.HasSuffix(ul[li], " ") {
			fail("line %d ends with a space", li+1)
		}
		fs, err := fieldsOf(pl[li])
		if err != nil {
			fail("line %d: %v", li+1, err)
		}
		us, err := fieldsOf(ul[li])
		if err != nil {
			fail("line %d of the unpadded text: %v", li+1, err)
		}
		if len(fs) != len(m.Cols) || len(us) != len(fs) {
			fail("line %d has %d fields padded and %d unpadded, for %d columns", li+1, len(fs), len(us), len(m.Cols))
		}
		var join []string
		for _, u := range us {
			join = append(join, u.text)
		}
		if strings.Join(join, " ") != ul[li] {
			fail("line %d of the unpadded text does not have exactly one space between fields: %q", li+1, ul[li])
		}
		for i, col := range m.Cols {
			f := fs[i]
			isFloat := isFloatType(col.Type) && li > 2
			switch {
			case li == 1 && (f.text != col.Name || us[i].text != col.Name), li == 2 && (f.text != col.Type || us[i].text != col.Type):
				fail("line %d: column %d is headed %q and %q", li+1, i, f.text, us[i].text)
			case !isFloat && f.text != us[i].text:
				fail("line %d column %s: %q padded, %q unpadded", li+1, col.Name, f.text, us[i].text)
			case isFloat:
				bits := 64
				if col.Type == "float32" {
					bits = 32
				}
				a, e1 := strconv.ParseFloat(f.text, bits)
				b, e2 := strconv.ParseFloat(us[i].text, bits)
				if e1 != nil || e2 != nil || a != b && (a == a || b == b) {
					fail("line %d column %s: %q padded, %q unpadded (%v, %v)", li+1, col.Name, f.text, us[i].text, e1, e2)
				}
			}
			switch {
			case !isRightAligned(col.Type):
				if edge[i] < 0 {
					edge[i] = f.begin
				}
				if f.begin != edge[i] {
					fail("line %d: column %s begins at character %d, and at %d in lines above", li+1, col.Name, f.begin, edge[i])
				}
			case isFloat && strings.Contains(f.text, "."):
				at := f.begin + strings.IndexByte(f.text, '.')
				if point[i] < 0 {
					point[i] = at
				}
				if at != point[i] {
					fail("line %d: the decimal point of column %s is at character %d, and at %d in lines above", li+1, col.Name, at, point[i])
				}
				if f.end > edge[i] {
					fail("line %d: column %s ends at character %d, and at %d in lines above", li+1, col.Name, f.end, edge[i])
				}
				last[i] = max(last[i], f.end)
			default:
				if edge[i] < 0 {
					edge[i] = f.end
				}
				if f.end != edge[i] {
					fail("line %d: column %s ends at character %d, and at %d in lines above", li+1, col.Name, f.end, edge[i])
				}
			}
			c.Ev("fields", 1)
		}
	}
	for i, col := range m.Cols {
		if last[i] >= 0 && last[i] != edge[i] {
			fail("the longest fraction of column %s ends at character %d, its name and type at %d", col.Name, last[i], edge[i])
		}
		if point[i] >= 0 {
			c.Ev("decimal_points", 1)
		}
	}
	c.Ev("tables", 1)
}

func runC29(c *Case) {
	r := c.R
	o := sizedText(c)
	o.shape = chance(r, 3)
	switch r.IntN(4) {
	case 0:
		o.types = []string{"float64", "float32", pick(r, allTypes), "string"}
	case 1:
		o.bigStrings = false
	}
	if chance(r, 3) {
		m := genTable(r, o)
		widen(c, m)
		t := build(c, m)
		c.Logf("table %v", m)
		padded, unpadded := t.StringPadded(), t.StringUnpadded()
		if s := t.String(); s != padded {
			c.Failf("String differs from StringPadded:\n%s\n%s", s, padded)
		}
		if s := fmt.Sprint(t); s != padded {
			c.Failf("fmt.Sprint of the table differs from StringPadded:\n%s\n%s", s, padded)
		}
		disturb(c)
		judgeLayout(c, m, padded, unpadded)
		c.Distinct(m.fullKey())
		return
	}
	n := manyTables(c, 1+r.IntN(3), 501)
	var ms []*MTable
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		if n > 10 {
			o.maxRows, o.maxCols, o.minRows, o.minCols = 3, 4, 0, 0
		}
		m := genTable(r, o)
		if m.Nil {
			continue
		}
		for seen[m.Name] {
			m.Name = fmt.Sprintf("%s_%d", m.Name, i)
		}
		seen[m.Name] = true
		ms = append(ms, m)
	}
	name := ""
	if chance(r, 2) {
		name = genName(r)
	}
	s := buildSet(c, name, ms)
	padded, unpadded := s.StringPadded(), s.StringUnpadded()
	if x := s.String(); x != padded {
		c.Failf("String of the set differs from StringPadded:\n%s\n%s", x, padded)
	}
	want := []string{"", ""}
	if name != "" {
		want[0] = "[[" + name + "]]\n\n"
		want[1] = want[0]
	}
	for i, m := range ms {
		t, err := s.GetTableByTableIndex(i)
		if err != nil {
			c.Failf("GetTableByTableIndex(%d): %v", i, err)
		}
		if i > 0 {
			want[0] += "\n"
			want[1] += "\n"
		}
		want[0] += t.StringPadded()
		want[1] += t.StringUnpadded()
		judgeLayout(c, m, t.StringPadded(), t.StringUnpadded())
	}
	if padded != want[0] {
		c.Failf("padded text of the set:\n%s\nis not its tables separated by empty lines:\n%s", padded, want[0])
	}
	if unpadded != want[1] {
		c.Failf("unpadded text of the set:\n%s\nis not its tables separated by empty lines:\n%s", unpadded, want[1])
	}
	c.Ev("sets", 1)
	c.Distinct(setString(ms))
}

func init() {
	register(&Prop{ID: "C29", Quick: 160000, Thorough: 4000000, Run: runC29,
		Rule:   "a case builds a table or a table set, writes it padded and unpadded, reads the fields of each line with their positions, and compares positions down each column and texts across the two forms; distinct is counted over contents",
		Need:   []string{"tables", "fields", "decimal_points", "structs", "sets"},
		Assume: []string{"each character (rune) takes one position"}})
}
