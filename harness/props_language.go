package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// C33: the text form as a language. What a text denotes is worked out here, without the library:
// a reader of what the library writes, and a writer of what the library reads.

// readVal gives the value that a field denotes in a column of type typ.
func readVal(typ, s string) (any, error) {
	bits := map[string]int{"int": strconv.IntSize, "int8": 8, "int16": 16, "int32": 32, "int64": 64,
		"uint": strconv.IntSize, "byte": 8, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}[typ]
	switch typ {
	case "bool":
		if s != "true" && s != "false" {
			return nil, fmt.Errorf("no bool")
		}
		return s == "true", nil
	case "string":
		if !strings.HasPrefix(s, `"`) {
			return nil, fmt.Errorf("no string")
		}
		return strconv.Unquote(s)
	case "rune":
		if !strings.HasPrefix(s, "'") {
			return nil, fmt.Errorf("no rune")
		}
		x, _, tail, err := strconv.UnquoteChar(s[1:], '\'')
		if err == nil && tail != "'" {
			err = fmt.Errorf("no rune")
		}
		return x, err
	case "time.Time":
		return time.Parse(time.RFC3339Nano, s)
	case "float32":
		f, err := strconv.ParseFloat(s, 32)
		return float32(f), err
	case "float64":
		return strconv.ParseFloat(s, 64)
	case "[]byte", "[]uint8":
		if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
			return nil, fmt.Errorf("no slice")
		}
		out := []byte{}
		for _, f := range strings.Fields(s[1 : len(s)-1]) {
			n, err := strconv.ParseUint(f, 0, 8)
			if err != nil {
				return nil, err
			}
			out = append(out, byte(n))
		}
		return out, nil
	case "*Table":
		if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
			return nil, fmt.Errorf("no table")
		}
		return &MTable{Name: s[1 : len(s)-1], Nil: s == "[]"}, nil
	}
	if isUnsigned(typ) {
		n, err := strconv.ParseUint(s, 0, bits)
		if err != nil {
			return nil, err
		}
		switch typ {
		case "uint":
			return uint(n), nil
		case "uint8", "byte":
			return uint8(n), nil
		case "uint16":
			return uint16(n), nil
		case "uint32":
			return uint32(n), nil
		}
		return n, nil
	}
	n, err := strconv.ParseInt(s, 0, bits)
	return intOf(typ, n), err
}

// readText gives the tables that a text written by the library denotes, and the name of the set.
func readText(text string) (set string, ms []*MTable, err error) {
	var m *MTable
	stage := 0 // 1: after a table's name. 2: after names. 3: rows. 4: struct.
	for i, line := range strings.Split(text, "\n") {
		bad := func(format string, args ...any) (string, []*MTable, error) {
			return "", nil, fmt.Errorf("line %d (%.200q): %s", i+1, line, fmt.Sprintf(format, args...))
		}
		if line == "" {
			m, stage = nil, 0
			continue
		}
		if name, ok := strings.CutPrefix(line, "[["); ok && len(ms) == 0 && set == "" {
			if set, ok = strings.CutSuffix(name, "]]"); !ok {
				return bad("no name of a set")
			}
			continue
		}
		if m == nil {
			if line[0] != '[' || line[len(line)-1] != ']' {
				return bad("no name of a table")
			}
			m = &MTable{Name: line[1 : len(line)-1]}
			ms = append(ms, m)
			stage = 1
			continue
		}
		fs, err := fieldsOf(line)
		if err != nil {
			return bad("%v", err)
		}
		if stage == 1 && (len(fs) == 2 && contains(allTypes, fs[1].text) || len(fs) == 4 && fs[2].text == "=") {
			stage = 4
			m.Shape = true
			if len(fs) == 4 {
				m.Rows = [][]any{nil}
			}
		}
		switch stage {
		case 1:
			for _, f := range fs {
				m.Cols = append(m.Cols, MCol{Name: f.text})
			}
			stage = 2
		case 2:
			if len(fs) != len(m.Cols) {
				return bad("%d types for %d names", len(fs), len(m.Cols))
			}
			for k, f := range fs {
				m.Cols[k].Type = f.text
			}
			stage = 3
		case 3:
			if len(fs) != len(m.Cols) {
				return bad("%d cells for %d names", len(fs), len(m.Cols))
			}
			row := make([]any, len(fs))
			for k, f := range fs {
				if row[k], err = readVal(m.Cols[k].Type, f.text); err != nil {
					return bad("%s %s: %v", m.Cols[k].Type, f.text, err)
				}
			}
			m.Rows = append(m.Rows, row)
		case 4:
			if len(fs) != 2+2*len(m.Rows) {
				return bad("%d fields in a struct with %d rows", len(fs), len(m.Rows))
			}
			m.Cols = append(m.Cols, MCol{fs[0].text, fs[1].text})
			if len(fs) == 4 {
				v, err := readVal(fs[1].text, fs[3].text)
				if err != nil {
					return bad("%s %s: %v", fs[1].text, fs[3].text, err)
				}
				m.Rows[0] = append(m.Rows[0], v)
			}
		}
	}
	return
}

// layOut writes tables that it makes up in the text form, laid out freely.
func layOut(r *rand.Rand) (set string, ms []*MTable, text string) {
	var b strings.Builder
	tidy := chance(r, 4)
	eol := pick(r, []string{"\n", "\n", "\r\n"})
	ws := func() string {
		if tidy {
			return " "
		}
		return pick(r, []string{" ", " ", "  ", "\t", "\t\t", " \t ", "          "})
	}
	ind := func() string {
		if tidy || chance(r, 2) {
			return ""
		}
		return pick(r, []string{" ", "\t", "    "})
	}
	nl := func() {
		if !tidy && chance(r, 4) {
			b.WriteString(pick(r, []string{" ", "\t", "   "}))
		}
		b.WriteString(eol)
		for !tidy && chance(r, 10) {
			b.WriteString(ind() + "#" + pick(r, []string{"", " ", " comment", "[x]", " [[x]]", " a b c", " = 5", "#", " \"open", " 'x", " é日本", "\tint string"}) + eol)
		}
	}
	blank := func() {
		for n := 1 + r.IntN(2); n > 0; n-- {
			b.WriteString(ind())
			nl()
		}
	}
	lit := func(typ string) (string, any) {
		if typ == "string" && chance(r, 3) {
			v := genString(r, genOpts{bigStrings: chance(r, 20)})
			if chance(r, 2) {
				v = strings.Repeat(pick(r, []string{" # ", " #x", "#", " = ", "=", "[t]", "\n\n[t]\n", "\r\n", "]", "'", "\\", "\"", "//", "\t", "int", "true", " "}), 1+r.IntN(3)) + pick(r, []string{"", "x", v})
			}
			return strconv.Quote(v), v
		}
		for {
			l, w, v := genLiteral(r, typ)
			if w == litOK {
				return l, v
			}
		}
	}
	if !tidy && chance(r, 6) {
		blank()
	}
	if chance(r, 3) {
		set = genName(r)
		b.WriteString(ind() + "[[" + set + "]]")
		nl()
		if chance(r, 2) {
			blank()
		}
	}
	nt := 1 + r.IntN(4)
	if chance(r, 500) {
		nt = 100 + r.IntN(200)
	}
	types := allTypes
	if chance(r, 3) {
		types = []string{pick(r, allTypes), pick(r, allTypes)}
	}
	for i, name := range genNames(r, nt, nil) {
		if i > 0 {
			blank()
		}
		m := &MTable{Name: name}
		ms = append(ms, m)
		b.WriteString(ind() + "[" + name + "]")
		nl()
		nc := logSize(r, 0, 8)
		if chance(r, 200) {
			nc = 8 + r.IntN(100)
		}
		for _, n := range genNames(r, nc, nil) {
			m.Cols = append(m.Cols, MCol{n, pick(r, types)})
		}
		if nc == 0 {
			continue
		}
		if chance(r, 3) {
			m.Shape = true
			filled := chance(r, 2)
			if filled {
				m.Rows = [][]any{nil}
			}
			for _, col := range m.Cols {
				b.WriteString(ind() + col.Name + ws() + col.Type)
				if filled {
					l, v := lit(col.Type)
					m.Rows[0] = append(m.Rows[0], v)
					b.WriteString(ws() + "=" + ws() + l)
				}
				nl()
			}
			continue
		}
		var ns, ts string
		for k, col := range m.Cols {
			if k > 0 {
				ns += ws()
				ts += ws()
			}
			ns += col.Name
			ts += col.Type
		}
		b.WriteString(ind() + ns)
		nl()
		b.WriteString(ind() + ts)
		nl()
		nr := logSize(r, 0, 8)
		if chance(r, 300) {
			nr = 100 + r.IntN(1000)
		}
		for ; nr > 0; nr-- {
			row := make([]any, nc)
			b.WriteString(ind())
			for k, col := range m.Cols {
				if k > 0 {
					b.WriteString(ws())
				}
				var l string
				l, row[k] = lit(col.Type)
				b.WriteString(l)
			}
			nl()
			m.Rows = append(m.Rows, row)
		}
	}
	text = b.String()
	if chance(r, 5) {
		text = strings.TrimRight(text, "\r\n")
	}
	return
}

var languageCmp = cmpOpts{noKeys: true, nameOnly: true}

func runC33(c *Case) {
	r := c.R
	if chance(r, 2) {
		// What the library reads.
		set, ms, text := layOut(r)
		c.Logf("laid out:\n%s", text)
		judge := func(what string, s *g.TableSet, err error) {
			if err != nil {
				c.Failf("%s: %v\n%s\n%q", what, err, text, text)
			}
			if s.Name() != set {
				c.Failf("%s: a set named %q, the text says %q\n%s", what, s.Name(), set, text)
			}
			if d := diffSets(ms, snapSet(s), languageCmp); d != "" {
				c.Failf("%s: the text denotes what it is not read as: %s\n%s\n%q", what, d, text, text)
			}
		}
		s, err := g.NewTableSetFromString(text)
		judge("NewTableSetFromString", s, err)
		if chance(r, 10) {
			name := filepath.Join(c.scratch(), "language.got")
			if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
				panic(err)
			}
			s, err = g.NewTableSetFromFile(name)
			judge("NewTableSetFromFile", s, err)
			os.Remove(name)
			c.Ev("files", 1)
		}
		i := r.IntN(len(ms))
		t, err := g.NewTableFromStringByTableName(text, ms[i].Name)
		if err != nil {
			c.Failf("NewTableFromStringByTableName(%q): %v\n%s", ms[i].Name, err, text)
		}
		if d := diffTables(ms[i], snapshot(t), languageCmp); d != "" {
			c.Failf("NewTableFromStringByTableName(%q): %s\n%s", ms[i].Name, d, text)
		}
		for _, m := range ms {
			c.Ev("cells_read", m.cellCount())
		}
		c.Ev("laid_out", 1)
		c.Ev("tables_read", len(ms))
		c.Distinct(text)
		if c.Idx%100 < 2 {
			c.Sample(text)
		}
		return
	}
	// What the library writes.
	o := sizedText(c)
	ms := genSet(r, max(1, logSize(r, 0, 5)), o)
	widen(c, ms[0])
	set := ""
	if chance(r, 3) {
		set = genName(r)
	}
	s := buildSet(c, set, ms)
	want := make([]*MTable, len(ms))
	for i, m := range ms {
		want[i] = m.clone()
		want[i].Shape = m.Shape && len(m.Rows) <= 1 && len(m.Cols) > 0
	}
	judge := func(what, text, set string, want []*MTable) {
		got, ms, err := readText(text)
		if err != nil {
			c.Failf("%s cannot be read: %v\n%s", what, err, text)
		}
		if got != set {
			c.Failf("%s is of a set named %q, not %q\n%s", what, got, set, text)
		}
		if d := diffSets(want, ms, languageCmp); d != "" {
			c.Failf("%s does not denote what it was written from: %s\n%s", what, d, text)
		}
		c.Ev("written", 1)
	}
	judge("TableSet.String()", s.String(), set, want)
	judge("TableSet.StringPadded()", s.StringPadded(), set, want)
	judge("TableSet.StringUnpadded()", s.StringUnpadded(), set, want)
	i := r.IntN(len(ms))
	t, err := s.GetTableByTableIndex(i)
	if err != nil {
		c.Failf("GetTableByTableIndex(%d): %v", i, err)
	}
	judge("Table.String()", t.String(), "", want[i:i+1])
	judge("Table.StringUnpadded()", t.StringUnpadded(), "", want[i:i+1])
	for _, m := range ms {
		c.Ev("cells_written", m.cellCount())
		for _, col := range m.Cols {
			if len(m.Rows) > 0 {
				c.Ev("type_"+col.Type, 1)
			}
		}
	}
	c.Distinct(setString(ms), set)
}

func init() {
	register(&Prop{ID: "C33", Quick: 150000, Thorough: 3000000, Run: runC33,
		Rule:   "a case either lays out tables of its own making as text (any notation of a literal, spacing, indentation, comments, line ends) and compares what the library reads with them, or builds tables and compares them with what an own reader makes of each text that the library writes; distinct is counted over texts and contents",
		Need:   []string{"laid_out", "tables_read", "cells_read", "files", "written", "cells_written"},
		Assume: []string{"Go's strconv and time read back what Go writes"}})
}
