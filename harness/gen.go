package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"strings"
	"time"
	"unicode/utf8"
)

// Generators. Everything is a function of the PRNG of the case.

type genOpts struct {
	types       []string // Column types to choose from.
	emptyRows   bool     // tables without columns may have rows
	minCols     int
	maxCols     int
	minRows     int
	maxRows     int
	depth       int  // Nesting depth allowed for *Table columns.
	utf8Only    bool // Strings are valid UTF-8.
	noNaN       bool
	noInf       bool
	noNegZero   bool
	bigStrings  bool
	shape       bool // May have struct shape.
	keys        bool // May have sort keys.
	smallValues bool // Few distinct values (many duplicates).
	plainNested bool // Nested tables have no shape and keys.
	noNilTable  bool
	nameFn      func(r *rand.Rand) string
	hugeCell    bool // One cell holds a very long text or byte slice.
	longNames   bool // One name is very long.
	chain       int  // Nested this deep in further tables.
}

func pick[T any](r *rand.Rand, s []T) T { return s[r.IntN(len(s))] }

func chance(r *rand.Rand, oneIn int) bool { return r.IntN(oneIn) == 0 }

// logSize gives sizes spread over orders of magnitude in [lo, hi].
func logSize(r *rand.Rand, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	f := r.Float64()
	n := math.Exp(f*math.Log(float64(hi-lo+1))) - 1
	return lo + min(int(n), hi-lo)
}

var nameStems = []string{
	"a", "b", "c", "x", "y", "z", "_", "__", "_1", "A", "Z9", "Int", "int1", "string_", "uint80", "Bool", "floats",
	"time", "Time", "Table", "table", "tables", "col", "Col", "row", "key", "value", "name", "type", "func", "range",
	"nil", "true", "false", "NaN", "Inf", "null", "map", "rowIndex", "err", "date", "metadata", "data", "tableName", "tableSetName",
	"a1b2c3", "XMLHttpRequest", "snake_case_name", "camelCaseName", "ALL_CAPS", "isNilTable", "parent", "rune_", "byte1", "slice", "n", "N", "on", "yes", "e1", "E5", "x0F", "_TABLE_", "_DELETE_", "_TABLE__", "Merged", "colName", "colType",
}

func genName(r *rand.Rand) string {
	s := genAnyName(r)
	if isTypeName(s) {
		s += "_"
	}
	return s
}

func genAnyName(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0, 1, 2:
		return pick(r, nameStems)
	case 3:
		return pick(r, nameStems) + fmt.Sprint(r.IntN(100))
	case 4:
		const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
		const rest = first + "0123456789"
		n := logSize(r, 1, 12)
		if chance(r, 20) {
			n = logSize(r, 12, 120)
		}
		b := make([]byte, n)
		b[0] = first[r.IntN(len(first))]
		for i := 1; i < n; i++ {
			b[i] = rest[r.IntN(len(rest))]
		}
		return string(b)
	default:
		return string(rune('a'+r.IntN(26))) + fmt.Sprint(r.IntN(10))
	}
}

func isTypeName(s string) bool {
	for _, t := range allTypes {
		if t == s {
			return true
		}
	}
	return false
}

func genNames(r *rand.Rand, n int, fn func(*rand.Rand) string) []string {
	if fn == nil {
		fn = genName
	}
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		s := fn(r)
		if seen[s] {
			s = fmt.Sprintf("%s_%d", s, len(out))
			if seen[s] {
				continue
			}
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

var trickyStrings = []string{
	"", " ", "  ", "\t", "\n", "\r", "\r\n", "\n\n", "\x00", "a\x00b", "\"", "'", "`", "\\", "\\n", "\\\"", "\"\"", "[", "]", "[]", "[x]", "[[x]]",
	"{", "}", "{}", ",", ";", ":", "=", " = ", "#", "# comment", "a # b", "//", "/*", "*/", "<b>&amp;</b>", "&", "<", ">", "%", "%d", "%s%n", "%!", "$", "~", "null", "Null", "nil", "<nil>",
	"true", "false", "yes", "no", "on", "off", "y", "n", "NaN", "nan", ".nan", ".inf", "-.inf", "+Inf", "-Inf", "Infinity", "0", "-0", "00", "010", "0x1F", "0b1", "0o7", "1e3", "1E400", "1_000", "1.0", "-1", "+1", ".5", "5.",
	"2020-01-02", "2020-01-02T03:04:05Z", "12:34:56", "- a", "-", "--", "---", "...", "? x", "! x", "!!str", "!!binary aGk=", "& x", "&a", "* x", "*a", "| x", "|", ">", ">-", "@", "@x", "%TAG", "key: value", "a: b: c", "{a: b}", "[a, b]", "\"quoted\"", "'single'", "it's", "a\\tb",
	" leading", "trailing ", "\ttab", "tab\t", "\nnewline", "newline\n", "two\nlines", "three\n\nlines\n", "a\rb", "crlf\r\nx",
	"é", "日本語", "😀", "👨‍👩‍👧", "e\u0301", "\u202e", "\u200b", "\ufeff", "\ufeffbom", "\u2028", "\u2029", "\u0085", "\u00a0", "\ufffd", "\ud7ff", "\ue000", "\U0010ffff", "\u0001", "\u001b[0m", "\u007f", "\u0080", "\u009f", "ß", "İ", "ı", "K", "Å",
	"ſ", "ǅ", "a\bc", "a\fc", "a\vc", "a\ac", "string", "int", "*Table", "[]byte", "colName", "<script>", "http://x/?a=b&c=d", "C:\\dir\\file", "\\u0041", "\\x41", "u0041", "<<", "<<: *a", "=", "0755", "1:20", "0.0.0.0", "+", "a,b", "\"a\",\"b\"", "a\"b", "'a", "a'", "``", "`a`",
}

var invalidUTF8 = []string{"\xff", "a\xffb", "\xc3", "\xc3\x28", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "ok\xfe\xfeok", "\xe2\x82"}

func genString(r *rand.Rand, o genOpts) string {
	switch r.IntN(8) {
	case 0, 1, 2:
		return pick(r, trickyStrings)
	case 3:
		n := r.IntN(4)
		var b strings.Builder
		for i := 0; i <= n; i++ {
			b.WriteString(pick(r, trickyStrings))
		}
		return b.String()
	case 4:
		n := logSize(r, 0, 40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + r.IntN(95))
		}
		return string(b)
	case 5:
		n := logSize(r, 0, 20)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(genRune(r))
		}
		return b.String()
	case 6:
		if !o.utf8Only {
			if chance(r, 2) {
				return pick(r, trickyStrings) + pick(r, invalidUTF8) + pick(r, trickyStrings)
			}
			n := logSize(r, 0, 30)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.IntN(256))
			}
			return string(b)
		}
		return strings.Repeat(pick(r, trickyStrings), 1+r.IntN(5))
	default:
		if o.bigStrings && chance(r, 12) {
			return strings.Repeat(pick(r, []string{"x", "ab ", "line\n", "é", "\"", "\\", "k: v\n", "😀", "1,"}), logSize(r, 100, 20000))
		}
		words := []string{"alpha", "Beta", "gamma", "DELTA", "the", "quick", "Fox", "zebra", "Apple", "apple", "banana"}
		n := r.IntN(5)
		var b []string
		for i := 0; i <= n; i++ {
			b = append(b, pick(r, words))
		}
		return strings.Join(b, " ")
	}
}

func genRune(r *rand.Rand) rune {
	switch r.IntN(6) {
	case 0:
		return rune(r.IntN(128))
	case 1:
		return pick(r, []rune{0, '\n', '\'', '"', '\\', '\t', '\r', ' ', 'a', '[', ']', '#', '=', '`', 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0x1f600, 'é', '日'})
	case 2:
		return rune(32 + r.IntN(95))
	case 3:
		return rune(0x80 + r.IntN(0x700))
	default:
		for {
			x := rune(r.IntN(0x110000))
			if utf8.ValidRune(x) {
				return x
			}
		}
	}
}

func genUint(r *rand.Rand, bits int) uint64 {
	maxv := uint64(1)<<(bits-1)<<1 - 1
	switch r.IntN(6) {
	case 0:
		return uint64(r.IntN(10)) & maxv
	case 1:
		return maxv - uint64(r.IntN(3))
	case 2:
		// Around a power of two.
		p := uint64(1) << r.IntN(bits)
		switch r.IntN(3) {
		case 0:
			p--
		case 1:
			p++
		}
		return p & maxv
	case 3:
		// Around a power of ten.
		p := uint64(1)
		for i := r.IntN(20); i > 0; i-- {
			p *= 10
		}
		return (p + uint64(r.IntN(3)) - 1) & maxv
	case 4:
		return (uint64(1)<<53 + uint64(r.IntN(5)) - 2) & maxv
	default:
		return r.Uint64() & maxv >> r.IntN(bits)
	}
}

func genInt(r *rand.Rand, bits int) int64 {
	switch r.IntN(5) {
	case 0:
		return int64(r.IntN(20)) - 10
	case 1:
		lo := int64(-1) << (bits - 1)
		return lo + int64(r.IntN(3))
	case 2:
		hi := int64(1)<<(bits-1) - 1
		return hi - int64(r.IntN(3))
	default:
		u := genUint(r, bits)
		return int64(u<<(64-bits)) >> (64 - bits)
	}
}

var specialFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.2, 0.3, 1.0 / 3, 100, 1e6, 1e15, 1e16, 1e17, 123456789.125, 1e21, 1e22, 1e-5, 1e-7, 1e100, -1e100, 1e300, 5e-324, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
	math.MaxFloat32, math.SmallestNonzeroFloat32, 9007199254740991, 9007199254740992, 9007199254740993, 16777216, 16777217, 0.5, 2.5, 1e-10, 3.14159265358979, 1e9, 4294967296, 9223372036854775807, 18446744073709551615, 12345678901234567890}

func genFloat(r *rand.Rand, bits int, o genOpts) float64 {
	for {
		var f float64
		switch r.IntN(8) {
		case 0:
			f = pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0})
		case 1, 2:
			f = pick(r, specialFloats)
		case 3:
			f = float64(r.IntN(2000)-1000) / 8
		case 4:
			f = float64(r.IntN(1000000)) / 1000
		case 5:
			if bits == 32 {
				f = float64(math.Float32frombits(r.Uint32()))
			} else {
				f = math.Float64frombits(r.Uint64())
			}
		case 6:
			f = r.NormFloat64() * math.Pow(10, float64(r.IntN(40)-20))
		default:
			f = float64(int64(genInt(r, 64)))
		}
		if bits == 32 {
			f = float64(float32(f))
		}
		if o.noNaN && math.IsNaN(f) || o.noInf && math.IsInf(f, 0) || o.noNegZero && f == 0 && math.Signbit(f) {
			continue
		}
		return f
	}
}

func genTime(r *rand.Rand) time.Time {
	ns := 0
	switch r.IntN(5) {
	case 0:
		ns = r.IntN(1000000000)
	case 1:
		ns = r.IntN(1000) * 1000000
	case 2:
		ns = r.IntN(10) * 100000000
	case 3:
		ns = pick(r, []int{1, 10, 999999999, 500000000, 1000, 123456000})
	}
	var loc *time.Location = time.UTC
	switch r.IntN(3) {
	case 0:
		mins := r.IntN(2*14*60+1) - 14*60
		if chance(r, 2) {
			mins = mins / 30 * 30
		}
		loc = time.FixedZone("", mins*60)
		if mins == 0 {
			loc = time.UTC
		}
		if mins != 0 && chance(r, 6) {
			loc = time.FixedZone("XST", mins*60) // With a name.
		}
	}
	if chance(r, 12) {
		// With a reading of the monotonic clock, as time.Now has.
		now := time.Now()
		to := time.Date(1900+r.IntN(200), time.Month(1+r.IntN(12)), 1+r.IntN(31), r.IntN(24), r.IntN(60), r.IntN(60), ns, loc)
		return now.Add(to.Sub(now)).In(loc)
	}
	switch r.IntN(8) {
	case 0:
		return time.Time{}
	case 1:
		return time.Date(9999, 12, 31, 23, 59, 59, ns, time.UTC)
	case 2:
		return time.Date(pick(r, []int{1, 4, 99, 100, 400, 999, 1000, 1582, 1899, 1969, 1970, 2000, 2038, 2100, 9998}), time.Month(1+r.IntN(12)), 1+r.IntN(31), r.IntN(24), r.IntN(60), r.IntN(60), ns, loc)
	case 3:
		return time.Date(2020, 2, 29, 0, 0, 0, ns, loc)
	case 4:
		return time.Unix(0, 0).UTC()
	default:
		return time.Date(1900+r.IntN(200), time.Month(1+r.IntN(12)), 1+r.IntN(31), r.IntN(24), r.IntN(60), r.IntN(60), ns, loc)
	}
}

func genBytes(r *rand.Rand) []byte {
	n := 0
	switch r.IntN(4) {
	case 0:
		n = 0
	case 1:
		n = 1
	default:
		n = logSize(r, 0, 30)
		if chance(r, 40) {
			n = logSize(r, 30, 2000)
		}
	}
	b := make([]byte, n)
	for i := range b {
		switch r.IntN(3) {
		case 0:
			b[i] = pick(r, []byte{0, 1, 9, 10, 32, 34, 91, 93, 99, 100, 127, 128, 255})
		default:
			b[i] = byte(r.IntN(256))
		}
	}
	return b
}

func genVal(r *rand.Rand, typ string, o genOpts) any {
	if o.smallValues && typ != "*Table" {
		switch typ {
		case "bool":
			return chance(r, 2)
		case "string":
			return pick(r, []string{"", "a", "A", "b", "B", "ab", "aB", "Ab", "á", "z", "Z", "_", "10", "9"})
		case "float32":
			f := pick(r, []float32{0, 0, 1, -1, 1.5, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.Copysign(0, -1)), math.MaxFloat32})
			if o.noNaN && f != f || o.noInf && math.IsInf(float64(f), 0) || o.noNegZero && f == 0 {
				f = 0
			}
			return f
		case "float64":
			f := pick(r, []float64{0, 0, 1, -1, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.MaxFloat64})
			if o.noNaN && f != f || o.noInf && math.IsInf(float64(f), 0) || o.noNegZero && f == 0 {
				f = 0
			}
			return f
		case "[]byte", "[]uint8":
			return pick(r, [][]byte{{}, {0}, {1}, {1, 2}})
		case "time.Time":
			if chance(r, 6) {
				// Next to the zero time, and the zero time elsewhere.
				return pick(r, []time.Time{time.Time{}.Add(1), time.Time{}.Add(-1), time.Date(0, 12, 31, 0, 0, 0, 0, time.UTC), time.Time{}.In(time.FixedZone("", 3600)), time.Time{}.Add(time.Second)})
			}
			return pick(r, []time.Time{{}, time.Unix(0, 0).UTC(), time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)})
		}
		// Integers: few values, some extremes.
		switch r.IntN(4) {
		case 0, 1, 2:
			return intOf(typ, int64(r.IntN(4)))
		}
	}
	switch typ {
	case "[]byte", "[]uint8":
		return genBytes(r)
	case "bool":
		return chance(r, 2)
	case "byte", "uint8":
		return uint8(genUint(r, 8))
	case "float32":
		return float32(genFloat(r, 32, o))
	case "float64":
		return genFloat(r, 64, o)
	case "int":
		return int(genInt(r, 64))
	case "int8":
		return int8(genInt(r, 8))
	case "int16":
		return int16(genInt(r, 16))
	case "int32":
		return int32(genInt(r, 32))
	case "rune":
		return genRune(r)
	case "int64":
		return genInt(r, 64)
	case "string":
		return genString(r, o)
	case "time.Time":
		return genTime(r)
	case "uint":
		return uint(genUint(r, 64))
	case "uint16":
		return uint16(genUint(r, 16))
	case "uint32":
		return uint32(genUint(r, 32))
	case "uint64":
		return genUint(r, 64)
	case "*Table":
		if o.depth <= 0 || (chance(r, 4) && !o.noNilTable) {
			if o.noNilTable {
				return &MTable{Name: genName(r)}
			}
			return &MTable{Nil: true}
		}
		no := o
		no.hugeCell, no.longNames, no.chain = false, false, 0
		no.depth--
		no.maxCols = min(o.maxCols, 4)
		no.maxRows = min(o.maxRows, 3)
		no.minCols, no.minRows = 0, 0
		if o.plainNested {
			no.shape, no.keys = false, false
		}
		if no.depth > 2 {
			// Keep deep nestings thin.
			no.maxRows = 1
		}
		return genTable(r, no)
	}
	panic("genVal " + typ)
}

func intOf(typ string, n int64) any {
	switch typ {
	case "byte", "uint8":
		return uint8(n)
	case "int":
		return int(n)
	case "int8":
		return int8(n)
	case "int16":
		return int16(n)
	case "int32", "rune":
		return int32(n)
	case "int64":
		return n
	case "uint":
		return uint(n)
	case "uint16":
		return uint16(n)
	case "uint32":
		return uint32(n)
	case "uint64":
		return uint64(n)
	}
	panic("intOf " + typ)
}

func genTable(r *rand.Rand, o genOpts) *MTable {
	types := o.types
	if types == nil {
		types = allTypes
	}
	m := &MTable{}
	if o.nameFn != nil {
		m.Name = o.nameFn(r)
	} else {
		m.Name = genName(r)
	}
	nc := logSize(r, o.minCols, o.maxCols)
	nr := logSize(r, o.minRows, o.maxRows)
	if nc == 0 && !chance(r, 4) {
		nc = logSize(r, min(1, o.maxCols), o.maxCols)
	}
	if nr == 0 && !chance(r, 3) {
		nr = logSize(r, min(1, o.maxRows), o.maxRows)
	}
	for _, n := range genNames(r, nc, o.nameFn) {
		typ := pick(r, types)
		if o.depth > 0 && chance(r, 5) && contains(types, "*Table") {
			typ = "*Table"
		}
		m.Cols = append(m.Cols, MCol{n, typ})
	}
	if nc == 0 && !(o.emptyRows && chance(r, 3)) {
		nr = 0
	}
	for i := 0; i < nr; i++ {
		row := make([]any, nc)
		for j := range row {
			row[j] = genVal(r, m.Cols[j].Type, o)
		}
		m.Rows = append(m.Rows, row)
	}
	if o.shape && nr <= 1 && nc > 0 && chance(r, 3) {
		m.Shape = true
	}
	if o.longNames {
		long := "L" + strings.Repeat(pick(r, []string{"a", "B_", "x9"}), logSize(r, 100, 40000))
		if i := r.IntN(nc + 1); i < nc {
			m.Cols[i].Name = long
		} else {
			m.Name = long
		}
	}
	if o.hugeCell {
		hugeCell(r, m, types, o)
	}
	if o.keys && chance(r, 2) {
		m.Keys = genKeys(r, m, 1+r.IntN(3))
		if n := len(m.Keys); n > 0 && chance(r, 10) {
			// The same col can be a key more than once.
			m.Keys = append(m.Keys, m.Keys[pick(r, []int{n - 1, r.IntN(n)})])
		}
	}
	for i := 0; i < o.chain; i++ {
		p := &MTable{Name: genName(r), Cols: []MCol{{"in", "*Table"}}, Rows: [][]any{{m}}}
		if chance(r, 8) {
			p.Cols = append(p.Cols, MCol{"n", "int"})
			p.Rows[0] = append(p.Rows[0], i)
		}
		m = p
	}
	return m
}

// hugeCell makes one cell of m very long.
func hugeCell(r *rand.Rand, m *MTable, types []string, o genOpts) {
	kinds := []string{}
	for _, k := range []string{"string", "[]byte", "[]uint8"} {
		if contains(types, k) {
			kinds = append(kinds, k)
		}
	}
	if len(kinds) == 0 {
		return
	}
	typ := pick(r, kinds)
	m.Cols = append(m.Cols, MCol{"huge_", typ})
	for i := range m.Rows {
		m.Rows[i] = append(m.Rows[i], zeroOf(typ))
	}
	if len(m.Rows) == 0 {
		row := make([]any, len(m.Cols))
		for j := range row {
			row[j] = genVal(r, m.Cols[j].Type, o)
		}
		m.Rows = append(m.Rows, row)
	}
	row := pick(r, m.Rows)
	n := logSize(r, 3000, 300000)
	if typ == "string" {
		s := pick(r, []string{"x", "ab ", "line\n", "é", "\"", "\\", "😀", "1,", "word "})
		row[len(row)-1] = pick(r, []string{"", "a", "bc", "def"}) + strings.Repeat(s, n/len(s)) + pick(r, []string{"", "end"})
		return
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	row[len(row)-1] = b
}

// large makes every so many cases large ones: tall (hundreds to thousands of rows) or wide (tens to
// hundreds of columns). What depends on a size, a buffer or a counter shows only there.
func large(c *Case, o *genOpts, every int) bool {
	switch c.Idx % every {
	case every / 3:
		o.minRows, o.maxRows = 100, 4000
		if chance(c.R, 2) {
			o.maxRows = 600
		}
		o.minCols, o.maxCols, o.depth, o.bigStrings = 1, 3, 0, false
	case every / 2:
		o.minCols, o.maxCols, o.depth, o.bigStrings = 20, 300, min(o.depth, 1), false
		o.minRows, o.maxRows = min(o.minRows, 1), min(o.maxRows, 3)
	case every / 5:
		o.hugeCell = true
	case every / 7:
		o.longNames = true
	case every / 9:
		if o.depth == 0 || o.types != nil && !contains(o.types, "*Table") {
			return false
		}
		o.depth, o.chain = 1, logSize(c.R, 5, 300)
	default:
		// Far beyond what fits in 8 or 16 bits, in a few cases only.
		switch c.Idx % (every * 50) {
		case every / 11:
			o.minRows, o.maxRows = 65500, 68000
			o.minCols, o.maxCols, o.depth, o.bigStrings = 1, 2, 0, false
			o.types = onlyOf(o.types, []string{"bool", "int", "uint8", "int16", "string", "float64", "[]byte"})
			o.smallValues = true
		case every / 13:
			o.minCols, o.maxCols, o.depth, o.bigStrings = 300, 1100, 0, false
			o.minRows, o.maxRows = min(o.minRows, 1), min(o.maxRows, 1)
		default:
			return false
		}
		c.Ev("very_large", 1)
	}
	c.Ev("large", 1)
	return true
}

// onlyOf gives those of types (all types if nil) which are in list.
func onlyOf(types, list []string) (out []string) {
	for _, t := range list {
		if types == nil || contains(types, t) {
			out = append(out, t)
		}
	}
	return
}

// manyTables gives every so many cases a set of many tables.
func manyTables(c *Case, n, every int) int {
	if c.Idx%every == every/4 {
		c.Ev("large_sets", 1)
		if c.Idx%(every*8) == every/4 {
			return logSize(c.R, 300, 1200)
		}
		return logSize(c.R, 20, 300)
	}
	return n
}

// someOf gives the indexes of the tables of a set, but of a very long one only of some.
func someOf(r *rand.Rand, n int) (out []int) {
	for i := 0; i < n; i++ {
		if n <= 30 || i == 0 || i >= n-2 || chance(r, n/6) {
			out = append(out, i)
		}
	}
	return
}

func contains(s []string, x string) bool {
	for _, v := range s {
		if v == x {
			return true
		}
	}
	return false
}

// genKeys chooses up to n distinct sortable columns as keys.
func genKeys(r *rand.Rand, m *MTable, n int) (keys []MKey) {
	if n > 2 && chance(r, 3) {
		n = len(m.Cols)
	}
	for _, i := range r.Perm(len(m.Cols)) {
		if len(keys) >= n {
			break
		}
		if isSortable(m.Cols[i].Type) {
			keys = append(keys, MKey{m.Cols[i].Name, m.Cols[i].Type, chance(r, 2)})
		}
	}
	return
}

func sizeClass(m *MTable) string {
	return fmt.Sprintf("%dx%d", len(m.Cols), len(m.Rows))
}

// hasType tells whether a table (or one nested in it) has a column of this type.
func (m *MTable) hasType(typ string) bool {
	for i, c := range m.Cols {
		if c.Type == typ {
			return true
		}
		if c.Type == "*Table" {
			for _, r := range m.Rows {
				if t, ok := r[i].(*MTable); ok && t != nil && t.hasType(typ) {
					return true
				}
			}
		}
	}
	return false
}

// cellCount counts cells, nested ones included.
func (m *MTable) cellCount() int {
	n := 0
	for _, r := range m.Rows {
		n += len(r)
		for _, v := range r {
			if t, ok := v.(*MTable); ok && t != nil {
				n += t.cellCount()
			}
		}
	}
	return n
}

func (m *MTable) depth() int {
	d := 0
	for _, r := range m.Rows {
		for _, v := range r {
			if t, ok := v.(*MTable); ok && t != nil && !t.Nil {
				d = max(d, 1+t.depth())
			}
		}
	}
	return d
}

// widen gives a table cells of more than a million characters, now and then.
func widen(c *Case, m *MTable) {
	asStruct := c.Idx%2999 == 1511
	if c.Idx%2999 != 11 && !asStruct {
		return
	}
	if m.Nil {
		return
	}
	m.Rows = m.Rows[:min(len(m.Rows), 3)]
	if asStruct {
		m.Rows = m.Rows[:min(len(m.Rows), 1)]
		m.Shape = true
	}
	if !slices.ContainsFunc(m.Cols, func(x MCol) bool { return x.Type == "string" }) && m.colIndex("wide_cells") < 0 {
		m.Cols = append([]MCol{{"wide_cells", "string"}}, m.Cols...)
		for i := range m.Rows {
			m.Rows[i] = append([]any{strings.ToValidUTF8(genString(c.R, genOpts{}), "?")}, m.Rows[i]...)
		}
	}
	done := 0
	for _, row := range m.Rows {
		for i := range m.Cols {
			switch x := row[i].(type) {
			case string:
				if done < 2 {
					unit := x + pick(c.R, []string{"x", "é ", "\\", "\"q", "\n-"})
					row[i] = strings.Repeat(unit, 1+(1000000+c.R.IntN(100000))/len([]rune(unit)))
					done++
				}
			case []byte:
				if done < 2 {
					row[i] = bytes.Repeat(append([]byte{200}, x...), 1+(300000+c.R.IntN(1000))/(len(x)+1))
					done++
				}
			}
		}
	}
	if done > 0 {
		c.Ev("very_wide_cells", done)
	}
}
