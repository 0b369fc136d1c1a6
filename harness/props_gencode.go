package main

import (
	"bufio"
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C22

// The generated code is compiled with the compiler, linked with the real package and run.
// The compiler and the linker are called directly, so that nothing is left in the build cache.

//go:embed go.mod
var goMod []byte

//go:embed go.sum
var goSum []byte

var genTools struct {
	dir, cfg, compile, link, problem string
}

func setupC22() func() {
	dir, err := os.MkdirTemp("", "c22-")
	if err != nil {
		genTools.problem = err.Error()
		return func() {}
	}
	clean := func() { os.RemoveAll(dir) }
	genTools.dir = dir
	src := "package main\nimport (\n_ \"fmt\"\n_ \"math\"\n_ \"reflect\"\n_ \"time\"\n_ \"os\"\n_ \"github.com/urban-wombat/gotables\"\n)\nfunc main() {}\n"
	for name, text := range map[string][]byte{"go.mod": goMod, "go.sum": goSum, "main.go": []byte(src)} {
		if err := os.WriteFile(filepath.Join(dir, name), text, 0644); err != nil {
			genTools.problem = err.Error()
			return clean
		}
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}", ".")
	cmd.Dir = dir
	var errs bytes.Buffer
	cmd.Stderr = &errs
	out, err := cmd.Output()
	if err != nil {
		genTools.problem = fmt.Sprintf("go list: %v: %s", err, errs.String())
		return clean
	}
	genTools.cfg = filepath.Join(dir, "importcfg")
	os.WriteFile(genTools.cfg, out, 0644)
	tools, err := exec.Command("go", "env", "GOTOOLDIR").Output()
	if err != nil {
		genTools.problem = err.Error()
		return clean
	}
	genTools.compile = filepath.Join(strings.TrimSpace(string(tools)), "compile")
	genTools.link = filepath.Join(strings.TrimSpace(string(tools)), "link")
	return clean
}

var generatedOn = regexp.MustCompile(`(?m)^.*Automatically generated source code.*$`)

// undated is generated code without its date.
func undated(s string) string { return generatedOn.ReplaceAllString(s, "") }

var predeclared = strings.Fields("any bool byte comparable complex64 complex128 error float32 float64 int int8 int16 int32 int64 rune string uint uint8 uint16 uint32 uint64 uintptr true false iota nil append cap clear close complex copy delete imag len make max min new panic print println real recover init main")

// Names of packages that the file of the generated functions imports.
var importedByGenerated = strings.Fields("fmt gotables time")

// Names that the generated functions use themselves.
var usedByGenerated = strings.Fields("table slice err rowIndex tableName colNames colTypes")

func typeNameFor(r *rand.Rand) string {
	for {
		n := genAnyName(r)
		if chance(r, 4) {
			n = pick(r, usedByGenerated)
			if chance(r, 4) {
				n += "_"
			}
		}
		if token.IsKeyword(n) || contains(predeclared, n) || contains(importedByGenerated, n) || strings.Trim(n, "_") == "" && len(n) == 1 || !token.IsIdentifier(n) || strings.HasSuffix(n, "Zz9") {
			continue
		}
		return n
	}
}

func fieldNameFor(r *rand.Rand) string {
	for {
		n := genName(r)
		if chance(r, 4) {
			// Names that the generated code uses itself.
			n = pick(r, append(append([]string{}, usedByGenerated...), "fmt", "gotables", "time", "table_", "err_", "rowIndex_", "nil", "len", "make", "error", "range", "i", "Table", "RowCount", "slice", "append", "true", "main", "init"))
		}
		if token.IsKeyword(n) || n == "_" || !token.IsIdentifier(n) {
			continue
		}
		return n
	}
}

// literal gives Go source for a value.
func literal(v any) string {
	switch x := v.(type) {
	case float32:
		return fmt.Sprintf("mathZz9.Float32frombits(0x%x)", math.Float32bits(x))
	case float64:
		return fmt.Sprintf("mathZz9.Float64frombits(0x%x)", math.Float64bits(x))
	case []byte:
		return fmt.Sprintf("[]byte(%q)", string(x))
	case string:
		return strconv.Quote(x)
	case time.Time:
		_, off := x.Zone()
		if off == 0 && x.Location() == time.UTC {
			return fmt.Sprintf("timeZz9.Unix(%d, %d).UTC()", x.Unix(), x.Nanosecond())
		}
		return fmt.Sprintf("timeZz9.Unix(%d, %d).In(timeZz9.FixedZone(\"\", %d))", x.Unix(), x.Nanosecond(), off)
	case *MTable:
		return builder(x)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// builder gives a Go expression that builds a table.
func builder(m *MTable) string {
	if m.Nil {
		return "gZz9.NewNilTable()"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "func() *gZz9.Table {\nt, err := gZz9.NewTable(%q)\nmustZz9(err)\n", m.Name)
	for _, c := range m.Cols {
		fmt.Fprintf(&b, "mustZz9(t.AppendCol(%q, %q))\n", c.Name, c.Type)
	}
	fmt.Fprintf(&b, "mustZz9(t.AppendRows(%d))\n", len(m.Rows))
	for r, row := range m.Rows {
		for i, v := range row {
			if n, ok := v.(*MTable); ok {
				fmt.Fprintf(&b, "mustZz9(t.SetTableByColIndex(%d, %d, %s))\n", i, r, builder(n))
				continue
			}
			fmt.Fprintf(&b, "mustZz9(t.SetValByColIndex(%d, %d, %s))\n", i, r, literal(v))
		}
	}
	b.WriteString("return t\n}()")
	return b.String()
}

func goTypeOf(typ string) string {
	switch typ {
	case "*Table":
		return "*gotables.Table"
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	case "[]byte":
		return "[]uint8"
	}
	return typ
}

const checkHead = `
import (
	fmtZz9 "fmt"
	mathZz9 "math"
	reflectZz9 "reflect"
	timeZz9 "time"
	gZz9 "github.com/urban-wombat/gotables"
)

var _ = mathZz9.Pi
var _ timeZz9.Time

func mustZz9(err error) {
	if err != nil {
		panic(err)
	}
}

func sameZz9(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x != x && y != y || mathZz9.Float64bits(x) == mathZz9.Float64bits(y))
	case float32:
		y, ok := b.(float32)
		return ok && (x != x && y != y || mathZz9.Float32bits(x) == mathZz9.Float32bits(y))
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	case timeZz9.Time:
		y, ok := b.(timeZz9.Time)
		_, xo := x.Zone()
		_, yo := y.Zone()
		return ok && x.Equal(y) && xo == yo
	}
	return a == b
}

func CheckZz9() (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmtZz9.Sprint("panic: ", p)
		}
	}()
`

// checkSource is the file that checks the generated code of table m, in the same package.
func checkSource(pkg string, m *MTable) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n%s", pkg, checkHead)
	fmt.Fprintf(&b, "\ttypZz9 := reflectZz9.TypeOf(%s{})\n", m.Name)
	fmt.Fprintf(&b, "\tif typZz9.NumField() != %d {\n\t\treturn fmtZz9.Sprint(\"the struct has \", typZz9.NumField(), \" fields\")\n\t}\n", len(m.Cols))
	for i, c := range m.Cols {
		fmt.Fprintf(&b, "\tif f := typZz9.Field(%d); f.Name != %q || f.Type.String() != %q {\n\t\treturn fmtZz9.Sprint(\"field \", f.Name, \" has type \", f.Type)\n\t}\n", i, c.Name, goTypeOf(c.Type))
	}
	fmt.Fprintf(&b, "\ttZz9 := %s\n", builder(m))
	fmt.Fprintf(&b, "\tif _, err := TypeStructSliceFromTable_%s(nil); err == nil {\n\t\treturn \"a nil table is converted\"\n\t}\n", m.Name)
	fmt.Fprintf(&b, "\tif _, err := TypeStructSliceToTable_%s(nil); err == nil {\n\t\treturn \"a nil slice is converted\"\n\t}\n", m.Name)
	fmt.Fprintf(&b, "\tsZz9, err := TypeStructSliceFromTable_%s(tZz9)\n\tif err != nil {\n\t\treturn \"from table: \" + err.Error()\n\t}\n", m.Name)
	fmt.Fprintf(&b, "\tif len(sZz9) != %d {\n\t\treturn fmtZz9.Sprint(len(sZz9), \" structs\")\n\t}\n", len(m.Rows))
	b.WriteString("\tfor rZz9 := range sZz9 {\n\t\t_ = rZz9\n")
	for _, c := range m.Cols {
		fmt.Fprintf(&b, "\t\tif v, err := tZz9.GetVal(%q, rZz9); err != nil || !sameZz9(sZz9[rZz9].%s, v) {\n\t\t\treturn fmtZz9.Sprintf(\"field %s of struct %%d is %%#v: the cell holds %%#v %%v\", rZz9, sZz9[rZz9].%s, v, err)\n\t\t}\n", c.Name, c.Name, c.Name, c.Name)
	}
	b.WriteString("\t}\n")
	fmt.Fprintf(&b, "\tbackZz9, err := TypeStructSliceToTable_%s(sZz9)\n\tif err != nil {\n\t\treturn \"to table: \" + err.Error()\n\t}\n", m.Name)
	fmt.Fprintf(&b, "\tif backZz9.Name() != %q || backZz9.ColCount() != %d || backZz9.RowCount() != %d {\n\t\treturn \"table made of structs has another name or size: \" + backZz9.String()\n\t}\n", m.Name, len(m.Cols), len(m.Rows))
	for i, c := range m.Cols {
		fmt.Fprintf(&b, "\tif n, _ := backZz9.ColName(%d); n != %q {\n\t\treturn \"col \" + n\n\t}\n", i, c.Name)
		fmt.Fprintf(&b, "\tif n, _ := backZz9.ColTypeByColIndex(%d); n != %q {\n\t\treturn \"col type \" + n\n\t}\n", i, c.Type)
	}
	fmt.Fprintf(&b, "\tfor r := 0; r < %d; r++ {\n\t\tfor i := 0; i < %d; i++ {\n\t\t\tv1, e1 := tZz9.GetValByColIndex(i, r)\n\t\t\tv2, e2 := backZz9.GetValByColIndex(i, r)\n\t\t\tif e1 != nil || e2 != nil || !sameZz9(v1, v2) {\n\t\t\t\treturn fmtZz9.Sprintf(\"cell %%d %%d was %%#v, is %%#v after both conversions\", i, r, v1, v2)\n\t\t\t}\n\t\t}\n\t}\n", len(m.Rows), len(m.Cols))
	nan := false
	m.walkCells(func(_ *MTable, _ MCol, v any) { nan = nan || isNaN(v) })
	fmt.Fprintf(&b, "\tif eq, err := tZz9.Equals(backZz9); eq == %v {\n\t\treturn fmtZz9.Sprint(\"Equals: \", eq, err)\n\t}\n", nan)
	if len(m.Rows) > 1 {
		// The structs are the caller's: in another order they make a table in that order.
		b.WriteString("\tsZz9[0], sZz9[1] = sZz9[1], sZz9[0]\n")
		fmt.Fprintf(&b, "\tswapZz9, err := TypeStructSliceToTable_%s(sZz9[:2])\n\tif err != nil {\n\t\treturn err.Error()\n\t}\n", m.Name)
		fmt.Fprintf(&b, "\tif swapZz9.RowCount() != 2 {\n\t\treturn \"two structs make another number of rows\"\n\t}\n")
		fmt.Fprintf(&b, "\tfor i := 0; i < %d; i++ {\n\t\tv1, _ := tZz9.GetValByColIndex(i, 1)\n\t\tv2, _ := swapZz9.GetValByColIndex(i, 0)\n\t\tif !sameZz9(v1, v2) {\n\t\t\treturn fmtZz9.Sprintf(\"cell %%d of swapped structs is %%#v: expected %%#v\", i, v2, v1)\n\t\t}\n\t}\n", len(m.Cols))
	}
	b.WriteString("\treturn \"\"\n}\n")
	return b.String()
}

// structFields reads the fields of the generated struct type.
func structFields(c *Case, src, name string) (fields []MCol) {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", "package p\n"+src, 0)
	if err != nil {
		c.Failf("GenerateTypeStruct gives text that is not Go: %v\n%s", err, src)
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range gd.Specs {
			ts, ok := sp.(*ast.TypeSpec)
			if !ok || ts.Name.Name != name {
				continue
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				c.Failf("type %s is no struct\n%s", name, src)
			}
			for _, fl := range st.Fields.List {
				for _, n := range fl.Names {
					var b bytes.Buffer
					format.Node(&b, token.NewFileSet(), fl.Type)
					fields = append(fields, MCol{n.Name, b.String()})
				}
			}
		}
	}
	return
}

// generate gives the three pieces of code for a table.
func generate(c *Case, t *g.Table, m *MTable) (typ, from, to string) {
	var e1, e2, e3 error
	typ, e1 = t.GenerateTypeStruct()
	from, e2 = t.GenerateTypeStructSliceFromTable()
	to, e3 = t.GenerateTypeStructSliceToTable()
	if e1 != nil || e2 != nil || e3 != nil {
		c.Failf("generating code from %v: %v, %v, %v", m, e1, e2, e3)
	}
	return undated(typ), undated(from), undated(to)
}

func runC22(c *Case) {
	r := c.R
	if genTools.problem != "" {
		c.Failf("preparing the compiler: %s", genTools.problem)
	}
	dir, err := os.MkdirTemp(genTools.dir, "case-")
	if err != nil {
		c.Failf("%v", err)
	}
	defer os.RemoveAll(dir)
	const perCase = 16
	var mainSrc, imports strings.Builder
	cfg, _ := os.ReadFile(genTools.cfg)
	var models []*MTable
	var texts []string
	tool := func(name string, args ...string) string {
		cmd := exec.Command(name, args...)
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Sprintf("%v: %s", err, out)
		}
		return ""
	}
	for k := 0; k < perCase; k++ {
		o := genOpts{emptyRows: true, minCols: 0, maxCols: 8, maxRows: 5, depth: 1, keys: true, shape: true, nameFn: fieldNameFor}
		if k < 6 {
			o.minCols, o.minRows = 1, 1
		}
		m := genTable(r, o)
		m.Name = typeNameFor(r)
		if k == 0 {
			// Every type.
			m.Cols, m.Rows, m.Keys, m.Shape = nil, nil, nil, false
			names := genNames(r, len(allTypes), fieldNameFor)
			for i, j := range r.Perm(len(allTypes)) {
				m.Cols = append(m.Cols, MCol{names[i], allTypes[j]})
			}
			for n := 2; n > 0; n-- {
				var row []any
				for _, col := range m.Cols {
					row = append(row, genVal(r, col.Type, o))
				}
				m.Rows = append(m.Rows, row)
			}
		}
		t := build(c, m)
		typ, from, to := generate(c, t, m)
		c.Logf("table %v", m)

		// The code does not depend on the cells.
		other := m.clone()
		for _, row := range other.Rows {
			for i, col := range other.Cols {
				row[i] = genVal(r, col.Type, o)
			}
		}
		if chance(r, 2) {
			other.Rows = nil
		}
		other.Keys, other.Shape = nil, false
		if a, b, d := generate(c, build(c, other), other); a != typ || b != from || d != to {
			c.Failf("code generated from tables that differ in cells only differs:\n%s%s%s\n%s%s%s", typ, from, to, a, b, d)
		}

		fields := structFields(c, typ, m.Name)
		if len(fields) != len(m.Cols) {
			c.Failf("struct %s has %d fields for %d columns\n%s", m.Name, len(fields), len(m.Cols), typ)
		}
		pkg := fmt.Sprintf("p%d", k)
		head := "package " + pkg + "\nimport (\n\"fmt\"\n\"github.com/urban-wombat/gotables\"\n"
		for _, col := range m.Cols {
			if col.Type == "time.Time" {
				head += "\"time\"\n"
				break
			}
		}
		gen := head + ")\n" + typ + "\n" + from + "\n" + to
		genFile, checkFile := filepath.Join(dir, pkg+"_gen.go"), filepath.Join(dir, pkg+"_check.go")
		os.WriteFile(genFile, []byte(gen), 0644)
		os.WriteFile(checkFile, []byte(checkSource(pkg, m)), 0644)
		archive := filepath.Join(dir, pkg+".a")
		// The generated code alone first, as its user would have it.
		if k%4 == 0 {
			if p := tool(genTools.compile, "-p", pkg, "-importcfg", genTools.cfg, "-o", archive, genFile); p != "" {
				c.Failf("the generated code does not compile: %s\n%s", p, gen)
			}
		}
		if p := tool(genTools.compile, "-p", pkg, "-importcfg", genTools.cfg, "-o", archive, genFile, checkFile); p != "" {
			c.Failf("the generated code does not compile: %s\n%s\n%s", p, gen, checkSource(pkg, m))
		}
		cfg = append(cfg, []byte(fmt.Sprintf("packagefile %s=%s\n", pkg, archive))...)
		fmt.Fprintf(&imports, "%q\n", pkg)
		fmt.Fprintf(&mainSrc, "fmt.Printf(\"%%d %%q\\n\", %d, %s.CheckZz9())\n", k, pkg)
		models = append(models, m)
		texts = append(texts, gen)
		c.Ev("compiled", 1)
		c.Ev("converted_rows", len(m.Rows))
		c.Distinct(m.fullKey())
		if k < 2 {
			c.Sample(gen)
		}
	}
	mainFile := filepath.Join(dir, "main.go")
	os.WriteFile(mainFile, []byte("package main\nimport (\n\"fmt\"\n"+imports.String()+")\nfunc main() {\n"+mainSrc.String()+"}\n"), 0644)
	cfgFile := filepath.Join(dir, "cfg")
	os.WriteFile(cfgFile, cfg, 0644)
	obj, prog := filepath.Join(dir, "main.a"), filepath.Join(dir, "prog")
	if p := tool(genTools.compile, "-p", "main", "-importcfg", cfgFile, "-o", obj, mainFile); p != "" {
		panic("main program of the check: " + p)
	}
	if p := tool(genTools.link, "-importcfg", cfgFile, "-s", "-w", "-o", prog, obj); p != "" {
		panic("linking the check: " + p)
	}
	cmd := exec.Command(prog)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	lines := 0
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		num, msg, _ := strings.Cut(sc.Text(), " ")
		k, e := strconv.Atoi(num)
		if e != nil || k < 0 || k >= len(models) {
			continue
		}
		lines++
		if text, e := strconv.Unquote(msg); e != nil || text != "" {
			c.Failf("table %v: %s %v\ngenerated:\n%s", models[k], text, e, texts[k])
		}
		c.Ev("ran", 1)
	}
	if err != nil || lines != perCase {
		c.Failf("the program with the generated code ends with %v after %d of %d checks:\n%s", err, lines, perCase, out)
	}
}

func init() {
	register(&Prop{ID: "C22", Quick: 80, Thorough: 3000, Run: runC22, Setup: setupC22,
		Rule: "a case generates the code of 16 tables (all types, field names like the identifiers the code uses itself), compiles it with the Go compiler, links it with gotables and runs it: every struct field is compared with its cell, and the table made back with the original; distinct is counted over tables",
		Need: []string{"compiled", "ran", "converted_rows"}})
}
