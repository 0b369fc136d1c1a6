package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	g "github.com/urban-wombat/gotables"
)

// C24 and C25 run under the race detector: a data race ends the process (GORACE halt_on_error) and is
// reported with its stacks. Beside that, what each goroutine observes is compared with what it observes alone.

// ---------------------------------------------------------------- C24

// Properties whose cases are deterministic in their seed and work on tables of their own only.
var soloProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C26", "C27"}

// job is a deterministic piece of work for one goroutine.
type job struct {
	kind string
	seed uint64
	idx  int
}

// observed is what a job gives: its trace and its violation.
type observed struct {
	trace []string
	bad   string
}

func (o observed) key() string { return strings.Join(o.trace, "\n") + "\n" + o.bad }

// Kinds whose trace holds GOB bytes, which come in any order and depend on what the process encoded before:
// of these only the verdict is compared.
var verdictOnly = map[string]bool{"C08": true, "C09": true}

func runJob(j job, dir string) (o observed) {
	st := &childState{distinct: map[uint64]struct{}{}, dir: dir}
	st.res.Events = map[string]int{}
	c := &Case{Idx: j.idx, Seed: j.seed, Tier: "quick", R: caseRand(j.kind, j.seed, j.idx), child: st}
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(violation); ok {
				o.bad = v.msg
			} else {
				o.bad = fmt.Sprintf("panic: %v", p)
				if os.Getenv("CONC_STACK") != "" {
					o.bad += "\n" + string(debug.Stack())
				}
			}
		}
		if verdictOnly[j.kind] {
			if o.bad != "" {
				o.bad = "violation"
			}
			return
		}
		o.trace = append([]string(nil), c.trace...)
		for i := range o.trace {
			o.trace[i] = address.ReplaceAllString(strings.ReplaceAll(o.trace[i], dir, "DIR"), "0xADDRESS")
		}
		o.bad = strings.ReplaceAll(o.bad, dir, "DIR")
	}()
	if f := soloJobs[j.kind]; f != nil {
		f(c)
		return
	}
	props[j.kind].Run(c)
	return
}

var address = regexp.MustCompile(`0xc[0-9a-f]{9}\b`)

var soloJobs = map[string]func(c *Case){
	"everything": jobEverything,
	"damaged":    jobDamaged,
	"files":      jobFiles,
}

// jobEverything reads one table in every way and records every result.
func jobEverything(c *Case) {
	r := c.R
	m := genTable(r, genOpts{emptyRows: true, minCols: 1, maxCols: 5, minRows: 1, maxRows: 5, depth: 1, keys: true, shape: true, noNaN: true, noInf: true, utf8Only: true})
	t := build(c, m)
	if len(m.Keys) > 0 {
		c.Logf("Sort: %v", t.Sort())
	}
	for _, op := range readings(c, r, m) {
		c.Logf("%s: %s", op.name, op.call(t))
	}
	tree := build(c, m)
	_, err := tree.NewTreeTable(r.IntN(3))
	c.Logf("NewTreeTable: %v\n%s", err, showTable(tree, nil))
	s := buildSet(c, "all", []*MTable{m})
	j, err := s.GetTableSetAsJSON()
	c.Logf("JSON: %s %v", j, err)
	y, err := s.GetTableSetAsYAML()
	c.Logf("YAML: %s %v", y, err)
	if back, err := g.NewTableSetFromYAML(y); err == nil {
		c.Logf("back: %s", setString(snapSet(back)))
	} else {
		c.Logf("back: %v", err)
	}
	t.ShufflePseudorandom()
	c.Logf("shuffled: %s", showTable(t, nil))
	t.ShuffleRandom()
	c.Logf("Reverse: %v", t.Reverse())
}

// jobDamaged parses damaged documents and records the errors, with their line numbers.
func jobDamaged(c *Case) {
	r := c.R
	for n := 0; n < 6; n++ {
		ms := genSet(r, 1+r.IntN(3), genOpts{emptyRows: true, minCols: 1, maxCols: 4, minRows: 1, maxRows: 4, shape: true})
		lines := strings.Split(buildSet(c, "doc", ms).String(), "\n")
		at := r.IntN(len(lines))
		lines[at] = pick(r, []string{"][", "x y z \"", "[", "\"", lines[at] + " surplus", "int", "", "a = 1", "99999999999999999999"})
		text := strings.Join(lines, "\n")
		s, err := g.NewTableSetFromString(text)
		if err != nil {
			c.Logf("%v", err)
			continue
		}
		c.Logf("%s", setString(snapSet(s)))
	}
}

// jobFiles writes and reads files of its own.
func jobFiles(c *Case) {
	r := c.R
	for n := 0; n < 3; n++ {
		name := filepath.Join(c.scratch(), fmt.Sprintf("f%d.got", r.IntN(2)))
		ms := genSet(r, 1+r.IntN(3), genOpts{emptyRows: true, minCols: 1, maxCols: 4, maxRows: 4})
		s := buildSet(c, "doc", ms)
		c.Logf("%v", s.WriteFile(name, 0644))
		s2, err := g.NewTableSetFromFile(name)
		if err != nil {
			c.Logf("%v", err)
			continue
		}
		c.Logf("%s %s", s2.FileName(), setString(snapSet(s2)))
		_, err = g.NewTableSetFromFile(name + ".absent")
		c.Logf("%v", err)
		b, _ := os.ReadFile(name)
		os.WriteFile(name, append(b, "\n[broken]\nx\nint\nnot an int\n"...), 0644)
		_, err = g.NewTableSetFromFile(name)
		c.Logf("%v", err)
	}
}

// plan gives the jobs of every goroutine.
func planC24(r *rand.Rand) (jobs [][]job) {
	kinds := append([]string{}, soloProps...)
	for k := range 6 {
		kinds = append(kinds, []string{"everything", "damaged", "files"}[k%3])
	}
	n := 2 + r.IntN(6)
	per := 2 + r.IntN(3)
	same := r.IntN(3) // 0: all do the same kinds in the same order, 1: all the very same work, 2: anything.
	var seq []job
	for k := 0; k < per; k++ {
		seq = append(seq, job{pick(r, kinds), r.Uint64(), r.IntN(1 << 20)})
	}
	for i := 0; i < n; i++ {
		var mine []job
		for k := 0; k < per; k++ {
			j := seq[k]
			if same != 1 {
				j.seed, j.idx = r.Uint64(), r.IntN(1<<20)
			}
			if same == 2 {
				j.kind = pick(r, kinds)
			}
			mine = append(mine, j)
		}
		jobs = append(jobs, mine)
	}
	return
}

// together runs f(0) to f(n-1) in goroutines that start at once, with a little noise.
func together(n int, noise uint64, f func(i int)) {
	var ready, done sync.WaitGroup
	begin := make(chan struct{})
	for i := 0; i < n; i++ {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			d := time.Duration(noise>>(8*uint(i%8))&0xff) * time.Microsecond
			ready.Done()
			<-begin
			if d > 128*time.Microsecond {
				time.Sleep(d - 128*time.Microsecond)
			}
			f(i)
		}()
	}
	ready.Wait()
	close(begin)
	done.Wait()
}

// concurrently runs the jobs of a case and gives what each observed.
func concurrently(r *rand.Rand, jobs [][]job, dir string) [][]observed {
	out := make([][]observed, len(jobs))
	for i := range jobs {
		out[i] = make([]observed, len(jobs[i]))
		os.MkdirAll(filepath.Join(dir, fmt.Sprint("g", i)), 0o755)
	}
	together(len(jobs), r.Uint64(), func(i int) {
		for k, j := range jobs[i] {
			out[i][k] = runJob(j, filepath.Join(dir, fmt.Sprint("g", i)))
			if j.seed%3 == 0 {
				runtime.Gosched()
			}
		}
	})
	return out
}

func judgeC24(c *Case, jobs [][]job, got [][]observed) {
	alone := filepath.Join(c.scratch(), "alone")
	os.MkdirAll(alone, 0o755)
	cache := map[job]observed{}
	for i := range jobs {
		for k, j := range jobs[i] {
			want, ok := cache[j]
			if !ok {
				want = runJob(j, alone)
				cache[j] = want
			}
			c.Ev("results_compared", 1)
			c.Ev("kind_"+j.kind, 1)
			c.Distinct(got[i][k].key())
			if want.key() == got[i][k].key() {
				if want.bad != "" {
					c.Ev("fails_alone_too", 1) // The concern of another property.
				}
				continue
			}
			// Not the same: is it the same each time it runs alone?
			steady := true
			for range 40 {
				if again := runJob(j, alone); again.key() != want.key() {
					steady = false
				}
			}
			if !steady {
				if got[i][k].bad != "" && want.bad == "" {
					bad := 0
					for range 40 {
						if runJob(j, alone).bad != "" {
							bad++
						}
					}
					if bad == 0 {
						c.Failf("job %v fails only beside others: %s", j, got[i][k].bad)
					}
				}
				c.Ev("unsteady_alone", 1)
				c.Ev("unsteady_"+j.kind, 1)
				continue
			}
			c.Failf("job %v beside %d others does not give what it gives alone:\n%s", j, len(jobs)-1, firstDifference(got[i][k], want))
		}
	}
}

func firstDifference(a, b observed) string {
	for i := 0; i < len(a.trace) || i < len(b.trace); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a.trace) {
			x = a.trace[i]
		}
		if i < len(b.trace) {
			y = b.trace[i]
		}
		if x != y {
			return fmt.Sprintf("together: %s\nalone:    %s\n%s", x, y, a.bad)
		}
	}
	return fmt.Sprintf("together: %s\nalone:    %s", a.bad, b.bad)
}

func runC24(c *Case) {
	r := c.R
	jobs := planC24(r)
	for i := range jobs {
		c.Logf("goroutine %d: %v", i, jobs[i])
	}
	c.Ev("goroutines", len(jobs))
	c.Sample(fmt.Sprint(jobs))
	if c.Idx%4 == 0 {
		// In a new process, where nothing was used before.
		freshProcess(c, "conc24")
		return
	}
	got := concurrently(r, jobs, c.scratch())
	judgeC24(c, jobs, got)
}

// freshProcess runs the case in a process of its own.
func freshProcess(c *Case, helper string) {
	dir, err := os.MkdirTemp(c.scratch(), "fresh-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-helper", helper, strconv.FormatUint(c.Seed, 10), strconv.Itoa(c.Idx), dir)
	out := &strings.Builder{}
	cmd.Stderr = out
	err = cmd.Run()
	if err == nil {
		c.Ev("fresh_processes", 1)
		return
	}
	s := out.String()
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == exitRace {
		c.Failf("data race reported by the race detector in a new process:\n%s", s)
	}
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 9 {
		c.Failf("%s", s)
	}
	c.Failf("a new process ended with %v:\n%s", err, s)
}

// helperCase makes the case of a helper process.
func helperCase(prop string, args []string) *Case {
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	idx, _ := strconv.Atoi(args[1])
	st := &childState{distinct: map[uint64]struct{}{}, dir: args[2]}
	st.res.Events = map[string]int{}
	return &Case{Idx: idx, Seed: seed, Tier: "quick", R: caseRand(prop, seed, idx), child: st}
}

func helperRun(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(violation); ok {
				fmt.Fprintln(os.Stderr, v.msg)
			} else {
				fmt.Fprintf(os.Stderr, "panic: %v\n%s", p, debug.Stack())
			}
			os.Exit(9)
		}
	}()
	f()
}

// ---------------------------------------------------------------- C25

// setReadings lists the reading operations of a table set.
func setReadings(c *Case, r *rand.Rand, ms []*MTable) []setReading {
	other := buildSet(c, "set", ms)
	name := "absent"
	if len(ms) > 0 {
		name = pick(r, ms).Name
	}
	i := r.IntN(len(ms) + 2)
	file := filepath.Join(c.scratch(), "writtenset.got")
	return []setReading{
		{"TableSet.String", func(s *g.TableSet) string { return s.String() }},
		{"TableSet.StringPadded", func(s *g.TableSet) string { return s.StringPadded() }},
		{"TableSet.StringUnpadded", func(s *g.TableSet) string { return s.StringUnpadded() }},
		{"TableSet.GetTableSetAsJSON", func(s *g.TableSet) string { return show(s.GetTableSetAsJSON()) }},
		{"TableSet.GetTableSetAsJSONIndent", func(s *g.TableSet) string { return show(s.GetTableSetAsJSONIndent()) }},
		{"TableSet.GetTableSetAsYAML", func(s *g.TableSet) string { return show(s.GetTableSetAsYAML()) }},
		{"TableSet.GetTableSetAsMap", func(s *g.TableSet) string { return show(s.GetTableSetAsMap()) }},
		{"TableSet.GobEncode", func(s *g.TableSet) string {
			bufs, err := s.GobEncode()
			if err != nil {
				return err.Error()
			}
			d, err := g.GobDecodeTableSet(bufs)
			if err != nil {
				return err.Error()
			}
			return setString(snapSet(d)) + d.Name()
		}},
		{"TableSet.Equals", func(s *g.TableSet) string { return show(s.Equals(other)) }},
		{"TableSet.Equals of the other", func(s *g.TableSet) string { return show(other.Equals(s)) }},
		{"TableSet.Equals itself", func(s *g.TableSet) string { return show(s.Equals(s)) }},
		{"TableSet.IsValidTableSet", func(s *g.TableSet) string { return show(s.IsValidTableSet()) }},
		{"TableSet.HasTable", func(s *g.TableSet) string { return show(s.HasTable(name)) }},
		{"TableSet.GetTable", func(s *g.TableSet) string { return showTable(s.GetTable(name)) }},
		{"TableSet.GetTableByTableIndex", func(s *g.TableSet) string { return showTable(s.GetTableByTableIndex(i)) }},
		{"TableSet.TableIndex", func(s *g.TableSet) string { return show(s.TableIndex(name)) }},
		{"TableSet.TableCount", func(s *g.TableSet) string { return fmt.Sprint(s.TableCount(), s.Name(), s.FileName()) }},
		{"TableSet.Copy", func(s *g.TableSet) string {
			d, err := s.Copy()
			if err != nil {
				return err.Error()
			}
			return setString(snapSet(d))
		}},
		{"TableSet.Walk", func(s *g.TableSet) string {
			var b strings.Builder
			err := s.Walk(true, func(*g.TableSet) error { b.WriteString("S"); return nil }, func(t *g.Table) error { b.WriteString(t.Name() + ";"); return nil },
				nil, func(_ bool, ci g.CellInfo) error {
					fmt.Fprintf(&b, "%s %d %d;", ci.ColName, ci.ColIndex, ci.RowIndex)
					return nil
				})
			return fmt.Sprint(b.String(), err)
		}},
		{"TableSet.WriteFile", func(s *g.TableSet) string {
			err := s.WriteFile(file, 0644)
			b, _ := os.ReadFile(file)
			return show(string(b), err)
		}},
	}
}

type setReading struct {
	name string
	call func(*g.TableSet) string
}

// typedReadings reads every cell with its typed accessors.
func typedReadings(t *g.Table, m *MTable, byIndex bool) string {
	var b strings.Builder
	for ri := range m.Rows {
		for ci, col := range m.Cols {
			var v any
			var err error
			switch col.Type {
			case "string":
				if byIndex {
					v, err = t.GetStringByColIndex(ci, ri)
				} else {
					v, err = t.GetString(col.Name, ri)
				}
			case "int":
				if byIndex {
					v, err = t.GetIntByColIndex(ci, ri)
				} else {
					v, err = t.GetInt(col.Name, ri)
				}
			case "float64":
				if byIndex {
					v, err = t.GetFloat64ByColIndex(ci, ri)
				} else {
					v, err = t.GetFloat64(col.Name, ri)
				}
			case "*Table":
				var n *g.Table
				if byIndex {
					n, err = t.GetTableByColIndex(ci, ri)
				} else {
					n, err = t.GetTable(col.Name, ri)
				}
				v = showTable(n, err)
				nilT, e := n.IsNilTable()
				v = fmt.Sprint(v, nilT, e)
			case "time.Time":
				if byIndex {
					v, err = t.GetTimeByColIndex(ci, ri)
				} else {
					v, err = t.GetTime(col.Name, ri)
				}
			default:
				if byIndex {
					v, err = t.GetValByColIndex(ci, ri)
				} else {
					v, err = t.GetVal(col.Name, ri)
				}
			}
			fmt.Fprintf(&b, "%v %v %s|", v, err, m.Cols[ci].Name)
		}
	}
	return b.String()
}

// more lists readings beyond those of C17.
func more(m *MTable) []reading {
	return []reading{
		{"typed by name", func(t *g.Table) string { return typedReadings(t, m, false) }},
		{"typed by index", func(t *g.Table) string { return typedReadings(t, m, true) }},
		{"counts", func(t *g.Table) string {
			return fmt.Sprint(t.Name(), t.ColCount(), t.RowCount(), t.SortKeyCount(), show(t.IsStructShape()))
		}},
		{"snapshot", func(t *g.Table) string { return snapshot(t).fullKey() }},
	}
}

// shared is what the goroutines of a case read: a table and a table set that holds another.
type shared struct {
	m   *MTable
	ms  []*MTable
	t   *g.Table
	s   *g.TableSet
	key uint64
}

func buildShared(c *Case, r *rand.Rand) *shared {
	sh := &shared{}
	o := genOpts{emptyRows: true, minCols: 1, maxCols: 6, maxRows: 7, depth: 2, keys: true, shape: true}
	if chance(r, 2) {
		o.noNaN, o.noInf, o.utf8Only = true, true, true
	}
	sh.m = genTable(r, o)
	if chance(r, 3) {
		sh.m = sortTable(c, 20)
	}
	sh.ms = genSet(r, 1+r.IntN(3), genOpts{emptyRows: true, maxCols: 4, maxRows: 5, depth: 2, keys: true, shape: true, utf8Only: true, noNaN: true, noInf: true})
	sortIt := len(sh.m.Keys) > 0 && chance(r, 2)
	sh.key = r.Uint64()
	sh.rebuild(c, sortIt)
	if sortIt {
		sh.m = snapshot(sh.t)
		sh.rebuild(c, false) // One that nothing was done with.
	}
	return sh
}

func (sh *shared) rebuild(c *Case, sortIt bool) {
	sh.t = buildFresh(c, sh.m) // Nothing was done with it yet.
	sh.s = buildSet(c, "set", sh.ms)
	if sortIt {
		if err := sh.t.Sort(); err != nil {
			c.Failf("Sort: %v", err)
		}
	}
}

// namedRead is a reading of a shared.
type namedRead struct {
	name string
	call func() string
}

// reads lists the readings of sh. Each goroutine has its own list with its own helper tables.
func (sh *shared) reads(c *Case, dir string) (out []namedRead) {
	r := rand.New(rand.NewPCG(sh.key, 1))
	own := &Case{Idx: c.Idx, Seed: c.Seed, R: r, child: &childState{distinct: map[uint64]struct{}{}, dir: dir, res: childResult{Events: map[string]int{}}}}
	for _, op := range append(readings(own, r, sh.m), more(sh.m)...) {
		out = append(out, namedRead{op.name, func() string { return op.call(sh.t) }})
	}
	for _, op := range setReadings(own, r, sh.ms) {
		out = append(out, namedRead{op.name, func() string { return op.call(sh.s) }})
	}
	for i := range out {
		f := out[i].call
		out[i].call = func() string { return strings.ReplaceAll(f(), dir, "DIR") }
	}
	return
}

// readTogether reads the shared tables from several goroutines.
func readTogether(c *Case, r *rand.Rand, sh *shared) {
	n := 2 + r.IntN(6)
	mode := r.IntN(4)
	type result struct {
		op  int
		out string
	}
	got := make([][]result, n)
	orders := make([][]int, n)
	lists := make([][]namedRead, n)
	few := r.Perm(len(sh.reads(c, c.scratch())))[:3]
	for i := 0; i < n; i++ {
		dir := filepath.Join(c.scratch(), fmt.Sprint("r", i))
		os.MkdirAll(dir, 0o755)
		lists[i] = sh.reads(c, dir)
		switch mode {
		case 0: // All do the same.
			if i == 0 {
				orders[i] = r.Perm(len(lists[i]))
			} else {
				orders[i] = orders[0]
			}
		case 1: // A few operations, again and again.
			for k := 0; k < 12; k++ {
				orders[i] = append(orders[i], pick(r, few))
			}
		default:
			orders[i] = r.Perm(len(lists[i]))[:10+r.IntN(20)]
		}
	}
	together(n, r.Uint64(), func(i int) {
		for _, op := range orders[i] {
			out := func() (out string) {
				defer func() {
					if p := recover(); p != nil {
						out = fmt.Sprintf("panic: %v", p)
					}
				}()
				return lists[i][op].call()
			}()
			got[i] = append(got[i], result{op, out})
		}
	})
	c.Ev("goroutines", n)

	// What a single reader gets from tables like these.
	solo := *sh
	solo.rebuild(c, false)
	dir := filepath.Join(c.scratch(), "solo")
	os.MkdirAll(dir, 0o755)
	list := solo.reads(c, dir)
	want := map[int]string{}
	for i := range got {
		for _, res := range got[i] {
			w, ok := want[res.op]
			if !ok {
				w = list[res.op].call()
				want[res.op] = w
			}
			c.Ev("results_compared", 1)
			c.Distinct(list[res.op].name, res.out)
			if w == res.out {
				continue
			}
			steady := true
			for range 40 {
				if list[res.op].call() != w {
					steady = false
				}
			}
			if steady {
				c.Failf("%s beside %d other readers gives\n%s\nalone it gives\n%s", list[res.op].name, n-1, res.out, w)
			}
			c.Ev("unsteady_alone", 1)
			c.Ev("unsteady_"+list[res.op].name, 1)
		}
	}
	if d := diffTables(sh.m, snapshot(sh.t), cmpOpts{}); d != "" {
		c.Failf("the table changed: %s", d)
	}
	if d := diffSets(sh.ms, snapSet(sh.s), cmpOpts{}); d != "" {
		c.Failf("the set changed: %s", d)
	}
}

func runC25(c *Case) {
	if c.Idx%8 == 0 {
		freshProcess(c, "conc25")
		return
	}
	r := c.R
	sh := buildShared(c, r)
	c.Logf("table %v", sh.m)
	c.Logf("set %s", setString(sh.ms))
	c.Sample(sh.m.String())
	for range 2 {
		readTogether(c, r, sh)
	}
}

func init() {
	helpers["conc24"] = func(args []string) {
		c := helperCase("C24", args)
		helperRun(func() {
			jobs := planC24(c.R)
			defer setupC23()()
			got := concurrently(c.R, jobs, c.scratch())
			judgeC24(c, jobs, got)
		})
	}
	helpers["conc25"] = func(args []string) {
		c := helperCase("C25", args)
		helperRun(func() {
			sh := buildShared(c, c.R)
			readTogether(c, c.R, sh)
		})
	}
	register(&Prop{ID: "C24", Race: true, Quick: 1000, Thorough: 12000, Run: runC24, Shards: 4, Setup: setupC23,
		Rule: "a case runs 2 to 7 goroutines, each with its own tables, that do 2 to 4 pieces of work (the workloads of the other properties, every reading operation, damaged documents, files) under the race detector, and compares what each observed with what it observes alone; every fourth case in a new process; distinct is counted over what was observed",
		Need: []string{"results_compared", "fresh_processes"}})
	register(&Prop{ID: "C25", Race: true, Quick: 3000, Thorough: 40000, Run: runC25, Shards: 4,
		Rule: "a case reads one table (nested tables included) and one table set from 2 to 7 goroutines under the race detector, and compares every result with that of a single reader of an equal table; every eighth case in a new process; distinct is counted over results",
		Need: []string{"results_compared", "fresh_processes"}})
}
