package main

import (
	"fmt"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"weak"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C31: nothing is left behind in the process

// Standard output, standard error and the log of the child process, while the library is at work.
type outputs struct {
	stdout, stderr, log *os.File
	tempDir             string
}

var captured outputs

func setupC31() func() {
	open := func(name string) *os.File {
		f, err := os.CreateTemp("", "gotverif-"+name+"-")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name()) // It has no name any more.
		return f
	}
	captured = outputs{stdout: open("stdout"), stderr: open("stderr"), log: open("log")}
	if err := syscall.Dup3(int(captured.stdout.Fd()), 1, 0); err != nil {
		panic(err)
	}
	log.SetOutput(captured.log)
	// Whatever makes temporary files makes them here.
	tempDir, err := os.MkdirTemp("", "gotverif-temp-")
	if err != nil {
		panic(err)
	}
	captured.tempDir = tempDir
	os.Setenv("TMPDIR", tempDir)
	return func() { os.RemoveAll(tempDir) }
}

func (o outputs) size(f *os.File) int64 {
	info, err := f.Stat()
	if err != nil {
		panic(err)
	}
	return info.Size()
}

func (o outputs) text(f *os.File, from int64) string {
	b := make([]byte, min(o.size(f)-from, 1<<20))
	n, _ := f.ReadAt(b, from)
	return strings.ToValidUTF8(string(b[:n]), "?")
}

// misuse: what is reported on standard error when a method of a nil table or set is called, or a table nested
// in itself is printed.
var misuse = regexp.MustCompile(`(?i)is <nil>|UtilPrintCaller\(\): |circular reference|^[a-z]+\.go:\d+:? ?$`)

func unexpected(text string) string {
	for _, line := range strings.Split(text, "\n") {
		if line != "" && !misuse.MatchString(line) {
			return line
		}
	}
	return ""
}

// processState is what a library has no business changing.
type processState struct {
	goroutines int
	files      []string
	cwd        string
	env        []string
	umask      int
	logFlags   int
	logPrefix  string
	logWriter  bool
	local      string
	procs      int
	temp       []string
	stdout     bool
	vars       string
}

func stateOf(dirs ...string) (s processState) {
	s.goroutines = runtime.NumGoroutine()
	entries, _ := os.ReadDir("/proc/self/fd")
	for _, e := range entries {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && !strings.HasPrefix(to, "anon_inode:") {
			s.files = append(s.files, e.Name()+" "+to)
		}
	}
	s.cwd, _ = os.Getwd()
	s.env = os.Environ()
	sort.Strings(s.env)
	s.umask = syscall.Umask(0)
	syscall.Umask(s.umask)
	s.logFlags = log.Flags()
	s.logPrefix = log.Prefix()
	s.logWriter = log.Writer() == captured.log
	s.local = fmt.Sprint(time.Local, time.Date(2020, 1, 2, 3, 4, 5, 6, time.Local), time.UTC)
	s.procs = runtime.GOMAXPROCS(0)
	s.stdout = os.Stdout != nil && os.Stdout.Fd() == 1
	s.vars = fmt.Sprint(g.MinTime, g.MaxTime)
	for _, dir := range dirs {
		names, _ := filepath.Glob(filepath.Join(dir, "*"))
		s.temp = append(s.temp, names...)
	}
	return
}

// diffFiles compares only the open files.
func diffFiles(a processState) string {
	diff := ""
	for try := 0; try < 20; try++ {
		b := a
		b.files = stateOf().files
		if diff = diffState(a, b); diff == "" {
			return ""
		}
		time.Sleep(time.Duration(try) * time.Millisecond)
	}
	return diff
}

func diffState(a, b processState) string {
	list := func(what string, x, y []string) string {
		if strings.Join(x, "\n") == strings.Join(y, "\n") {
			return ""
		}
		had := map[string]bool{}
		for _, s := range x {
			had[s] = true
		}
		var more []string
		for _, s := range y {
			if !had[s] {
				more = append(more, s)
			}
		}
		return fmt.Sprintf("%s: %d before, %d after; new: %q", what, len(x), len(y), more)
	}
	switch {
	case b.goroutines > a.goroutines:
		buf := make([]byte, 1<<15)
		n := runtime.Stack(buf, true)
		return fmt.Sprintf("%d goroutines before, %d after:\n%s", a.goroutines, b.goroutines, buf[:n])
	case a.cwd != b.cwd:
		return fmt.Sprintf("working folder %s before, %s after", a.cwd, b.cwd)
	case a.umask != b.umask:
		return fmt.Sprintf("umask %o before, %o after", a.umask, b.umask)
	case a.logFlags != b.logFlags || a.logPrefix != b.logPrefix || a.logWriter != b.logWriter:
		return fmt.Sprintf("settings of the default log: %v %q %v before, %v %q %v after", a.logFlags, a.logPrefix, a.logWriter, b.logFlags, b.logPrefix, b.logWriter)
	case a.local != b.local:
		return fmt.Sprintf("time zones: %s before, %s after", a.local, b.local)
	case a.procs != b.procs:
		return fmt.Sprintf("GOMAXPROCS %d before, %d after", a.procs, b.procs)
	case a.stdout != b.stdout:
		return "os.Stdout is another file"
	case a.vars != b.vars:
		return fmt.Sprintf("MinTime and MaxTime: %s before, %s after", a.vars, b.vars)
	}
	for _, s := range []string{list("open files", a.files, b.files), list("environment", a.env, b.env), list("temporary files", a.temp, b.temp)} {
		if s != "" {
			return s
		}
	}
	return ""
}

// Properties whose cases are the work to be watched.
var watched = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C26", "C27", "C28", "C29", "C30"}

// costly: some of its cases are large.
var costly = map[string]bool{"C01": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C28": true}

// maxGrowth is by how many objects the heap may grow in 300 cases, when it has grown by as many before.
const maxGrowth = 300

// maxKept is how many tables the library may hold on to when nobody else does.
const maxKept = 64

func runC31(c *Case) {
	r := c.R
	id := pick(r, watched)
	p := props[id]
	n := 30
	if id == "C28" {
		n = 10
	}
	before := stateOf(captured.tempDir)
	out, errs, logs := captured.size(captured.stdout), captured.size(captured.stderr), captured.size(captured.log)
	seed := r.Uint64()
	var kept []weak.Pointer[g.Table]
	batch := func(k int) {
		built := watchBuilt(func() {
			for i := 0; i < n; i++ {
				work(c, p, seed+uint64(k), int((seed+uint64(k)*uint64(n))%100003)+i)
			}
		})
		kept = append(kept, built...)
		c.Ev("inner_cases", n)
		c.Ev("tables_made", len(built))
	}
	count := func() int {
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return int(ms.HeapObjects)
	}
	// Without garbage collection meanwhile: that would close files which nobody closed.
	percent, limit := debug.SetGCPercent(-1), debug.SetMemoryLimit(600<<20)
	batch(0)
	diff := diffFiles(before)
	debug.SetGCPercent(percent)
	debug.SetMemoryLimit(limit)
	if diff != "" {
		c.Failf("after the work of %s: %s", id, diff)
	}
	alive := 0
	for try := 0; try < 20; try++ {
		runtime.GC()
		alive = 0
		for _, w := range kept {
			if w.Value() != nil {
				alive++
			}
		}
		if alive <= maxKept {
			break
		}
		time.Sleep(time.Duration(try) * time.Millisecond)
	}
	c.Logf("%d cases of %s from seed %d: %d tables, %d kept", n, id, seed, len(kept), alive)
	if alive > maxKept {
		c.Failf("of %d tables which nobody refers to any more %d are not freed (work of %s)", len(kept), alive, id)
	}
	// The library may keep things it is likely to need again, but not more and more of them.
	kept = nil
	growth := 0
	if !costly[id] && chance(r, 4) {
		k := 0
		more := func() int {
			n0 := count()
			for end := k + 10; k < end; k++ {
				batch(k + 1)
				kept = nil
			}
			return count() - n0
		}
		for try := 0; try < 4; try++ {
			if growth = more(); growth <= maxGrowth {
				break
			}
		}
		if growth > maxGrowth {
			c.Failf("the heap grows by %d objects in %d cases of %s, time and again", growth, 10*n, id)
		}
		c.Ev("growth_measured", 1)
	}
	for try := 0; try < 50; try++ { // The runtime and os/exec end goroutines of their own in their own time.
		if diff = diffState(before, stateOf(captured.tempDir)); diff == "" {
			break
		}
		time.Sleep(time.Duration(try) * time.Millisecond)
	}
	if diff != "" {
		c.Failf("after the work of %s: %s", id, diff)
	}
	if x := captured.size(captured.stdout); x != out {
		c.Failf("the work of %s printed %d bytes on standard output: %s", id, x-out, captured.text(captured.stdout, out))
	}
	if x := captured.size(captured.log); x != logs {
		c.Failf("the work of %s wrote %d bytes to the default log: %s", id, x-logs, captured.text(captured.log, logs))
	}
	if x := captured.size(captured.stderr); x != errs {
		if line := unexpected(captured.text(captured.stderr, errs)); line != "" {
			c.Failf("the work of %s printed on standard error: %s", id, line)
		}
		c.Ev("reports_of_misuse", 1)
		captured.stderr.Truncate(0)
		captured.stderr.Seek(0, 0)
	}
	c.Ev("looks", 1)
	c.Ev("looks_"+id, 1)
	c.Distinct(id, fmt.Sprint(seed))
}

// work runs one case of another property; what that has to say is not judged here.
func work(c *Case, p *Prop, seed uint64, i int) {
	inner := &Case{Idx: i, Seed: seed, Tier: "quick", R: caseRand(p.ID, seed, i), child: &childState{distinct: map[uint64]struct{}{}}}
	inner.child.res.Events = map[string]int{}
	dir, err := os.MkdirTemp(c.scratch(), "case")
	if err != nil {
		c.Failf("harness: %v", err)
	}
	inner.child.dir = dir
	defer os.RemoveAll(dir)
	c.child.tick()
	was := os.Stderr
	os.Stderr = captured.stderr
	defer func() { os.Stderr = was }()
	if v := runCase(p, inner); v != nil {
		c.Ev("inner_violations", 1)
	}
}

// watchBuilt runs f and gives weak references to all tables built by it.
func watchBuilt(f func()) []weak.Pointer[g.Table] {
	builtTables = &[]weak.Pointer[g.Table]{}
	defer func() { builtTables = nil }()
	f()
	return *builtTables
}

func init() {
	register(&Prop{ID: "C31", Quick: 2000, Thorough: 60000, Run: runC31, Setup: setupC31,
		Rule: "a case runs 30 cases of another property (not judged here), collects garbage, and looks at what is left: tables not freed, goroutines, open and temporary files, settings of the process, and anything printed; distinct is counted over the work done",
		Need: []string{"looks", "inner_cases", "tables_made", "growth_measured"}})
}
