package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	g "github.com/urban-wombat/gotables"
)

// ---------------------------------------------------------------- C28

// written is a table or a table set to be written to files.
type written struct {
	name string // Name of the set.
	ms   []*MTable
	one  *g.Table // When a single table is written.
	set  *g.TableSet
}

func (w *written) text() string {
	if w.one != nil {
		return w.one.String()
	}
	return w.set.String()
}

func (w *written) write(name string, mode os.FileMode) error {
	if w.one != nil {
		return w.one.WriteFile(name, mode)
	}
	return w.set.WriteFile(name, mode)
}

func (w *written) String() string {
	if w.one != nil {
		return fmt.Sprintf("table %v", w.ms[0])
	}
	return fmt.Sprintf("set %q %s", w.name, setString(w.ms))
}

func genWritten(c *Case, r *rand.Rand, small bool) *written {
	o := genOpts{maxCols: 5, maxRows: 6, depth: 1, shape: true, keys: true}
	w := &written{}
	n := 1
	if chance(r, 2) {
		n = logSize(r, 0, 5)
	} else {
		w.one = nil
	}
	if small {
		o.maxCols, o.maxRows, o.smallValues = 3, 3, chance(r, 2)
		n = min(n, 2)
	} else if chance(r, 8) {
		o.minCols, o.minRows, o.maxRows = 1, 300, 400
	}
	w.ms = genSet(r, n, o)
	if !small && chance(r, 8) {
		// One very long line.
		for _, m := range w.ms {
			m.Rows = m.Rows[:min(len(m.Rows), 4)]
			for _, row := range m.Rows {
				for i, col := range m.Cols {
					if col.Type == "string" && chance(r, 3) {
						row[i] = strings.Repeat(genString(r, genOpts{utf8Only: true})+"x", 3000+r.IntN(pick(r, []int{1000, 30000})))
					}
				}
			}
		}
	}
	if n == 1 && chance(r, 2) {
		w.one = build(c, w.ms[0])
		return w
	}
	if chance(r, 2) {
		w.name = genName(r)
	}
	w.set = buildSet(c, w.name, w.ms)
	return w
}

// noise is what a file may hold before.
func oldContent(r *rand.Rand, text string) []byte {
	switch r.IntN(4) {
	case 0:
		return []byte(text + text + "\n[left]\nover\nint\n1\n")
	case 1:
		return bytes.Repeat([]byte{byte(r.IntN(256))}, len(text)+r.IntN(5000))
	case 2:
		return []byte(text[:r.IntN(len(text)+1)])
	}
	return []byte{}
}

// checkRead reads the file in every way.
func (w *written) checkRead(c *Case, name string) {
	s, err := g.NewTableSetFromFile(name)
	if err != nil {
		c.Failf("NewTableSetFromFile(%q): %v\n%v", name, err, w)
	}
	if w.one == nil && s.Name() != w.name {
		c.Failf("NewTableSetFromFile: set %q became %q", w.name, s.Name())
	}
	disturb(c)
	if d := diffSets(w.ms, snapSet(s), textCmp); d != "" {
		c.Failf("written to a file and read back: %s\n%v", d, w)
	}
	t, err := g.NewTableFromFile(name)
	if (err == nil) != (len(w.ms) == 1) {
		c.Failf("NewTableFromFile of a file with %d tables: %v", len(w.ms), err)
	}
	if err == nil {
		if d := diffTables(w.ms[0], snapshot(t), textCmp); d != "" {
			c.Failf("NewTableFromFile: %s", d)
		}
	}
	names := map[string]bool{}
	for _, m := range w.ms {
		names[m.Name] = true
		t, err := g.NewTableFromFileByTableName(name, m.Name)
		if err != nil {
			c.Failf("NewTableFromFileByTableName(%q): %v", m.Name, err)
		}
		if d := diffTables(m, snapshot(t), textCmp); d != "" {
			c.Failf("NewTableFromFileByTableName(%q): %s", m.Name, d)
		}
		c.Ev("tables_read", 1)
	}
	absent := genName(c.R)
	if len(w.ms) > 0 {
		absent = pick(c.R, []string{absent, w.ms[0].Name + "x", "", strings.ToUpper(w.ms[0].Name), w.ms[0].Name[:len(w.ms[0].Name)-1]})
	}
	if !names[absent] {
		if t, err := g.NewTableFromFileByTableName(name, absent); err == nil {
			c.Failf("NewTableFromFileByTableName(%q) of a file without it gives %v", absent, snapshot(t))
		}
	}
	c.Ev("files_read", 1)
}

// same says whether the file holds exactly the text.
func holds(path, text string) bool {
	b, err := os.ReadFile(path)
	return err == nil && string(b) == text
}

// bigFile writes and reads a file of megabytes, which takes many reads and writes.
func bigFile(c *Case, r *rand.Rand, dir string) {
	m := genTable(r, genOpts{minCols: 2, maxCols: 4, minRows: 1, maxRows: 3, types: []string{"int", "string", "uint16", "float64", "bool"}})
	m.Cols = append(m.Cols, MCol{"the_big_one", "string"})
	size := 1<<20 + r.IntN(1<<20)
	if chance(r, 3) {
		size *= 10
	}
	cell := pick(r, []int{10, 1000, 100000, size})
	for i := range m.Rows {
		m.Rows[i] = append(m.Rows[i], genString(r, genOpts{utf8Only: true}))
	}
	proto := m.Rows[0]
	for n := 0; n < size; n += cell + 20 {
		row := append([]any{}, proto...)
		row[len(row)-1] = strings.Repeat(string(rune('a'+n%26)), cell+r.IntN(20)) + strconv.Itoa(n)
		m.Rows = append(m.Rows, row)
	}
	w := &written{ms: []*MTable{m}}
	if chance(r, 2) {
		n := genTable(r, genOpts{maxCols: 3, maxRows: 3, shape: true})
		n.Name = m.Name + "x"
		w.ms = append(w.ms, n)
		w.set = buildSet(c, w.name, w.ms)
	} else {
		w.one = build(c, m)
	}
	text := w.text()
	name := filepath.Join(dir, "big.got")
	if chance(r, 2) {
		os.WriteFile(name, bytes.Repeat([]byte{'z'}, len(text)+r.IntN(1<<20)), 0o644)
	}
	if err := w.write(name, 0o644); err != nil {
		c.Failf("WriteFile of %d bytes: %v", len(text), err)
	}
	if !holds(name, text) {
		c.Failf("WriteFile of %d bytes: the file does not hold them", len(text))
	}
	w.checkRead(c, name)
	for _, k := range []int{1 << 16, 1 << 20, len(text) / 2, len(text) - 1, len(text) &^ 4095} {
		if k >= len(text) {
			continue
		}
		name := filepath.Join(dir, fmt.Sprint("cut", k))
		var err error
		limited(rlimitFsize, uint64(k), func() { err = w.write(name, 0o644) })
		if err == nil && !holds(name, text) {
			c.Failf("WriteFile of %d bytes with a file size limit of %d reports success", len(text), k)
		}
		os.Remove(name)
		c.Ev("write_faults", 1)
	}
	c.Ev("big_files", 1)
	c.Ev("big_file_bytes", len(text))
	c.Distinct(len(text), m.Name)
}

func runC28(c *Case) {
	r := c.R
	signal.Ignore(syscall.SIGXFSZ)
	dir, err := os.MkdirTemp(c.scratch(), "files-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if c.Idx%601 == 75 {
		bigFile(c, r, dir)
		return
	}
	switch c.Idx % 4 {
	case 0, 1:
		fileHistory(c, r, dir)
	case 2:
		sizeFaults(c, r, dir)
	default:
		otherFaults(c, r, dir)
	}
}

// fileHistory writes to a few files again and again, and reads them.
func fileHistory(c *Case, r *rand.Rand, dir string) {
	os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0o755)
	os.MkdirAll(filepath.Join(dir, "other"), 0o755)
	os.Symlink(filepath.Join("sub", "deep"), filepath.Join(dir, "link"))
	cwd, _ := os.Getwd()
	rel := func(p string) string {
		q, err := filepath.Rel(cwd, dir)
		if err != nil {
			return dir + p
		}
		return q + p
	}
	base := pick(r, []string{"t.got", "with space.got", "größe.txt", ".hidden", "noext", "-", "a\tb", "x.got.got", strings.Repeat("n", 200), "[name]", "%s%d", "\"q\"", "back\\slash"})
	place := pick(r, []string{"/", "/sub/", "/sub/../", "/link/", "/link/../", "//sub///deep/", "/sub/./deep/", "/link/../../other/"})
	os.Symlink("t.got", filepath.Join(dir, "alias"))
	name := dir + place + base
	if chance(r, 3) {
		name = rel(place + base)
	}
	if chance(r, 10) {
		name = filepath.Join(dir, "alias")
	}
	c.Logf("file %q", name)
	for n := 1 + r.IntN(4); n > 0; n-- {
		w := genWritten(c, r, chance(r, 2))
		text := w.text()
		before := ""
		if chance(r, 2) {
			b := oldContent(r, text)
			before = string(b)
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic(err)
			}
			c.Ev("existed", 1)
			if len(b) > len(text) {
				c.Ev("existed_longer", 1)
			}
		}
		mode := pick(r, []os.FileMode{0, 0o644, 0o600, 0o666, 0o400, 0o755})
		c.Logf("write %v with mode %v over %d bytes", w, mode, len(before))
		if err := w.write(name, mode); err != nil {
			c.Failf("WriteFile(%q): %v\n%v", name, err, w)
		}
		if !holds(name, text) {
			b, err := os.ReadFile(name)
			c.Failf("after WriteFile the file does not hold the text: %v\n%q\nwanted\n%q", err, b, text)
		}
		if text != w.text() {
			c.Failf("WriteFile changed what it wrote")
		}
		w.checkRead(c, name)
		if !holds(name, text) {
			c.Failf("reading changed the file")
		}
		c.Ev("written", 1)
		c.Distinct(text, before, mode)
		c.Sample(w.String())
		if strings.Contains(text, "\n") && chance(r, 3) {
			// In pieces, as from a pipe.
			pipe := filepath.Join(dir, fmt.Sprint("pipe", n))
			if err := syscall.Mkfifo(pipe, 0o644); err != nil {
				c.Ev("no_pipes", 1)
				continue
			}
			cut := r.IntN(len(text) + 1)
			go func() {
				f, err := os.OpenFile(pipe, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				io.WriteString(f, text[:cut])
				runtime.Gosched()
				io.WriteString(f, text[cut:])
				f.Close()
			}()
			s, err := g.NewTableSetFromFile(pipe)
			if err != nil {
				c.Failf("NewTableSetFromFile of a pipe: %v\n%s", err, text)
			}
			if d := diffSets(w.ms, snapSet(s), textCmp); d != "" {
				c.Failf("read from a pipe: %s\n%v", d, w)
			}
			c.Ev("pipes", 1)
		}
	}
}

// limited runs f while a resource limit is low.
func limited(resource int, soft uint64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(resource, &old); err != nil {
		panic(err)
	}
	low := syscall.Rlimit{Cur: soft, Max: old.Max}
	if err := syscall.Setrlimit(resource, &low); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(resource, &old); err != nil {
			panic(err)
		}
	}()
	f()
}

const rlimitFsize = 1

// sizeFaults lets the write fail after every number of bytes.
func sizeFaults(c *Case, r *rand.Rand, dir string) {
	w := genWritten(c, r, !chance(r, 6))
	text := w.text()
	n := len(text)
	c.Logf("%v of %d bytes", w, n)
	var points []int
	if n <= 400 {
		for k := 0; k <= n+1; k++ {
			points = append(points, k)
		}
		c.Ev("fault_points_complete", 1)
	} else {
		points = []int{0, 1, 4095, 4096, 4097, 65536, n - 1, n, n + 1}
		for range 20 {
			points = append(points, r.IntN(n))
		}
	}
	for _, k := range points {
		name := filepath.Join(dir, fmt.Sprintf("limit%d", k))
		existed := chance(r, 3)
		if existed {
			os.WriteFile(name, oldContent(r, text), 0o644)
		}
		var err error
		limited(rlimitFsize, uint64(k), func() { err = w.write(name, 0o644) })
		whole := holds(name, text)
		if err == nil && !whole {
			b, _ := os.ReadFile(name)
			c.Failf("WriteFile of %d bytes with a file size limit of %d reports success, and the file holds %d bytes\n%v", n, k, len(b), w)
		}
		if k >= n && err != nil {
			c.Failf("WriteFile of %d bytes with a file size limit of %d: %v", n, k, err)
		}
		if k < n {
			c.Ev("write_faults", 1)
		} else {
			w.checkRead(c, name)
		}
		os.Remove(name)
	}
	c.Distinct(text)
}

// otherFaults: folders that are missing, full devices, names that cannot be, missing permissions.
func otherFaults(c *Case, r *rand.Rand, dir string) {
	w := genWritten(c, r, chance(r, 2))
	text := w.text()
	ok := filepath.Join(dir, "ok.got")
	if err := w.write(ok, 0); err != nil {
		c.Failf("WriteFile: %v", err)
	}
	os.Mkdir(filepath.Join(dir, "folder"), 0o755)
	os.Symlink("nowhere/else", filepath.Join(dir, "dangling"))
	os.Symlink("loop", filepath.Join(dir, "loop"))
	type bad struct{ what, name string }
	missing := []bad{
		{"missing folder", filepath.Join(dir, "missing", "t.got")},
		{"a file as folder", filepath.Join(ok, "t.got")},
		{"a folder", filepath.Join(dir, "folder")},
		{"no name", ""},
		{"NUL in the name", filepath.Join(dir, "a\x00b")},
		{"long name", filepath.Join(dir, strings.Repeat("x", 300))},
		{"long path", filepath.Join(dir, strings.Repeat("xx/", 3000)+"t")},
		{"dangling link into a missing folder", filepath.Join(dir, "dangling")},
		{"a loop of links", filepath.Join(dir, "loop")},
	}
	for _, b := range missing {
		if err := w.write(b.name, 0o644); err == nil {
			c.Failf("WriteFile to %s reports success", b.what)
		}
		c.Ev("write_faults", 1)
		c.checkReadFault(b.what, b.name)
		c.Distinct(b.what, text)
	}
	c.checkReadFault("no such file", filepath.Join(dir, "absent.got"))
	// A file whose bytes cannot be read: it has no memory at address 0.
	if _, err := os.Stat("/proc/self/mem"); err == nil {
		if f, err := os.Open("/proc/self/mem"); err == nil {
			_, err := f.Read(make([]byte, 10))
			f.Close()
			if err != nil && err != io.EOF {
				c.checkReadFault("a file that gives read errors", "/proc/self/mem")
				c.Ev("read_errors", 1)
			}
		}
	}
	if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
		_, err := f.Write([]byte("x"))
		f.Close()
		if err != nil {
			c.Ev("dev_full", 1)
			c.Ev("write_faults", 1)
			if err := w.write("/dev/full", 0o644); err == nil && len(text) > 0 {
				c.Failf("WriteFile of %d bytes to a full device reports success", len(text))
			}
		}
	}
	// No file can be opened.
	name := filepath.Join(dir, "nofile.got")
	var err, rerr error
	limited(syscall.RLIMIT_NOFILE, 0, func() {
		err = w.write(name, 0o644)
		_, rerr = g.NewTableSetFromFile(ok)
	})
	if err == nil && !holds(name, text) {
		c.Failf("WriteFile with no file descriptor left reports success")
	}
	if rerr == nil {
		c.Failf("NewTableSetFromFile with no file descriptor left reports success")
	}
	c.Ev("no_descriptors", 1)
	withoutPrivileges(c, r, dir, w)
	w.checkRead(c, ok)
	if !holds(ok, text) {
		c.Failf("a file changed by writing others")
	}
}

func (c *Case) checkReadFault(what, name string) {
	if s, err := g.NewTableSetFromFile(name); err == nil {
		c.Failf("NewTableSetFromFile of %s reports success: %s", what, setString(snapSet(s)))
	}
	if t, err := g.NewTableFromFile(name); err == nil {
		c.Failf("NewTableFromFile of %s reports success: %v", what, snapshot(t))
	}
	if t, err := g.NewTableFromFileByTableName(name, "t"); err == nil {
		c.Failf("NewTableFromFileByTableName of %s reports success: %v", what, snapshot(t))
	}
	c.Ev("read_faults", 1)
}

// withoutPrivileges uses files that this thread, as another user, may not use.
func withoutPrivileges(c *Case, r *rand.Rand, dir string, w *written) {
	if os.Getuid() != 0 {
		return
	}
	cwd, err := os.Getwd()
	if err != nil {
		return
	}
	text := w.text()
	os.Mkdir(filepath.Join(dir, "open"), 0o777)
	os.Chmod(filepath.Join(dir, "open"), 0o777)
	os.Mkdir(filepath.Join(dir, "open", "shut"), 0o755)
	os.WriteFile(filepath.Join(dir, "open", "readonly.got"), []byte("[old]\na\nint\n1\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "open", "secret.got"), []byte(text), 0o600)
	if err := os.Chdir(filepath.Join(dir, "open")); err != nil {
		panic(err)
	}
	defer os.Chdir(cwd)
	const nobody = 65534
	asNobody := func(f func()) bool {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		syscall.RawSyscall(syscall.SYS_SETFSUID, nobody, 0, 0)
		defer syscall.RawSyscall(syscall.SYS_SETFSUID, 0, 0, 0)
		// The probe tells whether it worked.
		if h, err := os.Open("secret.got"); err == nil {
			h.Close()
			return false
		}
		f()
		return true
	}
	var errs [4]error
	if !asNobody(func() {
		errs[0] = w.write("shut/new.got", 0o644)
		errs[1] = w.write("readonly.got", 0o644)
		_, errs[2] = g.NewTableSetFromFile("secret.got")
		errs[3] = w.write("mine.got", 0o644)
	}) {
		c.Ev("privileges_kept", 1)
		return
	}
	c.Ev("permission_faults", 1)
	if errs[0] == nil && !holds("shut/new.got", text) {
		c.Failf("WriteFile in a folder without write permission reports success")
	}
	if errs[1] == nil && !holds("readonly.got", text) {
		c.Failf("WriteFile over a file without write permission reports success")
	}
	if errs[2] == nil {
		c.Failf("NewTableSetFromFile of a file without read permission reports success")
	}
	if errs[3] != nil || !holds("mine.got", text) {
		c.Failf("WriteFile in a folder that is open to all: %v", errs[3])
	}
}

func init() {
	register(&Prop{ID: "C28", Quick: 6000, Thorough: 150000, Run: runC28,
		Rule: "a case writes tables and sets to files (again and again, over other content, through links and odd names) and reads them back in every way, or makes the write fail after every possible number of bytes (file size limit), or uses folders, names, devices, permissions and descriptors that make it fail; distinct is counted over texts, content before and mode",
		Need: []string{"written", "existed_longer", "write_faults", "read_faults", "fault_points_complete", "no_descriptors", "big_files"}})
}
