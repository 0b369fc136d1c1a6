// Runtime monitors for gotables: the harness runner.
//
// The parent process splits a fixed, PRNG-determined list of cases over child processes.
// Each child journals the case it is about to run, so that a child which dies (os.Exit in the
// library, stack overflow, memory exhaustion, a detected data race) or stops making progress
// identifies the case that did it.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is a property with its workload and monitors.
type Prop struct {
	ID       string
	Race     bool          // Built with the race detector.
	Quick    int           // Number of cases (quick tier).
	Thorough int           // Number of cases (thorough tier).
	Run      func(c *Case) // Run and judge one case.
	Setup    func() func() // Once per child process. Returns a clean-up.
	Rule     string        // What makes a case, and what makes it non-trivial.
	Need     []string      // Event counters that must be non-zero, or nothing was observed.
	Assume   []string      // Assumptions recorded in the evidence.
	Shards   int           // 0 = number of CPUs.
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is one execution: a PRNG, a trace for the replay file, and event counters.
type Case struct {
	Idx    int
	Seed   uint64
	Tier   string
	R      *rand.Rand
	trace  []string
	traceN int
	child  *childState
	worn   int // In the making of a worn table.
}

type violation struct{ msg string }

const maxTrace = 400

// Logf records one observed event in the trace of the case.
func (c *Case) Logf(format string, args ...any) {
	c.traceN++
	s := fmt.Sprintf(format, args...)
	if len(s) > 4000 {
		s = s[:4000] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	if len(c.trace) >= maxTrace {
		copy(c.trace[1:], c.trace[2:])
		c.trace = c.trace[:len(c.trace)-1]
	}
	c.trace = append(c.trace, s)
}

// Failf ends the case with a violation of the property.
func (c *Case) Failf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 20000 {
		s = s[:20000] + "..."
	}
	panic(violation{s})
}

func (c *Case) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Ev counts observed events.
func (c *Case) Ev(name string, n int) { c.child.res.Events[name] += n }

// Distinct records one judged observation by its content.
func (c *Case) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.child.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps a few written-out cases for the evidence.
func (c *Case) Sample(s string) {
	if len(c.child.res.Samples) < 2 {
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.child.res.Samples = append(c.child.res.Samples, strings.ToValidUTF8(s, "\uFFFD"))
	}
}

type violRec struct {
	Case  int      `json:"case"`
	Msg   string   `json:"message"`
	Trace []string `json:"trace"`
	Known string   `json:"known,omitempty"`
}

type childResult struct {
	Cases      int            `json:"cases"`
	Events     map[string]int `json:"events"`
	Distinct   []uint64       `json:"distinct"`
	Samples    []string       `json:"samples"`
	Violations []violRec      `json:"violations"`
}

type childState struct {
	res      childResult
	distinct map[uint64]struct{}
	dir      string
	tick     func() // Starts the time limit again.
}

// scratch is a folder of this child process alone, removed at its end.
func (c *Case) scratch() string { return c.child.dir }

func caseRand(prop string, seed uint64, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	a := h.Sum64()
	fmt.Fprintf(h, "/second")
	return rand.New(rand.NewPCG(a, h.Sum64()))
}

// runCase runs one case and returns the violation, if any.
func runCase(p *Prop, c *Case) (v *violRec) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			if viol, ok := r.(violation); ok {
				msg = viol.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
			v = &violRec{Case: c.Idx, Msg: msg, Trace: append([]string(nil), c.trace...)}
		}
	}()
	p.Run(c)
	return nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

const (
	exitStuck  = 97
	exitMemory = 98
	exitRace   = 66
)

func childMain(p *Prop, tier string, seed uint64, from, to, step, total int, only int, journal, out string, limit time.Duration, memLimitMB uint64, stop int64) {
	debug.SetMaxStack(256 << 20)
	j, err := os.OpenFile(journal, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	st := &childState{distinct: map[uint64]struct{}{}}
	st.res.Events = map[string]int{}

	var began atomic.Int64
	began.Store(time.Now().UnixNano())
	st.tick = func() { began.Store(time.Now().UnixNano()) }
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			if time.Since(time.Unix(0, began.Load())) > limit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.WriteString("STUCK\n")
				os.Stderr.Write(buf[:n])
				os.Exit(exitStuck)
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimitMB<<20 {
				os.Stderr.WriteString("MEMORY\n")
				os.Exit(exitMemory)
			}
		}
	}()

	// The parent removes this folder, also when this process dies.
	st.dir = out + ".scratch"
	if err := os.MkdirAll(st.dir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cleanup := func() {}
	if p.Setup != nil {
		cleanup = p.Setup()
	}
	for idx := from; idx < total && idx < to; idx += step {
		if only >= 0 {
			idx = only
		} else if stop > 0 && time.Now().Unix() > stop {
			st.res.Events["stopped_early"]++
			break
		}
		if _, err := j.WriteAt([]byte(fmt.Sprintf("%12d", idx)), 0); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		began.Store(time.Now().UnixNano())
		c := &Case{Idx: idx, Seed: seed, Tier: tier, R: caseRand(p.ID, seed, idx), child: st}
		v := runCase(p, c)
		st.res.Cases++
		if v != nil {
			st.res.Violations = append(st.res.Violations, *v)
			if len(st.res.Violations) >= 5 {
				break
			}
		}
		if only >= 0 {
			break
		}
	}
	cleanup()
	for h := range st.distinct {
		st.res.Distinct = append(st.res.Distinct, h)
	}
	b, err := json.Marshal(st.res)
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

type shardOut struct {
	res   childResult
	viols []violRec
	err   error
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return strings.ToValidUTF8(string(b), "?")
}

func head(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return strings.ToValidUTF8(string(b), "?")
}

func runChild(ctx context.Context, p *Prop, dir string, name string, args []string) (code int, res *childResult, journalIdx int, stderrPath string) {
	journal := filepath.Join(dir, name+".journal")
	out := filepath.Join(dir, name+".json")
	os.Remove(out)
	stderrPath = filepath.Join(dir, name+".err")
	ef, _ := os.Create(stderrPath)
	defer ef.Close()
	of, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer of.Close()
	all := append([]string{"-child", "-prop", p.ID, "-journal", journal, "-childout", out}, args...)
	cmd := exec.CommandContext(ctx, os.Args[0], all...)
	cmd.Stdout = of
	cmd.Stderr = ef
	cmd.Env = append(os.Environ(), "TZ=Australia/Sydney")
	if p.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 atexit_sleep_ms=0 exitcode="+strconv.Itoa(exitRace))
	}
	err := cmd.Run()
	journalIdx = -1
	if b, e := os.ReadFile(journal); e == nil {
		journalIdx, _ = strconv.Atoi(strings.TrimSpace(string(b)))
	}
	if err != nil {
		code = cmd.ProcessState.ExitCode()
		if code == 0 {
			code = -1
		}
	}
	if b, e := os.ReadFile(out); e == nil && code == 0 {
		var r childResult
		if json.Unmarshal(b, &r) == nil {
			res = &r
		}
	}
	return
}

func merge(dst *childResult, src *childResult) {
	dst.Cases += src.Cases
	if dst.Events == nil {
		dst.Events = map[string]int{}
	}
	for k, v := range src.Events {
		dst.Events[k] += v
	}
	dst.Distinct = append(dst.Distinct, src.Distinct...)
	dst.Samples = append(dst.Samples, src.Samples...)
}

func main() {
	var (
		propID   = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		caseN    = flag.Int("case", -1, "run this case only")
		cases    = flag.Int("cases", 0, "override the number of cases")
		evid     = flag.String("evidence", "", "evidence file")
		replays  = flag.String("replays", "", "folder for replay files")
		known    = flag.String("known", "", "known findings file")
		isChild  = flag.Bool("child", false, "")
		from     = flag.Int("from", 0, "")
		to       = flag.Int("to", 1<<60, "")
		step     = flag.Int("step", 1, "")
		journal  = flag.String("journal", "", "")
		childout = flag.String("childout", "", "")
		stopAt   = flag.Int64("stop", 0, "")
		limitS   = flag.Int("limit", 60, "")
		memMB    = flag.Uint64("mem", 2200, "")
		list     = flag.Bool("list", false, "list properties")
		helper   = flag.String("helper", "", "run a helper")
	)
	flag.Parse()
	if *helper != "" {
		runHelper(*helper, flag.Args())
		return
	}
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			race := 0
			if props[id].Race {
				race = 1
			}
			fmt.Println(id, race)
		}
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(2)
	}
	total := p.Quick
	if *tier == "thorough" {
		total = p.Thorough
	}
	if *cases > 0 {
		total = *cases
	}
	if *isChild {
		childMain(p, *tier, *seed, *from, *to, *step, max(total, *caseN+1), *caseN, *journal, *childout, time.Duration(*limitS)*time.Second, *memMB, *stopAt)
		return
	}
	os.Exit(parentMain(p, *tier, *seed, total, *caseN, *evid, *replays, *known))
}

func parentMain(p *Prop, tier string, seed uint64, total, caseN int, evid, replays, known string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "gotverif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	shards := p.Shards
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
		if shards < 1 {
			shards = 1
		}
	}
	if caseN >= 0 {
		shards = 1
	}
	if shards > total {
		shards = max(1, total)
	}
	base := func(limit int) []string {
		return []string{"-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-cases", strconv.Itoa(total), "-limit", strconv.Itoa(limit)}
	}

	// One confirmed death is enough: the others need not be waited for. And the quick tier
	// begins no new cases after ten minutes, however slow the machine is.
	kfs := loadKnown(known, p.ID)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	confirming := make(chan bool, 3)
	var stop int64
	if tier != "thorough" {
		stop = start.Unix() + 600
	}

	outs := make([]shardOut, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			o := &outs[s]
			from := s
			deaths := 0
			for {
				args := append(base(60), "-from", strconv.Itoa(from), "-step", strconv.Itoa(shards), "-stop", strconv.FormatInt(stop, 10))
				if caseN >= 0 {
					args = append(args, "-case", strconv.Itoa(caseN))
				}
				code, res, at, errPath := runChild(ctx, p, dir, fmt.Sprintf("s%d", s), args)
				if res != nil {
					merge(&o.res, res)
					o.viols = append(o.viols, res.Violations...)
					return
				}
				if ctx.Err() != nil {
					return
				}
				if code == 3 || at < 0 {
					o.err = fmt.Errorf("child %d: exit %d before any case: %s", s, code, tail(errPath, 2000))
					return
				}
				// The child died in case at. Rerun it alone, with a longer limit, to confirm.
				msg := describeDeath(code, errPath)
				if code == exitRace {
					o.viols = append(o.viols, violRec{Case: at, Msg: msg})
				} else {
					args2 := append(base(150), "-case", strconv.Itoa(at), "-mem", "4000")
					confirming <- true
					code2, res2, _, errPath2 := runChild(ctx, p, dir, fmt.Sprintf("s%dc%d", s, at), args2)
					<-confirming
					if ctx.Err() != nil {
						return
					}
					switch {
					case res2 == nil:
						o.viols = append(o.viols, violRec{Case: at, Msg: describeDeath(code2, errPath2)})
					case len(res2.Violations) > 0:
						o.viols = append(o.viols, res2.Violations...)
					case code == exitStuck:
						// Slow, not stuck: it finished when given more time.
						merge(&o.res, res2)
					default:
						// It does not die alone: state left by earlier cases made it die.
						o.viols = append(o.viols, violRec{Case: at, Msg: "(only after the cases before it in the same process) " + msg})
					}
				}
				for _, v := range o.viols {
					if !isKnown(kfs, v.Msg) {
						cancel()
						return
					}
				}
				deaths++
				if deaths >= 3 || caseN >= 0 {
					return
				}
				from = at + shards
				if from >= total {
					return
				}
			}
		}(s)
	}
	wg.Wait()

	var res childResult
	var viols []violRec
	for s := range outs {
		if outs[s].err != nil {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", outs[s].err)
			return 2
		}
		merge(&res, &outs[s].res)
		viols = append(viols, outs[s].viols...)
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })

	distinct := map[uint64]struct{}{}
	for _, h := range res.Distinct {
		distinct[h] = struct{}{}
	}

	// Known findings.
	knownSeen := map[string]bool{}
	var fresh []violRec
	for _, v := range viols {
		matched := ""
		for _, k := range kfs {
			if strings.Contains(v.Msg, k.key) {
				matched = k.text
			}
		}
		if matched != "" {
			knownSeen[matched] = true
			continue
		}
		fresh = append(fresh, v)
	}
	for _, k := range kfs {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
	}

	if evid != "" {
		if len(res.Samples) > 6 {
			res.Samples = res.Samples[:6]
		}
		if len(res.Samples) == 0 {
			res.Samples = []string{"(none)"}
		}
		level := "exploration"
		if p.ID == "C28" {
			level = "fault_enumeration"
		}
		assume := append([]string{"the Go toolchain, the race detector and the standard library packages used by the oracles are correct"}, p.Assume...)
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": level,
			"coverage": map[string]any{
				"evaluations":         res.Cases,
				"distinct_nontrivial": len(distinct),
				"rule":                p.Rule,
				"samples":             res.Samples,
				"events":              res.Events,
				"processes":           shards,
			},
			"assumptions": assume,
			"wall_s":      float64(time.Since(start).Milliseconds()) / 1000,
			"violations":  len(fresh),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(evid, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}

	if len(fresh) > 0 {
		os.MkdirAll(replays, 0o755)
		for i, v := range fresh {
			path := filepath.Join(replays, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, v.Case))
			b, _ := json.MarshalIndent(map[string]any{
				"property": p.ID, "seed": seed, "tier": tier, "case": v.Case,
				"message": v.Msg, "trace": v.Trace,
				"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/run.sh %s -case %d", seed, tier, p.ID, v.Case),
			}, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			if i < 3 {
				first := v.Msg
				if len(first) > 1500 {
					first = first[:1500] + "..."
				}
				fmt.Printf("case %d: %s\n", v.Case, first)
			}
			if i < 10 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			}
		}
		return 1
	}
	if caseN < 0 {
		for _, n := range p.Need {
			if res.Events[n] == 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: property=%s observed no %q event in %d cases\n", p.ID, n, res.Cases)
				return 2
			}
		}
	}
	fmt.Printf("OK property=%s cases=%d distinct=%d events=%s wall=%.1fs\n", p.ID, res.Cases, len(distinct), fmtEvents(res.Events), time.Since(start).Seconds())
	return 0
}

func fmtEvents(m map[string]int) string {
	b, _ := json.Marshal(m)
	return string(b)
}

func describeDeath(code int, errPath string) string {
	switch code {
	case exitRace:
		return "data race reported by the race detector:\n" + head(errPath, 8000)
	case exitStuck:
		return "no progress: the case did not finish within its limit\n" + head(errPath, 6000)
	case exitMemory:
		return "memory exhausted by the case\n" + head(errPath, 2000)
	}
	h := head(errPath, 3000)
	if i := strings.Index(h, "fatal error:"); i > 0 {
		h = h[i:]
	}
	return fmt.Sprintf("the process ended (exit %d) inside the case\n%s\n...\n%s", code, h, tail(errPath, 1500))
}

type knownFinding struct{ key, text string }

// Known findings file: lines "finding: property=<id> key=<key> :: <text>".
func isKnown(kfs []knownFinding, msg string) bool {
	for _, k := range kfs {
		if strings.Contains(msg, k.key) {
			return true
		}
	}
	return false
}

func loadKnown(path, id string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: property="+id+" key=")
		if !ok {
			continue
		}
		key, text, ok := strings.Cut(rest, " :: ")
		if ok && key != "" {
			out = append(out, knownFinding{key, text})
		}
	}
	return
}
