package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing/synctest"

	"gopkg.in/yaml.v2"

	"gotsrpcsim/cmdmain"
)

// GenPlan is one simulated history of generator runs over one input.
type GenPlan struct {
	Case  string    `json:"case"`
	Seed  uint64    `json:"src_seed,omitempty"` // of a random module
	Size  int       `json:"size,omitempty"`
	Mode  string    `json:"mode"`           // order | fault | crash
	Pre   string    `json:"pre"`            // outputs found at the start: clean | own | torn | junk | older
	Steps []GenStep `json:"steps"`          // disturbed runs; an undisturbed one follows
	Rand  uint64    `json:"rand,omitempty"` // value stream of the last run
}

// GenStep is one generator run: faults it meets, or the point where it is killed.
type GenStep struct {
	Rand   uint64    `json:"rand"`
	Faults []GenErr  `json:"errs,omitempty"`
	Crash  *GenCrash `json:"crash,omitempty"`
	Break  *GenBreak `json:"break,omitempty"`
}

type GenErr struct {
	Class  string `json:"class"` // write: anything that changes files; read: the rest
	Pos    uint64 `json:"pos"`   // modulo the number of such calls in an undisturbed run
	Err    string `json:"err"`
	Part   uint64 `json:"part,omitempty"`   // how much of a write goes through
	Sticky bool   `json:"sticky,omitempty"` // every later call of that class fails as well
}

type GenCrash struct {
	Pos   uint64 `json:"pos"`
	Part  uint64 `json:"part,omitempty"`
	Power uint64 `json:"power,omitempty"` // not only the process: unsynced data may be lost; seed
}

var genRoot, genCorpus string

type genCase struct {
	name    string
	root    string // everything below it belongs to this case
	cwd     string
	args    []string
	sources map[string]string // absolute path -> content
	allowed map[string]bool   // configured outputs
	must    []string          // outputs the configuration demands
	// from an undisturbed run
	refCode  int
	refOut   map[string]string
	nW, nR   int
	refLog   string
	prepared bool
	flaky    bool
}

var genCases = map[string]*genCase{}

var fixedCases = []string{"sim", "basic", "errors", "monitor", "nullable", "time", "union"}

func genInit() {
	if genRoot == "" || genCorpus == "" {
		fmt.Fprintln(os.Stderr, "-gendir and -corpus are needed")
		os.Exit(2)
	}
	genRoot = filepath.Join(genRoot, fmt.Sprint(os.Getpid()))
	must(os.MkdirAll(genRoot, 0o755))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gen harness:", err)
		os.Exit(2)
	}
}

func genGenPlan(prop string, seed, k uint64) *Plan {
	r := newRng(seed, hashStr(prop), k)
	g := &GenPlan{Rand: r.u64()}
	g.Case = fixedCases[r.n(len(fixedCases))]
	if r.p(55) {
		g.Case, g.Seed, g.Size = "random", r.u64()>>1, r.between(2, 7)
	}
	g.Pre = r.pick("clean", "clean", "own", "own", "torn", "junk", "older", "older", "older")
	p := &Plan{Prop: prop, Seed: k, Gen: g}
	p.Sched = SchedCfg{Policy: uint32(r.n(5)), YieldP: 256, Seed: r.u64() >> 1, Rand: r.u64() >> 1}
	gerr := func() GenErr {
		e := GenErr{Class: "write", Pos: r.u64() >> 1, Part: r.u64() >> 1, Err: r.pick("ENOSPC", "EIO", "EACCES", "EDQUOT", "EROFS", "EMFILE")}
		if r.p(25) {
			e.Class = "read"
			e.Err = r.pick("EIO", "EACCES", "EMFILE", "short")
		}
		e.Sticky = r.p(30)
		return e
	}
	crash := func() *GenCrash {
		c := &GenCrash{Pos: r.u64() >> 1, Part: r.u64() >> 1}
		if r.p(40) {
			c.Power = r.u64()>>1 | 1
		}
		return c
	}
	switch prop {
	case "C16":
		g.Mode = "order"
		if g.Pre == "torn" {
			g.Pre = "own"
		}
		for i := r.between(1, 3); i > 0; i-- {
			g.Steps = append(g.Steps, GenStep{Rand: r.u64() >> 1})
		}
	case "C17":
		g.Mode = "fault"
		for i := r.between(1, 2); i > 0; i-- {
			s := GenStep{Rand: r.u64() >> 1}
			if r.p(25) {
				s.Break = &GenBreak{Kind: breakKinds[r.n(len(breakKinds))], Pos: r.u64() >> 1}
			} else {
				for j := r.between(1, 2); j > 0; j-- {
					s.Faults = append(s.Faults, gerr())
				}
			}
			g.Steps = append(g.Steps, s)
		}
	case "C18":
		g.Mode = "crash"
		for i := r.between(1, 2); i > 0; i-- {
			s := GenStep{Rand: r.u64() >> 1}
			if r.p(25) {
				s.Faults = append(s.Faults, gerr())
			}
			if len(s.Faults) == 0 || r.p(60) {
				s.Crash = crash()
			}
			g.Steps = append(g.Steps, s)
		}
	}
	return p
}

// ---- inputs ---------------------------------------------------------------

func readTree(dir string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[p] = string(b)
		}
		return nil
	}))
	return m
}

func loadCase(g *GenPlan) *genCase {
	key := g.Case
	if key == "random" {
		key = fmt.Sprintf("random-%d-%d", g.Seed, g.Size)
	}
	if c := genCases[key]; c != nil {
		return c
	}
	c := &genCase{name: key, sources: map[string]string{}, allowed: map[string]bool{}}
	switch {
	case g.Case == "random":
		for k, o := range genCases { // only one random module is kept
			if strings.HasPrefix(k, "random-") {
				must(os.RemoveAll(o.root))
				delete(genCases, k)
			}
		}
		c.root = filepath.Join(genRoot, "random")
		c.cwd = c.root
		files, args := genSources(g.Seed, g.Size)
		c.args = args
		for f, s := range files {
			c.sources[filepath.Join(c.root, f)] = s
		}
	case g.Case == "sim":
		c.root = filepath.Join(genRoot, "sim")
		c.cwd = c.root
		c.args = []string{"gotsrpc.yml"}
		for p, s := range readTree(filepath.Join(genCorpus, "sim")) {
			rel, _ := filepath.Rel(filepath.Join(genCorpus, "sim"), p)
			if rel == "gotsrpc.yml" {
				s = strings.NewReplacer("@ROOT@", c.root, "@OUT@", c.root+"/ts").Replace(s)
			}
			c.sources[filepath.Join(c.root, rel)] = s
		}
	default:
		c.root = filepath.Join(genRoot, "repo-"+g.Case)
		c.cwd = filepath.Join(c.root, "example", g.Case)
		c.args = []string{"gotsrpc.yml"}
		base := filepath.Join(genCorpus, "repo")
		for p, s := range readTree(base) {
			rel, _ := filepath.Rel(base, p)
			if strings.HasPrefix(rel, "example/") && !strings.HasPrefix(rel, "example/"+g.Case+"/") {
				continue
			}
			c.sources[filepath.Join(c.root, rel)] = s
		}
	}
	c.readConfig()
	for p := range c.allowed {
		delete(c.sources, p)
	}
	must(os.RemoveAll(c.root))
	for p, s := range c.sources {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(s), 0o644))
	}
	must(os.MkdirAll(c.cwd, 0o755))
	genCases[key] = c
	return c
}

// readConfig finds out which files the configuration asks for.
func (c *genCase) readConfig() {
	var conf struct {
		Module struct {
			Name, Path string
		}
		Targets map[string]struct {
			Package string
			Out     string
			GoRPC   []string `yaml:"gorpc"`
			TSRPC   []string `yaml:"tsrpc"`
			Skip    bool     `yaml:"skipTSRPCClient"`
		}
		Mappings map[string]struct{ Out string }
	}
	must(yaml.Unmarshal([]byte(c.sources[filepath.Join(c.cwd, c.args[0])]), &conf))
	abs := c.abs
	root := abs(conf.Module.Path)
	for _, t := range conf.Targets {
		dir := filepath.Join(root, strings.TrimPrefix(t.Package, conf.Module.Name))
		for _, f := range []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"} {
			c.allowed[filepath.Join(dir, f)] = true
		}
		if t.Out != "" {
			c.allowed[abs(t.Out)] = true
			c.must = append(c.must, abs(t.Out))
		}
		if len(t.TSRPC) > 0 {
			c.must = append(c.must, filepath.Join(dir, "gotsrpc_gen.go"))
			if !t.Skip {
				c.must = append(c.must, filepath.Join(dir, "gotsrpcclient_gen.go"))
			}
		}
		if len(t.GoRPC) > 0 {
			c.must = append(c.must, filepath.Join(dir, "gorpc_gen.go"), filepath.Join(dir, "gorpcclient_gen.go"))
		}
	}
	for _, m := range conf.Mappings {
		if m.Out != "" {
			c.allowed[abs(m.Out)] = true
		}
	}
	sort.Strings(c.must)
}

func (c *genCase) abs(p string) string {
	if strings.HasPrefix(p, "~") {
		return filepath.Join(c.root, p[1:])
	}
	if !filepath.IsAbs(p) {
		p = filepath.Join(c.cwd, p)
	}
	return filepath.Clean(p)
}

// restore puts the tree into a known state: sources as they were, outputs out.
func (c *genCase) restore(out map[string]string) {
	have := readTree(c.root)
	for p := range have {
		if _, ok := c.sources[p]; ok {
			continue
		}
		if _, ok := out[p]; !ok {
			must(os.Remove(p))
		}
	}
	for _, m := range []map[string]string{c.sources, out} {
		for p, s := range m {
			if h, ok := have[p]; !ok || h != s {
				must(os.MkdirAll(filepath.Dir(p), 0o755))
				must(os.WriteFile(p, []byte(s), 0o644))
			}
		}
	}
}

// state reads the outputs and reports what else changed.
func (c *genCase) state() (out map[string]string, foreign []string) {
	have := readTree(c.root)
	out = map[string]string{}
	for p, s := range have {
		if c.allowed[p] {
			out[p] = s
		}
	}
	for p, s := range c.sources {
		if h, ok := have[p]; !ok {
			foreign = append(foreign, "removed "+c.rel(p))
		} else if h != s {
			foreign = append(foreign, "changed "+c.rel(p))
		}
	}
	sort.Strings(foreign)
	return
}

func (c *genCase) rel(p string) string {
	if r, err := filepath.Rel(c.root, p); err == nil {
		return r
	}
	return p
}

// ---- one generator process --------------------------------------------------

type genRun struct {
	c      *genCase
	step   *GenStep
	code   int // exit status; -1: killed
	log    bytes.Buffer
	ops    []string
	nW, nR int
	frozen bool
	main   uint64
	wrote  map[string]bool
	gone   map[string]string
	wfd    map[string]bool
	hits   map[string]int
	bad    []string
	panicV any
	stats  runtime.SimStats
	sticky map[string]string
	outErr int
	jobs   int
}

var errnos = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE}

var genDebug = os.Getenv("GENDBG") != ""

var realHome = os.Getenv("HOME")

var errFrozen = errors.New("the process is gone")

func (g *genRun) die(code int) {
	if g.frozen {
		return
	}
	g.frozen = true
	g.code = code
	if runtime.SimGoid() == g.main {
		runtime.Goexit()
	}
}

func (g *genRun) abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(g.c.cwd, p)
	}
	return filepath.Clean(p)
}

const wflags = os.O_WRONLY | os.O_RDWR | os.O_CREATE | os.O_TRUNC | os.O_APPEND

// fs is the file system the generator sees.
func (g *genRun) fs(op, name string, flag, n int) (int, error) {
	if name == "/dev/stdout" || name == "/dev/stderr" {
		if op == "write" && !genDebug {
			return -1, nil
		}
		return n, nil
	}
	if strings.HasPrefix(name, "|") { // a pipe
		return n, nil
	}
	p := g.abs(name)
	inside := p == g.c.root || strings.HasPrefix(p, g.c.root+"/")
	mut := false
	switch op {
	case "open":
		mut = flag&wflags != 0
	case "write", "mkdir", "rename", "remove", "removeall", "truncate", "chmod", "link", "symlink", "sync":
		mut = true
	case "close":
		mut = g.wfd[p]
	}
	if g.frozen {
		if runtime.SimGoid() == g.main {
			return 0, errFrozen
		}
		if mut {
			return 0, errFrozen
		}
		return n, nil
	}
	if mut && !inside && !(op == "open" && p == os.DevNull) && p != os.DevNull {
		g.bad = append(g.bad, op+" "+p)
		return 0, syscall.EPERM
	}
	if !inside {
		return n, nil
	}
	class := "read"
	var at, total int
	if mut {
		class = "write"
		at, total = g.nW, g.c.nW
		g.nW++
	} else {
		at, total = g.nR, g.c.nR
		g.nR++
	}
	if mut && len(g.ops) < 4000 {
		g.ops = append(g.ops, op+" "+g.c.rel(p)+fmt.Sprintf(" %d", n))
	}
	if mut && !g.c.allowed[p] && op != "mkdir" {
		if _, src := g.c.sources[p]; src {
			g.bad = append(g.bad, op+" "+g.c.rel(p))
		}
	}
	if s := g.step; s != nil && total > 0 {
		if cr := s.Crash; cr != nil && mut && at == int(cr.Pos%uint64(total+1)) {
			g.hit("kill:" + op)
			if op == "write" && n > 0 {
				part := int(cr.Part % uint64(n+1))
				g.touch(p)
				g.simAfter(func() { g.die(-1) })
				return part, errFrozen
			}
			if op == "open" && flag&os.O_TRUNC != 0 && cr.Part&1 == 1 {
				// opened and truncated, then gone
				g.touch(p)
				os.SimFS = nil
				if f, err := os.OpenFile(p, flag, 0o644); err == nil {
					f.Close()
				}
				os.SimFS = g.fs
			}
			g.die(-1)
			return 0, errFrozen
		}
		for i := range s.Faults {
			e := &s.Faults[i]
			if e.Class != class {
				continue
			}
			now := at == int(e.Pos%uint64(total))
			if now && e.Sticky {
				g.sticky[class] = e.Err
			}
			if !now && g.sticky[class] != e.Err {
				continue
			}
			if e.Err == "short" {
				if op == "read" && n > 1 {
					g.hit("short-read")
					return 1 + int(e.Part%uint64(min(n-1, 64))), nil
				}
				continue
			}
			if (op == "stat" || op == "lstat") && e.Err == "EMFILE" {
				continue
			}
			g.hit(op + ":" + e.Err)
			g.ops = append(g.ops, "FAIL "+op+" "+g.c.rel(p)+" "+e.Err)
			switch op {
			case "write":
				g.touch(p)
				part := 0
				if n > 0 {
					part = int(e.Part % uint64(n))
				}
				return part, errnos[e.Err]
			case "close":
				// what the kernel had not written back is lost
				if fi, err := statNoHook(p); mut && err == nil && fi > 0 {
					syscall.Truncate(p, int64(e.Part%uint64(fi)))
				}
				delete(g.wfd, p)
				return 0, errnos[e.Err]
			}
			return 0, errnos[e.Err]
		}
	}
	switch op {
	case "open":
		if mut {
			g.wfd[p] = true
			g.touch(p)
		}
	case "close":
		delete(g.wfd, p)
	case "remove":
		if b, err := readNoHook(p); err == nil {
			g.gone[p] = string(b)
		}
	}
	return n, nil
}

func statNoHook(p string) (int64, error) {
	var st syscall.Stat_t
	err := syscall.Stat(p, &st)
	return st.Size, err
}

func readNoHook(p string) ([]byte, error) {
	h := os.SimFS
	os.SimFS = nil
	defer func() { os.SimFS = h }()
	return os.ReadFile(p)
}

func (g *genRun) simAfter(f func()) {
	os.SimAfter = func() {
		os.SimAfter = nil
		f()
	}
}

func (g *genRun) touch(p string) { g.wrote[p] = true }
func (g *genRun) hit(k string)   { g.hits[k]++ }

// command answers the go command queries of the import fixer.
func (g *genRun) command(cmd *exec.Cmd) error {
	g.jobs++
	key := strings.Join(cmd.Args, " ") + "\x00" + cmd.Dir
	a, ok := cmdCache[key]
	if !ok {
		fs, run := os.SimFS, exec.SimRun
		os.SimFS, exec.SimRun = nil, nil
		out, errf := filepath.Join(genRoot, "cmd.out"), filepath.Join(genRoot, "cmd.err")
		of, err := os.Create(out)
		must(err)
		ef, err := os.Create(errf)
		must(err)
		p, err := os.StartProcess(cmd.Path, cmd.Args, &os.ProcAttr{Dir: cmd.Dir, Env: append(append([]string{}, cmd.Env...), "HOME="+realHome), Files: []*os.File{nil, of, ef}})
		if err != nil {
			a.err = err
		} else if st, err := p.Wait(); err != nil {
			a.err = err
		} else if !st.Success() {
			a.err = errors.New(st.String())
		}
		of.Close()
		ef.Close()
		a.out, _ = os.ReadFile(out)
		a.errOut, _ = os.ReadFile(errf)
		cmdCache[key] = a
		os.SimFS, exec.SimRun = fs, run
	}
	if cmd.Stdout != nil {
		cmd.Stdout.Write(a.out)
	}
	if cmd.Stderr != nil {
		cmd.Stderr.Write(a.errOut)
	}
	return a.err
}

type cmdAnswer struct {
	out, errOut []byte
	err         error
}

var cmdCache = map[string]cmdAnswer{}

// run executes the generator's main once.
func (c *genCase) run(step *GenStep, sc SchedCfg, rnd uint64) *genRun {
	g := &genRun{c: c, step: step, wrote: map[string]bool{}, gone: map[string]string{}, wfd: map[string]bool{}, hits: map[string]int{}, sticky: map[string]string{}, code: -2}
	must(os.Chdir(c.cwd))
	must(os.Setenv("PWD", c.cwd))
	must(os.Setenv("HOME", c.root))
	order := newRng(rnd, 77)
	runtime.SimStart(&runtime.SimConfig{SchedSeed: sc.Seed, RandSeed: rnd, Policy: sc.Policy, YieldP: sc.YieldP, Horizon: 4000})
	os.SimDirOrder = func(n int, swap func(i, j int)) {
		for i := n - 1; i > 0; i-- {
			swap(i, order.n(i+1))
		}
	}
	exec.SimRun = g.command
	os.SimExit = func(code int) { g.die(code) }
	stdout, stderr := os.Stdout, os.Stderr
	func() {
		defer func() {
			if e := recover(); e != nil {
				g.panicV = e
			}
		}()
		synctest.Run(func() {
			done := make(chan struct{})
			go func() {
				defer close(done)
				g.main = runtime.SimGoid()
				os.SimFS = g.fs
				defer func() {
					os.SimFS = nil
					if e := recover(); e != nil {
						// an unrecovered panic ends the process with status 2
						if !g.frozen {
							g.code = 2
						}
						g.ops = append(g.ops, "PANIC "+clip(fmt.Sprint(e)))
					}
				}()
				cmdmain.Run(c.args)
				g.die(0)
			}()
			<-done
		})
	}()
	g.stats = runtime.SimStop()
	os.Stdout, os.Stderr = stdout, stderr
	os.SimFS, os.SimAfter, os.SimDirOrder, os.SimExit, exec.SimRun = nil, nil, nil, nil, nil
	if step != nil && step.Crash != nil && step.Crash.Power != 0 && g.code == -1 {
		g.powerLoss(step.Crash.Power)
	}
	return g
}

// powerLoss drops data the process never synced.
func (g *genRun) powerLoss(seed uint64) {
	r := newRng(seed)
	for _, p := range sortedKeys(g.wrote) {
		b, err := os.ReadFile(p)
		if err != nil || r.p(40) {
			continue
		}
		if r.p(50) {
			os.WriteFile(p, nil, 0o644)
		} else if len(b) > 0 {
			os.WriteFile(p, b[:r.n(len(b))], 0o644)
		}
		g.hit("lost-write")
	}
	for _, p := range sortedKeys(g.gone) {
		if _, err := os.Stat(p); err == nil || r.p(60) {
			continue
		}
		os.WriteFile(p, []byte(g.gone[p]), 0o644)
		g.hit("undone-remove")
	}
}

func sortedKeys[T any](m map[string]T) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// ---- histories and judgement --------------------------------------------------

type genWorld struct {
	pl   *Plan
	c    *genCase
	viol []violation
	hash uint64
	res  *runResult
}

func (w *genWorld) violate(prop, class, format string, a ...any) {
	w.viol = append(w.viol, violation{Prop: prop, Class: prop + ":" + class, What: w.c.name + ": " + fmt.Sprintf(format, a...)})
}

func (w *genWorld) absorb(g *genRun) {
	for _, o := range g.ops {
		w.hash = (w.hash ^ hashStr(o)) * 0x100000001b3
		w.res.Events = append(w.res.Events, event{0, "fs", o})
	}
	w.res.Events = append(w.res.Events, event{0, "exit", fmt.Sprint(g.code)})
	w.hash = (w.hash ^ uint64(g.code+5)) * 0x100000001b3
	w.res.SchedHash = (w.res.SchedHash ^ g.stats.Hash) * 0x100000001b3
	w.res.Stats.Decisions += g.stats.Decisions
	w.res.Stats.Multi += g.stats.Multi
	w.res.Stats.Steps += g.stats.Steps
	w.res.Stats.Yields += g.stats.Yields
	for k, n := range g.hits {
		w.res.Hits[k] += n
	}
	w.res.Ops++
	if g.code == 0 {
		w.res.OK++
	}
	w.res.Execs += len(g.ops)
	if g.panicV != nil {
		w.violate("sim", "panic", "the simulated process did not end: %v", g.panicV)
		w.res.Poisoned = true
	}
}

func diffOut(c *genCase, want, got map[string]string) string {
	for _, p := range sortedKeys(want) {
		g, ok := got[p]
		if !ok {
			return c.rel(p) + " is missing"
		}
		if g != want[p] {
			return c.rel(p) + ": " + firstDiff(want[p], g)
		}
	}
	return ""
}

func extraOut(c *genCase, want, got map[string]string) string {
	for _, p := range sortedKeys(got) {
		if _, ok := want[p]; !ok {
			return c.rel(p) + " was left behind"
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q, should be %q", i+1, clip(y), clip(x))
		}
	}
	return "equal"
}

// older is what an earlier run over other sources and another configuration
// may have left: outputs of any length, also some no longer asked for.
func (c *genCase) older(r *rng) map[string]string {
	pre := map[string]string{}
	for _, f := range sortedKeys(c.refOut) {
		b := []byte(c.refOut[f])
		if r.p(15) || len(b) == 0 {
			continue
		}
		n := r.pick("flip", "flip", "grow", "shrink", "own")
		if n == "flip" || n == "grow" && r.p(50) { // as long as the current one
			for i := r.between(1, 4); i > 0; i-- {
				at := r.n(len(b))
				if b[at] >= 'a' && b[at] <= 'z' {
					b[at] = 'a' + (b[at]-'a'+byte(r.between(1, 25)))%26
				} else if b[at] == ' ' {
					b[at] = '\t'
				}
			}
		}
		if n == "grow" {
			lines := bytes.SplitAfter(b, []byte("\n"))
			at := r.n(len(lines) + 1)
			more := lines[r.n(len(lines))]
			b = bytes.Join([][]byte{bytes.Join(lines[:at], nil), more, bytes.Join(lines[at:], nil)}, nil)
			if r.p(40) {
				b = append(b, "// what came after\n"...)
			}
		}
		if n == "shrink" {
			lines := bytes.SplitAfter(b, []byte("\n"))
			at := r.n(len(lines))
			b = bytes.Join(append(append([][]byte{}, lines[:at]...), lines[at+1:]...), nil)
		}
		pre[f] = string(b)
	}
	for _, f := range sortedKeys(c.allowed) {
		if _, ok := c.refOut[f]; !ok && strings.HasSuffix(f, ".go") && r.p(40) {
			for _, o := range sortedKeys(c.refOut) {
				if filepath.Dir(o) == filepath.Dir(f) {
					pre[f] = c.refOut[o]
					break
				}
			}
		}
	}
	return pre
}

func runGen(p *Plan) (res runResult) {
	res.Hits, res.Known, res.Counts = map[string]int{}, map[string]int{}, map[string]int{}
	w := &genWorld{pl: p, hash: 14695981039346656037, res: &res}
	gp := p.Gen
	w.c = loadCase(gp)
	c := w.c
	defer func() {
		res.Viol = w.viol
		res.Hash = w.hash
		res.Stats.Lost = 1 // several schedules: replayed from their seeds
	}()
	plain := SchedCfg{}
	if !c.prepared {
		c.restore(nil)
		g := c.run(nil, plain, 1)
		c.refOut, _ = c.state()
		c.refCode, c.nW, c.nR = g.code, g.nW, g.nR
		c.refLog = strings.Join(g.ops, "\n")
		if g.code != 0 { // whatever the order, it has to fail
			for i := uint64(2); i < 5; i++ {
				c.restore(nil)
				if g := c.run(nil, plain, i); g.code == 0 {
					c.flaky = true
				}
			}
		}
		c.prepared = true
		if genDebug {
			fmt.Fprintln(os.Stderr, c.name, "ref", g.code, g.nW, g.nR, g.jobs, len(c.refOut), g.bad)
			fmt.Fprintln(os.Stderr, c.refLog)
		}
	}
	if c.flaky {
		w.violate("C16", "status", "whether the generator accepts this input depends on the iteration order")
	}
	if c.refCode != 0 {
		if gp.Case != "random" {
			w.violate(p.Prop, "reference", "an undisturbed run ends with status %d", c.refCode)
		}
		res.Counts["unsupported"]++
		return
	}
	// a configured output the undisturbed run does not write
	for _, m := range c.must {
		if _, ok := c.refOut[m]; !ok {
			w.violate("C17", "missing", "an undisturbed run succeeds without writing %s", c.rel(m))
		}
	}
	// outputs found at the start
	pre := map[string]string{}
	r := newRng(gp.Rand, 5)
	if gp.Pre == "older" {
		pre = c.older(r)
	}
	for _, f := range sortedKeys(c.refOut) {
		s := c.refOut[f]
		switch gp.Pre {
		case "own":
			pre[f] = s
		case "torn":
			if r.p(70) {
				pre[f] = s[:r.n(len(s)+1)]
			}
		case "junk":
			if r.p(70) && !strings.HasSuffix(f, ".go") {
				pre[f] = "// an older version\n" + s[:r.n(len(s)+1)]
			} else {
				pre[f] = s
			}
		}
	}
	if p.Prop == "C17" && gp.Pre == "torn" {
		gp.Pre = "junk"
	}
	c.restore(pre)
	check := func(g *genRun, disturbed bool, what string) (clean bool) {
		out, foreign := c.state()
		for _, b := range append(g.bad, foreign...) {
			w.violate("C18", "foreign", "%s: the generator touched a file that is no output of its configuration: %s", what, b)
		}
		w.hash = (w.hash ^ hashStr(diffOut(c, c.refOut, out))) * 0x100000001b3
		d := diffOut(c, c.refOut, out)
		if g.code == 0 && d != "" {
			prop := map[string]string{"order": "C16", "fault": "C17", "crash": "C18"}[gp.Mode]
			if disturbed {
				prop = "C17"
			}
			w.violate(prop, "output", "%s: exit status 0, but %s", what, d)
		}
		return d == ""
	}
	for i := range gp.Steps {
		s := &gp.Steps[i]
		if s.Break != nil {
			w.runBroken(i, s)
			continue
		}
		g := c.run(s, p.Sched, s.Rand)
		w.absorb(g)
		what := fmt.Sprintf("run %d", i+1)
		disturbed := len(s.Faults) > 0 || s.Crash != nil
		check(g, disturbed, what)
		if !disturbed && g.code != 0 {
			w.violate("C16", "status", "%s: exit status %d for an input that worked before", what, g.code)
		}
		if len(g.ops) > 0 {
			res.Nontrivial = true
		}
	}
	g := c.run(nil, p.Sched, gp.Rand)
	w.absorb(g)
	prop := map[string]string{"order": "C16", "fault": "C17", "crash": "C18"}[gp.Mode]
	if g.code != 0 {
		w.violate(prop, "recovery", "an undisturbed run after the disturbed ones ends with status %d", g.code)
	}
	check(g, false, "the last run")
	out, _ := c.state()
	if x := extraOut(c, c.refOut, out); x != "" && g.code == 0 {
		w.violate(prop, "extra", "after the last run %s", x)
	}
	return
}

// runBroken runs the generator over an input which does not define what is
// asked for. Whatever it leaves, it must not call that a success.
func (w *genWorld) runBroken(i int, s *GenStep) {
	c := w.c
	change := c.broken(s.Break)
	if change == nil {
		return
	}
	orig := c.sources
	c.sources = map[string]string{}
	for p, v := range orig {
		c.sources[p] = v
	}
	for p, v := range change {
		if v == nil {
			delete(c.sources, p)
			must(os.Remove(p))
		} else {
			c.sources[p] = *v
			must(os.WriteFile(p, []byte(*v), 0o644))
		}
	}
	g := c.run(&GenStep{Rand: s.Rand}, w.pl.Sched, s.Rand)
	w.absorb(g)
	_, foreign := c.state()
	c.sources = orig
	for p := range change {
		must(os.WriteFile(p, []byte(orig[p]), 0o644))
	}
	w.res.Hits["input:"+s.Break.Kind]++
	w.res.Nontrivial = true
	what := fmt.Sprintf("run %d (input changed: %s)", i+1, s.Break.Kind)
	for _, b := range append(g.bad, foreign...) {
		w.violate("C18", "foreign", "%s: the generator touched a file that is no output of its configuration: %s", what, b)
	}
	if g.code == 0 {
		w.violate("C17", "broken-input", "%s: exit status 0, although the input does not define what is configured", what)
	}
}
