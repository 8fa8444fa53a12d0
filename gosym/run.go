package main

// Jobs: one harness with concrete parameters, executed symbolically; assertion
// handling, counterexample extraction and native replay.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/build/constraint"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	Prop    string
	Name    string
	Pkg     string // harness directory: root, standard, ...
	Harness string
	P       map[string]int
	S       map[string]string
	Order   bool // symbolic arrival order of channel messages
	Race    bool
	Stubs   []string
	Budget  int64 // instructions
	Secs    int
	MaxViol int
	Cost    int // scheduling hint
	Lim     int // if > 0, only functions of up to this many bits are normalised: the solver decides the rest
	Weight  int // memory weight
}

func (j *Job) String() string {
	s := j.Harness
	for _, k := range sortedKeys(j.P) {
		s += fmt.Sprintf(" %s=%d", k, j.P[k])
	}
	for _, k := range sortedKeys(j.S) {
		s += fmt.Sprintf(" %s=%s", k, j.S[k])
	}
	return s
}

type Violation struct {
	Label  string
	Pos    string
	Inputs map[string]uint64
	Order  map[string]uint64
	Kind   string // assert, panic, race, exit
	Replay *caseResult
	Status string // confirmed, unconfirmed
	Job    *Job
}

type JobResult struct {
	Job     *Job
	Asserts map[string]int
	Folded  int
	Solved  int
	Viols   []*Violation
	Reach   map[string]map[string]uint64 // label -> witness inputs
	Incon   []string
	InconIn []map[string]uint64
	Covered map[string]int64
	Instr   int64
	Nodes   int
	Inputs  int
	Bits    int
	Wall    time.Duration
	Paths   int
	nviol   map[string]int
	Obs     []string
	Cert    int
	CertBad int
	Steps   int64
}

func (e *Eng) modelInputs(m Model) (in, ord map[string]uint64) {
	in, ord = map[string]uint64{}, map[string]uint64{}
	lv := e.mentioned
	for _, i := range e.c.inputs {
		var raw uint64
		any := false
		for k, b := range i.Bits {
			if m[b] {
				raw |= 1 << uint(k)
			}
			if lv == nil || lv[b] {
				any = true
			}
		}
		if !any && len(i.Bits) > 0 {
			continue
		}
		v := (i.Lo + raw) & mask(i.W)
		if i.Sched {
			ord[i.Name] = v
		} else {
			in[i.Name] = v
		}
	}
	return
}

// fullModel solves the whole path condition together with c.
func (e *Eng) fullModel(st *State, c B) (Result, map[string]uint64, map[string]uint64) {
	fs := []B{c}
	for p := st.pc; p != nil; p = p.parent {
		fs = append(fs, p.c)
	}
	e.mentioned = e.c.leaves(fs)
	if c == T {
		if m := e.c.simModel(st.pc); m != nil {
			e.mentioned = nil
			in, ord := e.modelInputs(m)
			return Sat, in, ord
		}
	}
	r, m := e.sol.Check(e.c, fs)
	if r != Sat {
		return r, nil, nil
	}
	in, ord := e.modelInputs(m)
	return r, in, ord
}

func (e *Eng) assert(st *State, c B, label, pos string) {
	e.res.Asserts[label]++
	if c == T {
		e.res.Folded++
		return
	}
	r, _ := e.sat(st, c.not())
	e.res.Solved++
	switch r {
	case Unsat:
		return
	case Unknown:
		e.incon(st, "solver gave up on assertion "+label)
		return
	}
	e.violateK(st, c.not(), label, pos, "assert")
}

func (e *Eng) violate(st *State, c B, label, pos string) { e.violateK(st, c, label, pos, "race") }

func (e *Eng) violateK(st *State, c B, label, pos, kind string) {
	if e.res.nviol[label] >= e.job.MaxViol {
		return
	}
	r, in, ord := e.fullModel(st, c)
	switch r {
	case Unsat:
		return
	case Unknown:
		e.incon(st, "solver gave up on counterexample for "+label)
		return
	}
	e.res.nviol[label]++
	e.res.Viols = append(e.res.Viols, &Violation{Label: label, Pos: pos, Inputs: in, Order: ord, Kind: kind, Job: e.job})
}

func (e *Eng) incon(st *State, msg string) {
	for _, m := range e.res.Incon {
		if m == msg {
			return
		}
	}
	if len(e.res.Incon) < 20 {
		e.res.Incon = append(e.res.Incon, msg)
		if st != nil {
			if r, in, _ := e.fullModel(st, T); r == Sat {
				e.res.InconIn = append(e.res.InconIn, in)
			}
		}
	}
}

func (e *Eng) reach(st *State, label string) {
	if _, ok := e.res.Reach[label]; ok {
		return
	}
	if e.conc != nil {
		e.res.Reach[label] = nil
		return
	}
	r, in, _ := e.fullModel(st, T)
	if r == Sat {
		e.res.Reach[label] = in
	}
}

// certify has the solver confirm the sampled rewriting steps.
func (e *Eng) certify() {
	certs := e.c.certs
	e.c.certMax = 0
	e.res.Steps = e.c.nSteps
	for _, k := range certs {
		var qs [][]B
		if k.mux {
			qs = [][]B{{k.r, k.s, k.a.not()}, {k.r, k.s.not(), k.b.not()}, {k.r.not(), k.s, k.a}, {k.r.not(), k.s.not(), k.b}}
		} else {
			qs = [][]B{{k.r, k.a.not()}, {k.r, k.b.not()}, {k.r.not(), k.a, k.b}}
		}
		ok := true
		for _, q := range qs {
			e.sol.quick = true
			r, _ := e.sol.Check(e.c, q)
			e.sol.quick = false
			if r == Sat {
				e.incon(nil, "the solver refutes a rewriting step of the executor")
				e.res.CertBad++
			}
			if r != Unsat {
				ok = false
			}
		}
		if ok {
			e.res.Cert++
		}
	}
}

// Runner owns the loaded programs and native test binaries.
type Runner struct {
	repo, verif, work string
	mu                sync.Mutex
	progs             map[string]*progEnt
	bins              map[string]*binEnt
	crossN            int
}
type progEnt struct {
	once sync.Once
	p    *Prog
	err  error
}
type binEnt struct {
	once sync.Once
	path string
	err  error
	log  string
}

// harness directory name -> directory in the repository, package pattern
var pkgDirs = map[string]struct {
	dir, pkg string
	env      []string
}{
	"root":       {".", "qrcode", nil},
	"file":       {"writer/file", "file", nil},
	"compressed": {"writer/compressed", "compressed", nil},
	"standard":   {"writer/standard", "standard", nil},
	"imgkit":     {"writer/standard/imgkit", "imgkit", nil},
	"shapes":     {"writer/standard/shapes", "shapes", nil},
	"terminal":   {"writer/terminal", "terminal", nil},
	"cli":        {"cmd/qrcode", "main", nil},
	"wasm":       {"cmd/wasm", "main", nil},
}

// pkgEnv is the environment of the go command for a package. The terminal writer and
// the command are built with a stand-in for termbox, through a go.work of their own.
func (r *Runner) pkgEnv(pkg string) ([]string, error) {
	if pkg != "terminal" && pkg != "cli" {
		return pkgDirs[pkg].env, nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	wd := filepath.Join(r.work, "gowork")
	wf := filepath.Join(wd, "go.work")
	if _, err := os.Stat(wf); err == nil {
		return []string{"GOWORK=" + wf}, nil
	}
	b, err := os.ReadFile(filepath.Join(r.repo, "go.work"))
	if err != nil {
		return nil, err
	}
	if err := os.MkdirAll(wd, 0755); err != nil {
		return nil, err
	}
	lines := strings.Split(string(b), "\n")
	in := false
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch {
		case f[0] == "use" && len(f) > 1 && f[1] == "(":
			in = true
		case f[0] == ")":
			in = false
		case f[0] == "use" && len(f) > 1:
			lines[i] = "use " + filepath.Join(r.repo, f[1])
		case in && !strings.HasPrefix(f[0], "//"):
			lines[i] = "\t" + filepath.Join(r.repo, f[0])
		}
	}
	lines = append(lines, "replace github.com/nsf/termbox-go => "+filepath.Join(r.verif, "harness/_termbox"), "")
	if b, err := os.ReadFile(filepath.Join(r.repo, "go.work.sum")); err == nil {
		os.WriteFile(filepath.Join(wd, "go.work.sum"), b, 0644)
	}
	if err := os.WriteFile(wf, []byte(strings.Join(lines, "\n")), 0644); err != nil {
		return nil, err
	}
	return []string{"GOWORK=" + wf}, nil
}

// plain returns files to lay over /repo: for the wasm command, its own files without the
// constraint that holds only for wasm, and a stand-in for syscall/js.
func (r *Runner) plain(pkg string) (map[string][]byte, error) {
	if pkg != "wasm" {
		return nil, nil
	}
	out := map[string][]byte{}
	dir := filepath.Join(r.repo, pkgDirs[pkg].dir)
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		lines := strings.Split(string(b), "\n")
		keep, change := true, false
		for i, l := range lines {
			if strings.HasPrefix(l, "package ") {
				break
			}
			if x, err := constraint.Parse(strings.TrimSpace(l)); err == nil {
				change = true
				lines[i] = "//"
				keep = keep && x.Eval(func(tag string) bool {
					return tag == "js" || tag == "wasm" || tag == "gc" || strings.HasPrefix(tag, "go1.")
				})
			}
		}
		name := filepath.Base(f)
		n := strings.TrimSuffix(name, ".go")
		for _, sfx := range []string{"_wasm", "_js"} {
			n = strings.TrimSuffix(n, sfx)
		}
		if n+".go" != name {
			change = true
			out[f] = []byte("//go:build ignore\n\npackage main\n")
			f = filepath.Join(dir, "zz_"+n+".go")
		}
		switch {
		case !keep:
			out[f] = []byte("//go:build ignore\n\npackage main\n")
		case change:
			out[f] = []byte(strings.Join(lines, "\n"))
		}
	}
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir, cmd.Env = dir, goEnv()
	root, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	js, err := os.ReadFile(filepath.Join(r.verif, "harness/_js/js.go"))
	if err != nil {
		return nil, err
	}
	out[filepath.Join(strings.TrimSpace(string(root)), "src/syscall/js/zz_vx.go")] = js
	return out, nil
}

var harnessRe = regexp.MustCompile(`(?m)^func (vxh\w+)\(\)`)

func (r *Runner) harnessFiles(pkg string) (map[string][]byte, []string, error) {
	dir := filepath.Join(r.verif, "harness", pkg)
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, nil, err
	}
	out := map[string][]byte{}
	var hs []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		out["zz_vx_"+filepath.Base(f)] = b
		for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			hs = append(hs, m[1])
		}
	}
	sort.Strings(hs)
	return out, hs, nil
}

func (r *Runner) prog(pkg string) (*Prog, error) {
	r.mu.Lock()
	pe := r.progs[pkg]
	if pe == nil {
		pe = &progEnt{}
		r.progs[pkg] = pe
	}
	r.mu.Unlock()
	pe.once.Do(func() {
		d := pkgDirs[pkg]
		files, _, err := r.harnessFiles(pkg)
		if err != nil {
			pe.err = err
			return
		}
		rt, err := os.ReadFile(filepath.Join(r.verif, "harness/_rt/sym.go.tmpl"))
		if err != nil {
			pe.err = err
			return
		}
		ov, err := r.plain(pkg)
		if err != nil {
			pe.err = err
			return
		}
		if ov == nil {
			ov = map[string][]byte{}
		}
		base := filepath.Join(r.repo, d.dir)
		for n, b := range files {
			ov[filepath.Join(base, n)] = b
		}
		ov[filepath.Join(base, "zz_vx_rt.go")] = bytes.Replace(rt, []byte("PKG"), []byte(d.pkg), 1)
		if d.dir != "." {
			ex, err := os.ReadFile(filepath.Join(r.verif, "harness/_rt/export.go.tmpl"))
			if err != nil {
				pe.err = err
				return
			}
			ov[filepath.Join(r.repo, "zz_vx_export.go")] = ex
			cm, err := os.ReadFile(filepath.Join(r.verif, "harness/_rt/common.go.tmpl"))
			if err != nil {
				pe.err = err
				return
			}
			ov[filepath.Join(base, "zz_vx_common.go")] = bytes.Replace(cm, []byte("PKG"), []byte(d.pkg), 1)
		}
		env, err := r.pkgEnv(pkg)
		if err != nil {
			pe.err = err
			return
		}
		pe.p, pe.err = loadProg(base, ov, goEnv(env...), ".")
	})
	return pe.p, pe.err
}

// bin compiles the native replay binary of a package.
func (r *Runner) bin(pkg string, race bool) (string, error) {
	key := pkg
	if race {
		key += ".race"
	}
	r.mu.Lock()
	be := r.bins[key]
	if be == nil {
		be = &binEnt{}
		r.bins[key] = be
	}
	r.mu.Unlock()
	be.once.Do(func() {
		d := pkgDirs[pkg]
		files, hs, err := r.harnessFiles(pkg)
		if err != nil {
			be.err = err
			return
		}
		rt, err := os.ReadFile(filepath.Join(r.verif, "harness/_rt/native.go.tmpl"))
		if err != nil {
			be.err = err
			return
		}
		wd := filepath.Join(r.work, "bin-"+key)
		os.MkdirAll(wd, 0755)
		base := filepath.Join(r.repo, d.dir)
		repl := map[string]string{}
		put := func(n string, b []byte) {
			n = strings.TrimSuffix(n, ".go") + "_test.go"
			p := filepath.Join(wd, n)
			os.WriteFile(p, b, 0644)
			repl[filepath.Join(base, n)] = p
		}
		for n, b := range files {
			put(n, b)
		}
		pl, err := r.plain(pkg)
		if err != nil {
			be.err = err
			return
		}
		for f, b := range pl {
			p := filepath.Join(wd, fmt.Sprintf("plain%d.go", len(repl)))
			os.WriteFile(p, b, 0644)
			repl[f] = p
		}
		if d.dir != "." {
			repl[filepath.Join(r.repo, "zz_vx_export.go")] = filepath.Join(r.verif, "harness/_rt/export.go.tmpl")
			cm, err := os.ReadFile(filepath.Join(r.verif, "harness/_rt/common.go.tmpl"))
			if err != nil {
				be.err = err
				return
			}
			put("zz_vx_common.go", bytes.Replace(cm, []byte("PKG"), []byte(d.pkg), 1))
		}
		put("zz_vx_rt.go", bytes.Replace(rt, []byte("PKG"), []byte(d.pkg), 1))
		reg := "package " + d.pkg + "\n\nvar vxHarnesses = map[string]func(){\n"
		for _, h := range hs {
			reg += fmt.Sprintf("\t%q: %s,\n", h, h)
		}
		put("zz_vx_reg.go", []byte(reg+"}\n"))
		oj, _ := json.Marshal(map[string]any{"Replace": repl})
		of := filepath.Join(wd, "overlay.json")
		os.WriteFile(of, oj, 0644)
		out := filepath.Join(wd, "vx.test")
		args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", out}
		if race {
			args = append(args, "-race")
		}
		args = append(args, ".")
		cmd := exec.Command("go", args...)
		cmd.Dir = base
		env, err := r.pkgEnv(pkg)
		if err != nil {
			be.err = err
			return
		}
		cmd.Env = goEnv(env...)
		b, err := cmd.CombinedOutput()
		if err != nil {
			be.err = fmt.Errorf("building native replay of %s: %v\n%s", pkg, err, b)
			return
		}
		be.path = out
	})
	return be.path, be.err
}

type natCase struct {
	Harness string
	P       map[string]int
	S       map[string]string
	In      map[string]uint64
	Iters   int
	Free    bool
	Seconds float64
	Procs   int
}
type caseResult struct {
	Verdict string
	Msg     string
	Used    map[string]uint64
	Obs     []string
	N       int
	Log     string `json:",omitempty"`
}

// native runs cases; a crash or hang of the process is reported for the case it happened in.
func (r *Runner) native(pkg string, race bool, cases []natCase, timeout time.Duration) ([]caseResult, error) {
	bin, err := r.bin(pkg, race)
	if err != nil {
		return nil, err
	}
	var res []caseResult
	for len(res) < len(cases) {
		wd, err := os.MkdirTemp(r.work, "run")
		if err != nil {
			return nil, err
		}
		cf, of := filepath.Join(wd, "cases.json"), filepath.Join(wd, "out")
		b, _ := json.Marshal(cases[len(res):])
		os.WriteFile(cf, b, 0644)
		scratch := filepath.Join(wd, "scratch")
		os.MkdirAll(scratch, 0755)
		cmd := exec.Command(bin, "-test.run", "^TestVX$", "-test.timeout", "0")
		cmd.Dir = scratch
		cmd.Env = append(os.Environ(), "VX_CASES="+cf, "VX_OUT="+of, "VX_SCRATCH="+scratch, "GORACE=halt_on_error=1 exitcode=66")
		var lg bytes.Buffer
		cmd.Stdout, cmd.Stderr = &lg, &lg
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var werr error
		hang := false
		select {
		case werr = <-done:
		case <-time.After(timeout):
			hang = true
			cmd.Process.Kill()
			<-done
		}
		ob, _ := os.ReadFile(of)
		got := 0
		for _, ln := range strings.Split(string(ob), "\n") {
			if strings.TrimSpace(ln) == "" {
				continue
			}
			var c caseResult
			if json.Unmarshal([]byte(ln), &c) == nil && len(res) < len(cases) {
				res = append(res, c)
				got++
			}
		}
		os.RemoveAll(wd)
		if len(res) >= len(cases) && werr == nil && !hang {
			break
		}
		if len(res) < len(cases) {
			l := lg.String()
			if len(l) > 3000 {
				l = l[:3000]
			}
			switch {
			case hang:
				res = append(res, caseResult{Verdict: "HANG", Msg: "no result within " + timeout.String()})
			case strings.Contains(l, "DATA RACE"):
				res = append(res, caseResult{Verdict: "RACE", Msg: "data race", Log: l})
			default:
				res = append(res, caseResult{Verdict: "CRASH", Msg: firstLine(l), Log: l})
			}
		}
	}
	return res, nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

// runJob executes one job symbolically.
func (r *Runner) runJob(j *Job, conc map[string]uint64) (res *JobResult) {
	t0 := time.Now()
	res = &JobResult{Job: j, Asserts: map[string]int{}, Reach: map[string]map[string]uint64{}, Covered: map[string]int64{}, nviol: map[string]int{}}
	if j.MaxViol == 0 {
		j.MaxViol = 2
	}
	p, err := r.prog(j.Pkg)
	if err != nil {
		res.Incon = append(res.Incon, "cannot load: "+err.Error())
		return
	}
	f := p.findHarness(j.Harness)
	if f == nil {
		res.Incon = append(res.Incon, "no harness "+j.Harness)
		return
	}
	e := NewEng(p, j)
	e.res = res
	e.conc = conc
	e.race = j.Race
	e.c.certMax = 8
	if j.Lim > 0 {
		e.c.lim = j.Lim
	}
	e.sol = NewSolver(20000)
	e.budget = j.Budget
	secs := j.Secs
	if secs == 0 {
		secs = 240
	}
	e.deadline = t0.Add(time.Duration(secs) * time.Second)
	e.sol.deadline = e.deadline
	defer e.sol.Close()
	defer func() {
		res.Wall = time.Since(t0)
		res.Instr = e.ninstr
		res.Nodes = len(e.c.nodes) + len(e.c.bvs)
		res.Inputs = len(e.c.inputs)
		for _, i := range e.c.inputs {
			res.Bits += len(i.Bits)
		}
		for f, n := range e.covered {
			res.Covered[f.String()] += n
		}
		res.Obs = e.obs
		if x := recover(); x != nil {
			switch y := x.(type) {
			case crash:
				res.Incon = append(res.Incon, y.msg+" in "+e.where())
			case Unsupported:
				res.Incon = append(res.Incon, "unsupported: "+y.msg)
			default:
				if os.Getenv("GOSYM_PANIC") != "" {
					panic(x)
				}
				res.Incon = append(res.Incon, fmt.Sprint("internal error: ", x, " in ", e.where()))
			}
		}
	}()
	for _, s := range j.Stubs {
		if err := e.applyStub(s); err != nil {
			res.Incon = append(res.Incon, err.Error())
			return
		}
	}
	st := &State{heap: &HNode{parent: e.root, depth: 1}}
	e.root.kids = 1
	outs := e.runFrame(f, nil, nil, st, nil)
	for len(outs) > 0 {
		o := outs[0]
		outs = outs[1:]
		res.Paths++
		if o.kind == oExit && (o.msg == parked || o.msg == asleep) {
			o.kind = oRet
		}
		switch o.kind {
		case oRet:
			if o.st.npend() > 0 {
				shim := &FS{st: o.st, fr: &frame{fn: e.body(f)}}
				outs = append(outs, e.runPending(shim, o.st, 0)...)
			}
		case oPanic:
			e.violateK(o.st, T, "panic: "+o.msg, o.pos, "panic")
		case oExit:
			e.violateK(o.st, T, "abort: "+o.msg, o.pos, "exit")
		case oUnsup:
			if r, _, _ := e.fullModel(o.st, T); r != Unsat {
				e.incon(o.st, "unsupported: "+o.msg+" at "+o.pos)
			}
		}
	}
	e.certify()
	return
}

func (p *Prog) findHarness(name string) *ssa.Function {
	for _, sp := range p.ssa.AllPackages() {
		if f := sp.Func(name); f != nil {
			return f
		}
	}
	return nil
}
