package main

// SMT back end: prints the cone of influence of a query as SMT-LIB2, talks to a
// long-lived solver process, caches results up to alpha-renaming.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Stats are process-wide counters.
type Stats struct {
	Queries, CacheHits, SatN, UnsatN, UnknownN int64
	QuickUnknown                               int64
	SolverNs                                   int64
	Cross, CrossBad                            int64
}

var stats Stats

type smtProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	bin string
	to  int
}

func startSolver(bin string, args ...string) (*smtProc, error) {
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &smtProc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), bin: bin}, nil
}

func (p *smtProc) close() {
	if p == nil {
		return
	}
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// Solver is used by one worker.
type Solver struct {
	p        *smtProc
	bin      string
	args     []string
	timeout  int // ms
	deadline time.Time
	quick    bool
	cross    bool
	p2       *smtProc
	n        int
}

var (
	qcacheMu sync.Mutex
	qcache   = map[[32]byte]qres{}
)

type qres struct {
	r Result
	m []bool // values of local vars
}

func NewSolver(timeoutMS int) *Solver {
	return &Solver{bin: "z3-new", args: []string{"-in"}, timeout: timeoutMS}
}

func (s *Solver) Close() {
	s.p.close()
	s.p2.close()
	s.p, s.p2 = nil, nil
}

// printer emits a query with local numbering.
type printer struct {
	c     *Ctx
	sb    strings.Builder
	nb    map[uint32]string
	nv    map[uint32]string
	vars  []uint32
	n     int
	ttMem map[string]string
}

func (p *printer) fresh() string { p.n++; return fmt.Sprintf("n%d", p.n) }

func (p *printer) B(b B) string {
	s := p.node(b.node())
	if b.neg() {
		if s == "true" {
			return "false"
		}
		return "(not " + s + ")"
	}
	return s
}

func (p *printer) node(id uint32) string {
	if id == 0 {
		return "true"
	}
	if s, ok := p.nb[id]; ok {
		return s
	}
	nd := &p.c.nodes[id]
	var name string
	switch nd.kind {
	case bVar:
		name = fmt.Sprintf("v%d", len(p.vars))
		p.vars = append(p.vars, id)
		fmt.Fprintf(&p.sb, "(declare-const %s Bool)\n", name)
	case bAnd:
		x, y := p.B(nd.a), p.B(nd.b)
		name = p.fresh()
		fmt.Fprintf(&p.sb, "(define-fun %s () Bool (and %s %s))\n", name, x, y)
	case bMux:
		x, y, z := p.B(nd.c), p.B(nd.a), p.B(nd.b)
		name = p.fresh()
		fmt.Fprintf(&p.sb, "(define-fun %s () Bool (ite %s %s %s))\n", name, x, y, z)
	case bXor:
		parts := make([]string, len(nd.list))
		for i, x := range nd.list {
			parts[i] = p.node(x)
		}
		name = p.fresh()
		fmt.Fprintf(&p.sb, "(define-fun %s () Bool (xor %s))\n", name, strings.Join(parts, " "))
	case bTab:
		atoms := make([]string, len(nd.list))
		for i, x := range nd.list {
			atoms[i] = p.node(x)
		}
		name = p.tab(atoms, nd.tt, len(atoms))
	case bEq:
		x, y := p.V(nd.x), p.V(nd.y)
		name = p.fresh()
		fmt.Fprintf(&p.sb, "(define-fun %s () Bool (= %s %s))\n", name, x, y)
	case bUlt:
		x, y := p.V(nd.x), p.V(nd.y)
		name = p.fresh()
		fmt.Fprintf(&p.sb, "(define-fun %s () Bool (bvult %s %s))\n", name, x, y)
	case bBit:
		x := p.V(nd.x)
		name = p.fresh()
		fmt.Fprintf(&p.sb, "(define-fun %s () Bool (= ((_ extract %d %d) %s) #b1))\n", name, nd.i, nd.i, x)
	}
	p.nb[id] = name
	return name
}

func (p *printer) tab(atoms []string, tt []uint64, k int) string {
	m := ttMask(k)
	all, none := true, true
	for i := range tt {
		if tt[i]&m != m {
			all = false
		}
		if tt[i]&m != 0 {
			none = false
		}
	}
	if all {
		return "true"
	}
	if none {
		return "false"
	}
	key := fmt.Sprint(atoms[:k], tt)
	if s, ok := p.ttMem[key]; ok {
		return s
	}
	// split on the highest atom
	var lo, hi []uint64
	if k > 6 {
		h := len(tt) / 2
		lo, hi = tt[:h], tt[h:]
	} else {
		sh := uint(1) << uint(k-1)
		lo = []uint64{tt[0] & ttMask(k-1)}
		hi = []uint64{tt[0] >> sh & ttMask(k-1)}
	}
	if eqU64(lo, hi) {
		return p.tab(atoms, lo, k-1)
	}
	l := p.tab(atoms, lo, k-1)
	h := p.tab(atoms, hi, k-1)
	name := p.fresh()
	fmt.Fprintf(&p.sb, "(define-fun %s () Bool (ite %s %s %s))\n", name, atoms[k-1], h, l)
	p.ttMem[key] = name
	return name
}

func (p *printer) V(v *BV) string {
	if v.op == vConst {
		return fmt.Sprintf("(_ bv%d %d)", v.k, v.w)
	}
	if s, ok := p.nv[v.id]; ok {
		return s
	}
	var body string
	switch v.op {
	case vBits:
		// MSB first, grouping constants and contiguous extracts
		var parts []string
		for i := v.w - 1; i >= 0; {
			b := v.bits[i]
			if b.node() == 0 {
				j := i
				s := ""
				for j >= 0 && v.bits[j].node() == 0 {
					if v.bits[j] == T {
						s += "1"
					} else {
						s += "0"
					}
					j--
				}
				parts = append(parts, "#b"+s)
				i = j
				continue
			}
			nd := &p.c.nodes[b.node()]
			if nd.kind == bBit && !b.neg() {
				j := i
				for j-1 >= 0 && !v.bits[j-1].neg() {
					n2 := &p.c.nodes[v.bits[j-1].node()]
					if n2.kind != bBit || n2.x != nd.x || n2.i != nd.i-(i-(j-1)) {
						break
					}
					j--
				}
				parts = append(parts, fmt.Sprintf("((_ extract %d %d) %s)", nd.i, nd.i-(i-j), p.V(nd.x)))
				i = j - 1
				continue
			}
			parts = append(parts, "(ite "+p.B(b)+" #b1 #b0)")
			i--
		}
		if len(parts) == 1 {
			body = parts[0]
		} else {
			body = "(concat " + strings.Join(parts, " ") + ")"
		}
	case vIte:
		body = fmt.Sprintf("(ite %s %s %s)", p.B(v.c), p.V(v.a), p.V(v.b))
	default:
		body = fmt.Sprintf("(%s %s %s)", vopName[v.op], p.V(v.a), p.V(v.b))
	}
	name := p.fresh()
	fmt.Fprintf(&p.sb, "(define-fun %s () (_ BitVec %d) %s)\n", name, v.w, body)
	p.nv[v.id] = name
	return name
}

// Check decides satisfiability of the conjunction of fs under the global
// assumptions connected to them. Returns a model over bVar nodes when sat.
func (s *Solver) Check(c *Ctx, fs []B) (Result, Model) {
	for _, f := range fs {
		if f == F {
			return Unsat, nil
		}
	}
	p := &printer{c: c, nb: map[uint32]string{}, nv: map[uint32]string{}, ttMem: map[string]string{}}
	var asserts []string
	for _, f := range fs {
		if f == T {
			continue
		}
		asserts = append(asserts, p.B(f))
	}
	// connected assumptions
	used := make([]bool, len(c.assume))
	for ch := true; ch; {
		ch = false
		for i, a := range c.assume {
			if used[i] {
				continue
			}
			hit := false
			for v := range c.assumeLeaves(i) {
				if _, ok := p.nb[v]; ok {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				asserts = append(asserts, p.B(a.b))
				ch = true
			}
		}
	}
	var q strings.Builder
	q.WriteString(p.sb.String())
	for _, a := range asserts {
		q.WriteString("(assert " + a + ")\n")
	}
	text := q.String()
	key := sha256.Sum256([]byte(text))
	qcacheMu.Lock()
	r, ok := qcache[key]
	qcacheMu.Unlock()
	if ok && (r.r != Unknown || s.quick) {
		atomic.AddInt64(&stats.CacheHits, 1)
	} else {
		t0 := time.Now()
		r = s.run(text, len(p.vars))
		if d := os.Getenv("GOSYM_DUMP"); d != "" && time.Since(t0) > 2*time.Second {
			s.n++
			os.WriteFile(fmt.Sprintf("%s/q%d-%v.smt2", d, s.n, r.r), []byte(text), 0644)
			fmt.Fprintln(os.Stderr, "slow query", len(text), time.Since(t0), r.r)
		}
		qcacheMu.Lock()
		qcache[key] = r
		qcacheMu.Unlock()
	}
	if r.r != Sat {
		return r.r, nil
	}
	m := Model{}
	for i, v := range p.vars {
		if r.m[i] {
			m[v] = true
		}
	}
	return Sat, m
}

var dumpN int64

func (s *Solver) run(text string, nvars int) qres {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.SolverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.Queries, 1)
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%06d.smt2", d, n), []byte(text+"(check-sat)\n"), 0644)
	}
	to := s.timeout
	if s.quick {
		to = 400
	}
	if !s.deadline.IsZero() {
		left := int(time.Until(s.deadline).Milliseconds())
		if left <= 0 {
			atomic.AddInt64(&stats.UnknownN, 1)
			return qres{r: Unknown}
		}
		to = min(to, left+500)
	}
	r := s.runOn(&s.p, s.bin, s.args, text, nvars, to)
	if s.quick {
		if r.r == Unknown {
			atomic.AddInt64(&stats.QuickUnknown, 1)
		}
	} else if r.r == Unknown {
		// second opinion from the other solver
		r = s.runOn(&s.p2, "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}, text, nvars, s.timeout)
	} else if s.cross {
		r2 := s.runOn(&s.p2, "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}, text, nvars, s.timeout)
		atomic.AddInt64(&stats.Cross, 1)
		if r2.r != Unknown && r2.r != r.r {
			atomic.AddInt64(&stats.CrossBad, 1)
			r = qres{r: Unknown}
		}
	}
	if s.quick && r.r == Unknown {
		return r
	}
	switch r.r {
	case Sat:
		atomic.AddInt64(&stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&stats.UnsatN, 1)
	default:
		atomic.AddInt64(&stats.UnknownN, 1)
	}
	return r
}

func (s *Solver) runOn(pp **smtProc, bin string, args []string, text string, nvars, timeout int) qres {
	if *pp == nil {
		p, err := startSolver(bin, args...)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gosym: cannot start", bin, err)
			return qres{r: Unknown}
		}
		*pp = p
		pre := "(set-option :print-success false)\n"
		if strings.HasPrefix(bin, "z3") {
		} else {
			pre += "(set-logic QF_BV)\n"
		}
		io.WriteString(p.in, pre)
	}
	p := *pp
	fail := func() qres {
		p.close()
		*pp = nil
		return qres{r: Unknown}
	}
	// watchdog
	timer := time.AfterFunc(time.Duration(timeout+3000)*time.Millisecond, func() { p.cmd.Process.Kill() })
	defer timer.Stop()
	if strings.HasPrefix(bin, "z3") && p.to != timeout {
		p.to = timeout
		fmt.Fprintf(p.in, "(set-option :timeout %d)\n", timeout)
	}
	if _, err := io.WriteString(p.in, "(push 1)\n"+text+"(check-sat)\n"); err != nil {
		return fail()
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		return fail()
	}
	line = strings.TrimSpace(line)
	var r qres
	switch line {
	case "sat":
		r.r = Sat
	case "unsat":
		r.r = Unsat
	case "unknown":
		r.r = Unknown
	default:
		fmt.Fprintln(os.Stderr, "gosym: solver said:", line)
		return fail()
	}
	if r.r == Sat && nvars > 0 {
		r.m = make([]bool, nvars)
		for i := 0; i < nvars; i += 200 {
			j := min(nvars, i+200)
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for k := i; k < j; k++ {
				fmt.Fprintf(&sb, " v%d", k)
			}
			sb.WriteString("))\n")
			io.WriteString(p.in, sb.String())
			depth, txt := 0, []byte{}
			for {
				b, err := p.out.ReadByte()
				if err != nil {
					return fail()
				}
				txt = append(txt, b)
				if b == '(' {
					depth++
				} else if b == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			p.out.ReadString('\n')
			f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(string(txt)))
			if len(f) != 2*(j-i) {
				return fail()
			}
			for k := 0; k+1 < len(f); k += 2 {
				var idx int
				if _, err := fmt.Sscanf(f[k], "v%d", &idx); err != nil || idx >= nvars {
					return fail()
				}
				r.m[idx] = f[k+1] == "true"
			}
		}
	}
	if _, err := io.WriteString(p.in, "(pop 1)\n"); err != nil {
		return fail()
	}
	return r
}
