package main

// The symbolic executor: runs SSA functions over symbolic states. Every frame
// keeps a work list ordered by the function's weak topological order and merges
// states that meet at the same block in the same loop iteration.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	parent *PC
	c      B
	depth  int
	lb     bitset // union of leaf bits
	sig    *simSig
	sigv   int
}

type Bind struct {
	parent *Bind
	t      *BV
	v      uint64
	depth  int
}

type PanicRec struct {
	val       Value
	msg       string
	recovered bool
}

type State struct {
	heap  *HNode
	pc    *PC
	bind  *Bind
	wit   *witness
	th    *Threads
	cur   int
	pan   *PanicRec
	phase int
	pol   int // schedule policy, see pick
}

type witness struct {
	m  Model
	ev *evaluator
}

type Outcome struct {
	st   *State
	kind uint8
	val  Value
	msg  string
	pos  string
}

const (
	oRet uint8 = iota
	oPanic
	oUnsup
	oExit
)

type FS struct {
	st     *State
	fr     *frame
	regs   []Value
	blk    int
	ip     int
	iter   []int32
	defers []*deferRec
	unw    bool
	pan    *PanicRec
	panPos string
}

type deferRec struct {
	t    target
	args []Value
	pos  string
}

type target struct {
	f       *ssa.Function
	bind    []Value
	host    func(e *Eng, fs *FS, args []Value) []Outcome
	builtin string
	nilfn   bool
	cc      *ssa.CallCommon
}

type frame struct {
	fn    *cfn
	work  []*FS
	outs  []Outcome
	depth int
	up    *frame
	call  ssa.Instruction
}

type forkReq struct {
	t   *BV
	v   uint64
	b   B
	isB bool
}

// crash is an engine-level abort of the whole run (budget).
type crash struct{ msg string }

type Eng struct {
	p          *Prog
	c          *Ctx
	sol        *Solver
	fns        map[*ssa.Function]*cfn
	globals    map[*ssa.Global]*Obj
	inited     map[*ssa.Package]int
	root       *HNode
	nobj       int
	ninstr     int64
	budget     int64
	deadline   time.Time
	stubs      map[*ssa.Function]func(e *Eng, fs *FS, args []Value) []Outcome
	redir      map[string]*ssa.Function
	methods    map[methKey]*ssa.Function
	implC      map[implKey]bool
	covered    map[*ssa.Function]int64
	trial      int // depth of goroutines run while others wait
	job        *Job
	res        *JobResult
	race       bool
	shadow     map[cellKey][]access
	races      map[string]bool
	conc       map[string]uint64 // concrete values of inputs (concrete mode)
	obs        []string
	strT, errT types.Type
	trace      bool
	nomerge    map[string]int
	curfr      *frame
	curfs      *FS
	inInit     int
	nOrder     int
	chunks     map[string]int
	maxWork    int
	hostdata   map[string]any
	mentioned  map[uint32]bool
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct{ t, i types.Type }

func NewEng(p *Prog, job *Job) *Eng {
	e := &Eng{p: p, c: NewCtx(), fns: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]int{}, root: &HNode{},
		stubs: map[*ssa.Function]func(*Eng, *FS, []Value) []Outcome{}, methods: map[methKey]*ssa.Function{}, implC: map[implKey]bool{}, covered: map[*ssa.Function]int64{},
		job: job, shadow: map[cellKey][]access{}, races: map[string]bool{}, nomerge: map[string]int{}, hostdata: map[string]any{}}
	e.strT = p.ctype(types.Typ[types.String])
	if ep := p.pkgs["errors"]; ep != nil {
		e.errT = p.ctype(types.NewPointer(ep.Type("errorString").Object().Type()))
	}
	e.trace = os.Getenv("GOSYM_TRACE") != ""
	return e
}

func (e *Eng) newObj(st *State, n int, name string) *Obj {
	e.nobj++
	o := &Obj{id: e.nobj, cells: make([]Value, n), name: name}
	if st != nil {
		o.owner = st.heap
		o.tid = st.cur
	}
	return o
}

func (e *Eng) noteNoMerge(what string, o *Obj, a, b Value) {
	if e.trace {
		n := what
		if o != nil {
			n += " " + o.name
		}
		k := fmt.Sprintf("%s: %.60s | %.60s", n, a, b)
		if e.nomerge[k]++; e.nomerge[k] <= 1 && len(e.nomerge) < 60 {
			fmt.Fprintln(os.Stderr, "NOMERGE", k)
		}
	}
}

func (e *Eng) body(f *ssa.Function) *cfn {
	if c, ok := e.fns[f]; ok {
		return c
	}
	c := e.p.body(f)
	e.fns[f] = c
	return c
}

// ---------- path conditions ----------

func (e *Eng) assume(st *State, c B) {
	if c == T {
		return
	}
	lb := e.c.leafBits(c)
	p := &PC{parent: st.pc, c: c, depth: 1, lb: lb}
	if st.pc != nil {
		p.depth = st.pc.depth + 1
		p.lb = st.pc.lb.or(lb)
	}
	st.pc = p
	if st.wit != nil && !st.wit.ev.B(c) {
		st.wit = nil
	}
}

func lcaPC(a, b *PC) *PC {
	d := func(p *PC) int {
		if p == nil {
			return 0
		}
		return p.depth
	}
	for d(a) > d(b) {
		a = a.parent
	}
	for d(b) > d(a) {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

func (e *Eng) suffix(a, l *PC) B {
	r := T
	for ; a != l; a = a.parent {
		r = e.c.And(a.c, r)
	}
	return r
}

// slice returns the conjuncts of pc connected to c (directly, through other
// conjuncts, or through global assumptions).
func (e *Eng) slice(pc *PC, c B) []B {
	var cs []*PC
	for p := pc; p != nil; p = p.parent {
		cs = append(cs, p)
	}
	cur := e.c.leafBits(c).clone()
	used := make([]bool, len(cs))
	usedA := make([]bool, len(e.c.assume))
	var out []B
	for ch := true; ch; {
		ch = false
		for i, p := range cs {
			if used[i] {
				continue
			}
			lb := e.c.leafBits(p.c)
			if lb.meets(cur) {
				used[i] = true
				cur = cur.or(lb)
				out = append(out, p.c)
				ch = true
			}
		}
		for i := range e.c.assume {
			if usedA[i] {
				continue
			}
			lb := e.c.leafBits(e.c.assume[i].b)
			if lb.meets(cur) {
				usedA[i] = true
				if !lb.subset(cur) {
					cur = cur.or(lb)
					ch = true
				}
			}
		}
	}
	return out
}

// sat decides whether pc /\ c is satisfiable.
func (e *Eng) sat(st *State, c B) (Result, Model) {
	if c == F {
		return Unsat, nil
	}
	fs := e.slice(st.pc, c)
	// cheap conjunction test
	acc := c
	for _, f := range fs {
		if f == c.not() {
			return Unsat, nil
		}
		if len(fs) <= 6 {
			if acc = e.c.And(acc, f); acc == F {
				return Unsat, nil
			}
		}
	}
	fs = append(fs, c)
	return e.sol.Check(e.c, fs)
}

// feasible reports whether c can hold under st's path condition (unknown counts as yes).
func (e *Eng) feasible(st *State, c B) bool {
	if c == F {
		return false
	}
	if c == T {
		return true
	}
	if st.wit != nil && st.wit.ev.B(c) {
		return true
	}
	lb := e.c.leafBits(c)
	if (st.pc == nil || !lb.meets(st.pc.lb)) && e.c.freeSat(c, lb) {
		return true
	}
	for p, n := st.pc, 0; p != nil && n < 64; p, n = p.parent, n+1 {
		if p.c == c {
			return true
		}
		if p.c == c.not() {
			return false
		}
	}
	if e.c.simSat(st.pc, c) {
		return true
	}
	// an undecided feasibility question counts as feasible: the branch is explored
	if os.Getenv("GOSYM_FEAS") != "" {
		n := 0
		for p := st.pc; p != nil; p = p.parent {
			n++
		}
		s := e.c.simPC(st.pc)
		k := 0
		for _, w := range s {
			k += bits.OnesCount64(w)
		}
		fmt.Fprintln(os.Stderr, "feasible query at", e.where(), "pc", n, "samples", k)
	}
	e.sol.quick = true
	r, _ := e.sat(st, c)
	e.sol.quick = false
	return r != Unsat
}

// freeSat: c is over plain variables whose assumptions are all inside c's support
// (so canonicalisation has already taken them into account).
func (c *Ctx) freeSat(b B, lb bitset) bool {
	nd := &c.nodes[b.node()]
	if nd.kind == bVar {
		for _, ai := range c.asIdx[b.node()] {
			if !subset(c.assume[ai].atoms, nd.sup) {
				return false
			}
		}
		for _, i := range c.assumeX {
			if c.leafBits(c.assume[i].b).meets(lb) {
				return false
			}
		}
		return true
	}
	if nd.kind == bXor {
		if len(c.assume) == 0 {
			for _, x := range nd.list {
				if c.nodes[x].kind != bVar {
					return false
				}
			}
			return true
		}
	}
	if nd.kind != bTab && nd.kind != bXor || c.raw {
		return false
	}
	if len(nd.sup) > maxSup || (len(nd.sup) == 1 && nd.sup[0] == b.node()) {
		return false
	}
	for _, a := range nd.sup {
		if c.nodes[a].kind != bVar {
			return false
		}
		for _, ai := range c.asIdx[a] {
			if !subset(c.assume[ai].atoms, nd.sup) {
				return false
			}
		}
	}
	for _, i := range c.assumeX {
		if c.leafBits(c.assume[i].b).meets(lb) {
			return false
		}
	}
	// canonical form under the care set is neither T nor F, but a node built before an
	// assumption was added may be constant now
	tt := c.ttOf(b, nd.sup)
	care := c.care(nd.sup)
	for i := range tt {
		m := ttMask(len(nd.sup))
		if care != nil {
			m &= care[i]
		}
		if tt[i]&m != 0 {
			return true
		}
	}
	return false
}

// decide returns which truth values c can take.
func (e *Eng) decide(st *State, c B) (bool, bool) {
	if c == T {
		return true, false
	}
	if c == F {
		return false, true
	}
	t := e.feasible(st, c)
	if !t {
		return false, true
	}
	return true, e.feasible(st, c.not())
}

// concInt forces an integer value to be concrete on this path (forking if needed).
func (e *Eng) concInt(fs *FS, v Value) uint64 {
	if v.x == nil {
		return v.n
	}
	t, ok := v.x.(*BV)
	if !ok {
		unsup("concInt of %v", v)
	}
	for b := fs.st.bind; b != nil; b = b.parent {
		if b.t == t {
			return b.v
		}
	}
	if t.lo == t.hi {
		return t.lo
	}
	// pick a feasible value
	var val uint64
	if fs.st.wit != nil {
		val = fs.st.wit.ev.V(t)
	} else {
		if os.Getenv("GOSYM_FEAS") != "" {
			fmt.Fprintln(os.Stderr, "feas conc at", e.where(), t.w)
		}
		r, m := e.satPC(fs.st, t)
		if r == Unknown {
			unsup("solver gave no value for a symbolic integer")
		}
		if r == Unsat {
			panic(deadPath{})
		}
		fs.st.wit = &witness{m: m, ev: e.c.newEval(m)}
		val = fs.st.wit.ev.V(t)
	}
	panic(forkReq{t: t, v: val})
}

// satPC finds a model of the full path condition (and of the assumptions on t's leaves).
func (e *Eng) satPC(st *State, t *BV) (Result, Model) {
	if m := e.c.simModel(st.pc); m != nil {
		return Sat, m
	}
	var fs []B
	for p := st.pc; p != nil; p = p.parent {
		fs = append(fs, p.c)
	}
	if t != nil {
		// mention t's leaves so that assumptions on them are included
		z := e.c.Ult(t, e.c.Const(t.w, 0)).not()
		_ = z
		for i := range e.c.assume {
			fs = append(fs, e.c.assume[i].b)
		}
	}
	return e.sol.Check(e.c, fs)
}

func (e *Eng) concBool(fs *FS, b B) bool {
	if b == T {
		return true
	}
	if b == F {
		return false
	}
	for p := fs.st.pc; p != nil; p = p.parent {
		if p.c == b {
			return true
		}
		if p.c == b.not() {
			return false
		}
	}
	t, f := e.decide(fs.st, b)
	if t && !f {
		return true
	}
	if f && !t {
		return false
	}
	panic(forkReq{isB: true, b: b})
}

// ---------- frames ----------

func (fs *FS) fork() *FS {
	n := *fs
	n.st = fs.st.fork()
	n.regs = append([]Value(nil), fs.regs...)
	n.iter = append([]int32(nil), fs.iter...)
	n.defers = append([]*deferRec(nil), fs.defers...)
	return &n
}

func (e *Eng) arg(fs *FS, o operand) Value {
	switch o.kind {
	case oReg:
		return fs.regs[o.i]
	case oConst:
		return fs.fr.fn.consts[o.i]
	case oGlobal:
		return Value{k: KPtr, x: e.global(fs.fr.fn.globs[o.i])}
	}
	return Value{}
}

func cmpFS(fn *cfn, a, b *FS) int {
	la, lb := fn.blks[a.blk].loops, fn.blks[b.blk].loops
	i := 0
	for ; i < len(la) && i < len(lb) && la[i] == lb[i]; i++ {
		if a.iter[i] != b.iter[i] {
			if a.iter[i] < b.iter[i] {
				return -1
			}
			return 1
		}
	}
	oa, ob := fn.blks[a.blk].ord, fn.blks[b.blk].ord
	if i < len(la) {
		oa = fn.blks[la[i]].ord
	}
	if i < len(lb) {
		ob = fn.blks[lb[i]].ord
	}
	if oa != ob {
		return oa - ob
	}
	// one is inside the loop headed by the other's block or same block
	oa, ob = fn.blks[a.blk].ord, fn.blks[b.blk].ord
	if oa != ob {
		return oa - ob
	}
	return a.ip - b.ip
}

func (e *Eng) runFrame(f *ssa.Function, args, binds []Value, st *State, up *frame) []Outcome {
	fn := e.body(f)
	if fn == nil {
		unsup("function without body: %s", f)
	}
	fr := &frame{fn: fn, up: up}
	if up != nil {
		fr.depth = up.depth + 1
	}
	if fr.depth > 3000 {
		unsup("call depth exceeded in %s", f)
	}
	if e.inInit == 0 {
		e.covered[f]++
	}
	fs := &FS{st: st, fr: fr, regs: make([]Value, fn.nreg)}
	for i, p := range fn.params {
		if i < len(args) {
			fs.regs[p] = args[i]
		}
	}
	for i, p := range fn.fvs {
		fs.regs[p] = binds[i]
	}
	fr.work = append(fr.work, fs)
	saved := e.curfr
	e.curfr = fr
	for len(fr.work) > 0 {
		bi := 0
		for i := 1; i < len(fr.work); i++ {
			if cmpFS(fn, fr.work[i], fr.work[bi]) < 0 {
				bi = i
			}
		}
		x := fr.work[bi]
		last := len(fr.work) - 1
		fr.work[bi] = fr.work[last]
		fr.work[last] = nil
		fr.work = fr.work[:last]
		if len(fr.work) > e.maxWork {
			e.maxWork = len(fr.work)
			if e.maxWork > 4000 {
				panic(crash{"too many unmerged paths in " + f.String()})
			}
		}
		e.exec(x)
		e.curfr = fr
	}
	e.curfr = saved
	return fr.outs
}

// push adds x to the work list, merging it with a state at the same point.
func (e *Eng) push(fr *frame, x *FS) {
	if x.ip == 0 && !x.unw {
		for _, y := range fr.work {
			if y.blk == x.blk && y.ip == 0 && !y.unw && cmpFS(fr.fn, x, y) == 0 && e.mergeFS(y, x) {
				return
			}
		}
	}
	fr.work = append(fr.work, x)
}

func (e *Eng) mergeFS(a, b *FS) bool {
	if len(a.defers) != len(b.defers) {
		return false
	}
	for i := range a.defers {
		if a.defers[i] != b.defers[i] {
			return false
		}
	}
	if !e.stCompat(a.st, b.st) {
		return false
	}
	l := lcaPC(a.st.pc, b.st.pc)
	ca, cb := e.suffix(a.st.pc, l), e.suffix(b.st.pc, l)
	sel := ca
	if lenPC(b.st.pc, l) < lenPC(a.st.pc, l) {
		sel = cb.not()
	}
	cblk := &a.fr.fn.blks[a.blk]
	tmp := make([]Value, len(cblk.live))
	for i, r := range cblk.live {
		m, ok := e.mergeVal(sel, a.regs[r], b.regs[r])
		if !ok {
			if e.trace {
				e.noteNoMerge("reg "+a.fr.fn.f.String()+fmt.Sprintf(" blk %d", a.blk), nil, a.regs[r], b.regs[r])
			}
			return false
		}
		tmp[i] = m
	}
	if !e.mergeHeap(a.st, b.st, sel) {
		return false
	}
	for i, r := range cblk.live {
		a.regs[r] = tmp[i]
	}
	e.joinPC(a.st, b.st, l, ca, cb)
	return true
}

func lenPC(a, l *PC) int {
	n := 0
	for ; a != l; a = a.parent {
		n++
	}
	return n
}

func (e *Eng) stCompat(a, b *State) bool {
	return a.cur == b.cur && a.pol == b.pol && a.pan == b.pan && a.phase == b.phase && thEq(a.th, b.th)
}

func (e *Eng) joinPC(a, b *State, l *PC, ca, cb B) {
	a.pc = l
	wa, wb := a.wit, b.wit
	e.assume(a, e.c.Or(ca, cb))
	a.wit = wa
	if wa == nil {
		a.wit = wb
	}
	// common binds
	x, y := a.bind, b.bind
	d := func(p *Bind) int {
		if p == nil {
			return 0
		}
		return p.depth
	}
	for d(x) > d(y) {
		x = x.parent
	}
	for d(y) > d(x) {
		y = y.parent
	}
	for x != y {
		x, y = x.parent, y.parent
	}
	a.bind = x
}

// addOut records an outcome of the frame, merging returns.
func (e *Eng) addOut(fr *frame, o Outcome) {
	if o.kind == oRet {
		for i := range fr.outs {
			q := &fr.outs[i]
			if q.kind != oRet || !e.stCompat(q.st, o.st) {
				continue
			}
			l := lcaPC(q.st.pc, o.st.pc)
			ca, cb := e.suffix(q.st.pc, l), e.suffix(o.st.pc, l)
			sel := ca
			if lenPC(o.st.pc, l) < lenPC(q.st.pc, l) {
				sel = cb.not()
			}
			m, ok := e.mergeVal(sel, q.val, o.val)
			if !ok {
				e.noteNoMerge("ret "+fr.fn.f.String(), nil, q.val, o.val)
				continue
			}
			if !e.mergeHeap(q.st, o.st, sel) {
				continue
			}
			q.val = m
			e.joinPC(q.st, o.st, l, ca, cb)
			return
		}
	}
	fr.outs = append(fr.outs, o)
}

func (e *Eng) where() string {
	var s []string
	for f, n := e.curfr, 0; f != nil && n < 8; f, n = f.up, n+1 {
		s = append(s, f.fn.f.String())
	}
	return strings.Join(s, " < ")
}

// jump moves fs to the s-th successor of its current block.
func (e *Eng) jump(fs *FS, s int) {
	fn := fs.fr.fn
	from := &fn.blks[fs.blk]
	ti := from.succs[s]
	to := &fn.blks[ti]
	if len(to.phis) > 0 {
		pi := predIndex(to.b, from.b)
		q := pi[0]
		if len(pi) > 1 && from.succs[0] == from.succs[len(from.succs)-1] {
			q = pi[s]
		}
		if len(to.phis) == 1 {
			fs.regs[to.phis[0].dst] = e.arg(fs, to.phis[0].args[q])
		} else {
			var buf [8]Value
			tmp := buf[:0]
			for _, ph := range to.phis {
				tmp = append(tmp, e.arg(fs, ph.args[q]))
			}
			for i, ph := range to.phis {
				fs.regs[ph.dst] = tmp[i]
			}
		}
	}
	e.enter(fs, ti)
}

func (e *Eng) enter(fs *FS, ti int) {
	fn := fs.fr.fn
	fl, tl := fn.blks[fs.blk].loops, fn.blks[ti].loops
	if len(tl) > 0 || len(fs.iter) > 0 {
		k := 0
		for k < len(fl) && k < len(tl) && fl[k] == tl[k] {
			k++
		}
		it := fs.iter
		if len(it) > k {
			it = it[:k]
		}
		if k == len(tl) && k > 0 && tl[k-1] == ti {
			it[k-1]++ // back edge to the innermost common header
		}
		for len(it) < len(tl) {
			it = append(it, 0)
		}
		fs.iter = it
	}
	fs.blk = ti
	fs.ip = 0
}

// exec runs fs until it terminates, forks, or reaches a merge point while other states wait.
func (e *Eng) exec(fs *FS) {
	for e.exec1(fs) {
	}
}

func (e *Eng) exec1(fs *FS) (again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		e.curfr = fs.fr
		switch x := r.(type) {
		case forkReq:
			again = false
			e.doFork(fs, x)
		case deadPath:
			again = false // a branch that no input takes
		case Unsupported:
			again = false
			e.addOut(fs.fr, Outcome{st: fs.st, kind: oUnsup, msg: x.msg, pos: e.fsPos(fs) + " in " + e.where()})
		case rtPanic:
			again = e.startPanic(fs, Value{k: KIface, x: &If{t: e.strT, v: VStr("runtime error: " + string(x))}}, "runtime error: "+string(x))
		default:
			panic(r)
		}
	}()
	return e.steps(fs)
}

var zeroCache sync.Map

type rtPanic string

type deadPath struct{}

func (e *Eng) fsPos(fs *FS) string {
	b := &fs.fr.fn.blks[fs.blk]
	for i := fs.ip; i >= 0; i-- {
		if i < len(b.ins) && b.ins[i].in.Pos().IsValid() {
			return e.p.pos(b.ins[i].in)
		}
	}
	return fs.fr.fn.f.String()
}

func (e *Eng) doFork(fs *FS, x forkReq) {
	if x.isB {
		o := fs.fork()
		e.assume(fs.st, x.b)
		e.assume(o.st, x.b.not())
		fs.fr.work = append(fs.fr.work, fs, o)
		return
	}
	c := e.c.Eq(x.t, e.c.Const(x.t.w, x.v))
	if c == T || !e.feasible(fs.st, c.not()) {
		e.bindVal(fs.st, x)
		fs.fr.work = append(fs.fr.work, fs)
		return
	}
	o := fs.fork()
	e.assume(fs.st, c)
	e.bindVal(fs.st, x)
	e.assume(o.st, c.not())
	fs.fr.work = append(fs.fr.work, fs, o)
}

func (e *Eng) bindVal(st *State, x forkReq) {
	n := &Bind{parent: st.bind, t: x.t, v: x.v, depth: 1}
	if st.bind != nil {
		n.depth = st.bind.depth + 1
	}
	st.bind = n
}

// startPanic begins unwinding fs.
func (e *Eng) startPanic(fs *FS, val Value, msg string) bool {
	pos := e.fsPos(fs)
	fs.pan = &PanicRec{val: val, msg: msg}
	fs.panPos = pos
	fs.unw = true
	return true
}

func (e *Eng) unwind(fs *FS) bool {
	if len(fs.defers) == 0 {
		if fs.pan.recovered {
			fs.unw = false
			fs.st.pan = nil
			if rb := fs.fr.fn.f.Recover; rb != nil {
				e.enter(fs, rb.Index)
				return true
			}
			res := fs.fr.fn.f.Signature.Results()
			var v Value
			if res.Len() == 1 {
				v = e.p.zero(res.At(0).Type())
			} else {
				v = e.p.zero(res)
			}
			e.addOut(fs.fr, Outcome{st: fs.st, kind: oRet, val: v})
			return false
		}
		fs.st.pan = nil
		e.addOut(fs.fr, Outcome{st: fs.st, kind: oPanic, val: fs.pan.val, msg: fs.pan.msg, pos: fs.panPos})
		return false
	}
	d := fs.defers[len(fs.defers)-1]
	saved := fs.st.pan
	if !fs.pan.recovered {
		fs.st.pan = fs.pan
	}
	outs := e.invoke(fs, d.t, d.args, nil)
	for i := range outs {
		o := outs[i]
		x := fs
		if i < len(outs)-1 {
			n := *fs
			n.regs = append([]Value(nil), fs.regs...)
			n.iter = append([]int32(nil), fs.iter...)
			n.defers = append([]*deferRec(nil), fs.defers...)
			x = &n
		}
		x.st = o.st
		x.defers = x.defers[:len(x.defers)-1]
		switch o.kind {
		case oRet:
			if o.st.pan != nil && o.st.pan.recovered {
				p := *fs.pan
				p.recovered = true
				x.pan = &p
			}
			x.st.pan = saved
		case oPanic:
			x.pan = &PanicRec{val: o.val, msg: o.msg}
			x.panPos = o.pos
			x.st.pan = saved
		default:
			e.addOut(fs.fr, o)
			continue
		}
		fs.fr.work = append(fs.fr.work, x)
	}
	return false
}

// finishCall distributes the outcomes of a call made by fs. Returns true when fs continues in place.
func (e *Eng) finishCall(fs *FS, ci *cins, outs []Outcome, advance bool) bool {
	if len(outs) == 1 && outs[0].kind == oRet {
		fs.st = outs[0].st
		if ci.dst >= 0 && ci.op == iCall {
			fs.regs[ci.dst] = outs[0].val
		}
		if advance {
			fs.ip++
		}
		return true
	}
	for i := range outs {
		o := outs[i]
		switch o.kind {
		case oUnsup, oExit:
			fs.fr.outs = append(fs.fr.outs, o)
			continue
		}
		n := *fs
		x := &n
		n.regs = append([]Value(nil), fs.regs...)
		n.iter = append([]int32(nil), fs.iter...)
		n.defers = append([]*deferRec(nil), fs.defers...)
		x.st = o.st
		if o.kind == oPanic {
			x.pan = &PanicRec{val: o.val, msg: o.msg}
			x.panPos = o.pos
			x.unw = true
			fs.fr.work = append(fs.fr.work, x)
			continue
		}
		if ci.dst >= 0 && ci.op == iCall {
			x.regs[ci.dst] = o.val
		}
		if advance {
			x.ip++
		}
		fs.fr.work = append(fs.fr.work, x)
	}
	return false
}

func (e *Eng) tick() {
	e.ninstr++
	if e.ninstr&0x3fff == 0 {
		if e.budget > 0 && e.ninstr > e.budget {
			panic(crash{"instruction budget exceeded"})
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			panic(crash{"time budget exceeded"})
		}
	}
}

// steps executes instructions; returns true if fs should be run again at once.
func (e *Eng) steps(fs *FS) bool {
	e.curfs = fs
	if fs.unw {
		return e.unwind(fs)
	}
	fr := fs.fr
	fn := fr.fn
	for {
		blk := &fn.blks[fs.blk]
		for fs.ip < len(blk.ins) {
			ci := &blk.ins[fs.ip]
			e.tick()
			switch ci.op {
			case iJump:
				e.jump(fs, 0)
				goto next
			case iIf:
				c := e.arg(fs, ci.args[0]).B()
				if c == T {
					e.jump(fs, 0)
					goto next
				}
				if c == F {
					e.jump(fs, 1)
					goto next
				}
				t, f := e.decide(fs.st, c)
				if t && !f {
					e.jump(fs, 0)
					goto next
				}
				if f && !t {
					e.jump(fs, 1)
					goto next
				}
				o := fs.fork()
				e.assume(fs.st, c)
				e.assume(o.st, c.not())
				e.jump(fs, 0)
				e.jump(o, 1)
				e.push(fr, fs)
				e.push(fr, o)
				return false
			case iReturn:
				var v Value
				switch len(ci.args) {
				case 0:
				case 1:
					v = e.arg(fs, ci.args[0])
				default:
					vs := make([]Value, len(ci.args))
					for i, a := range ci.args {
						vs[i] = e.arg(fs, a)
					}
					v = Value{k: KTuple, x: vs}
				}
				e.addOut(fr, Outcome{st: fs.st, kind: oRet, val: v})
				return false
			case iCall:
				t, args := e.resolve(fs, ci)
				outs := e.invoke(fs, t, args, ci)
				if !e.finishCall(fs, ci, outs, true) {
					return false
				}
				continue
			case iRunDefers:
				if n := len(fs.defers); n > 0 {
					d := fs.defers[n-1]
					saved := fs.st.pan
					fs.st.pan = nil
					outs := e.invoke(fs, d.t, d.args, nil)
					fs.defers = append([]*deferRec(nil), fs.defers[:n-1]...)
					for i := range outs {
						outs[i].st.pan = saved
					}
					if !e.finishCall(fs, ci, outs, false) {
						return false
					}
					continue
				}
				fs.ip++
				continue
			case iDefer:
				t, args := e.resolve(fs, ci)
				fs.defers = append(append([]*deferRec(nil), fs.defers...), &deferRec{t: t, args: args, pos: e.p.pos(ci.in)})
				fs.ip++
				continue
			case iGo:
				t, args := e.resolve(fs, ci)
				e.spawn(fs.st, t, args, e.p.pos(ci.in))
				fs.ip++
				continue
			case iPanic:
				v := e.arg(fs, ci.args[0])
				return e.startPanic(fs, v, e.panicText(fs, v))
			case iRecv:
				outs := e.recv(fs, ci)
				ci2 := *ci
				ci2.op = iCall
				if !e.finishCall(fs, &ci2, outs, true) {
					return false
				}
				continue
			case iSelect:
				outs := e.sel(fs, ci)
				ci2 := *ci
				ci2.op = iCall
				if !e.finishCall(fs, &ci2, outs, true) {
					return false
				}
				continue
			case iNext:
				outs := e.next(fs, ci)
				ci2 := *ci
				ci2.op = iCall
				if !e.finishCall(fs, &ci2, outs, true) {
					return false
				}
				continue
			case iConvert:
				outs := e.convert(fs, ci)
				if outs != nil {
					ci2 := *ci
					ci2.op = iCall
					if !e.finishCall(fs, &ci2, outs, true) {
						return false
					}
					continue
				}
				fs.ip++
				continue
			}
			e.instr(fs, ci)
			fs.ip++
		}
		panic("block without terminator")
	next:
		if len(fr.work) > 0 {
			e.push(fr, fs)
			return false
		}
	}
}

func (e *Eng) panicText(fs *FS, v Value) string {
	if v.x == nil {
		return "panic(nil)"
	}
	i, ok := v.x.(*If)
	if !ok {
		return "panic"
	}
	if s, ok := i.v.x.(string); ok && i.v.k == KStr {
		return s
	}
	return fmt.Sprintf("panic value of type %v", i.t)
}

// resolve finds the callee and evaluates arguments.
func (e *Eng) resolve(fs *FS, ci *cins) (target, []Value) {
	var cc *ssa.CallCommon
	switch x := ci.in.(type) {
	case *ssa.Call:
		cc = &x.Call
	case *ssa.Defer:
		cc = &x.Call
	case *ssa.Go:
		cc = &x.Call
	}
	n := len(ci.args) - 1
	var args []Value
	if cc.IsInvoke() {
		rv := e.arg(fs, ci.args[0])
		if rv.x == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		i := rv.x.(*If)
		args = make([]Value, 0, n+1)
		args = append(args, i.v)
		for j := 1; j <= n; j++ {
			args = append(args, e.arg(fs, ci.args[j]))
		}
		if h, ok := i.v.x.(*HostObj); ok && i.v.k == KHost {
			name := cc.Method.Name()
			return target{host: func(e *Eng, fs *FS, a []Value) []Outcome { return h.call(e, fs, name, a) }}, args
		}
		f := e.method(i.t, cc.Method)
		return target{f: f, cc: cc}, args
	}
	args = make([]Value, n)
	for j := 0; j < n; j++ {
		args[j] = e.arg(fs, ci.args[j+1])
	}
	if ci.name != "" {
		return target{builtin: ci.name, cc: cc}, args
	}
	if ci.fn != nil {
		t := target{f: ci.fn, cc: cc}
		if fv := e.arg(fs, ci.args[0]); fv.k == KFunc && fv.x != nil {
			t.bind = fv.x.(*Fn).bind
		}
		return t, args
	}
	fv := e.arg(fs, ci.args[0])
	if fv.k != KFunc {
		unsup("call of a non-function value %v", fv)
	}
	if fv.x == nil {
		return target{nilfn: true}, args
	}
	x := fv.x.(*Fn)
	return target{f: x.f, bind: x.bind, host: x.host, cc: cc}, args
}

func (e *Eng) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := e.methods[k]; ok {
		return f
	}
	e.p.mu.Lock()
	f := e.p.ssa.LookupMethod(t, m.Pkg(), m.Name())
	e.p.mu.Unlock()
	if f == nil {
		unsup("no method %s on %v", m.Name(), t)
	}
	e.methods[k] = f
	return f
}

func ret(st *State, v Value) []Outcome { return []Outcome{{st: st, kind: oRet, val: v}} }
func tup(vs ...Value) Value            { return Value{k: KTuple, x: vs} }

func (e *Eng) invoke(fs *FS, t target, args []Value, ci *cins) []Outcome {
	if t.nilfn {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	if t.host != nil {
		return t.host(e, fs, args)
	}
	if t.builtin != "" {
		return e.builtin(fs, t, args, ci)
	}
	if h := e.intrinsic(t.f); h != nil {
		return h(e, fs, args)
	}
	return e.runFrame(t.f, args, t.bind, fs.st, fs.fr)
}

// ---------- memory ----------

func (e *Eng) load(fs *FS, p Value, sz int, write bool) Value {
	if p.k != KPtr {
		unsup("load through %v", p)
	}
	switch o := p.x.(type) {
	case nil:
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	case *Obj:
		off := int(p.n)
		if sz < 0 {
			if off >= len(o.cells) {
				unsup("load out of object")
			}
			if e.race {
				e.logAccess(fs.st, o, off, false)
			}
			return fs.st.rd(o, off)
		}
		vs := make([]Value, sz)
		for i := range vs {
			if e.race {
				e.logAccess(fs.st, o, off+i, false)
			}
			vs[i] = fs.st.rd(o, off+i)
		}
		return Value{k: KAgg, x: vs}
	case *SymPtr:
		if sz < 0 {
			return e.loadSym(fs, o, 0)
		}
		vs := make([]Value, sz)
		for i := range vs {
			vs[i] = e.loadSym(fs, o, i)
		}
		return Value{k: KAgg, x: vs}
	}
	unsup("load through %v", p)
	return Value{}
}

func (e *Eng) symRange(p *SymPtr) (int, int) {
	lo, hi := 0, p.n-1
	if p.idx.lo <= uint64(hi) && int(p.idx.lo) > lo {
		lo = int(p.idx.lo)
	}
	if p.idx.hi < uint64(hi) {
		hi = int(p.idx.hi)
	}
	return lo, hi
}

func (e *Eng) loadSym(fs *FS, p *SymPtr, extra int) Value {
	lo, hi := e.symRange(p)
	cell := func(i int) Value {
		off := p.base + i*p.scale + p.sub + extra
		if e.race {
			e.logAccess(fs.st, p.obj, off, false)
		}
		return fs.st.rd(p.obj, off)
	}
	return e.selectVals(fs, p.idx, lo, hi, cell)
}

// selectVals yields cell(idx) for idx in [lo,hi].
func (e *Eng) selectVals(fs *FS, idx *BV, lo, hi int, cell func(int) Value) Value {
	if s, ok := e.c.joint(idx); ok && hi-lo > 64 {
		it := e.c.valTab(idx, s)
		out := make([]uint64, len(it))
		con, w := true, 0
		for i, v := range it {
			if v >= uint64(lo) && v <= uint64(hi) {
				x := cell(int(v))
				if x.k != KInt || x.x != nil {
					con = false
					break
				}
				out[i], w = x.n, int(x.w)
			}
		}
		if con && w > 0 {
			return VTerm(e.c.fromValTab(s, w, out))
		}
	}
	if hi-lo > 70000 {
		unsup("symbolic index over %d elements", hi-lo+1)
	}
	vals := make([]Value, hi-lo+1)
	allConst := true
	same := true
	for i := range vals {
		vals[i] = cell(lo + i)
		if vals[i].k != KInt || vals[i].x != nil {
			allConst = false
		}
		if i > 0 && (vals[i].k != vals[0].k || vals[i].n != vals[0].n || vals[i].k > KBool || vals[i].x != nil || vals[0].x != nil) {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	if allConst {
		if s, ok := e.c.joint(idx); ok {
			it := e.c.valTab(idx, s)
			out := make([]uint64, len(it))
			for i, v := range it {
				if v >= uint64(lo) && v <= uint64(hi) {
					out[i] = vals[v-uint64(lo)].n
				}
			}
			return VTerm(e.c.fromValTab(s, int(vals[0].w), out))
		}
	}
	switch vals[0].k {
	case KInt, KBool:
	default:
		i := e.concInt(fs, VTerm(idx))
		return vals[int(i)-lo]
	}
	// balanced selection on index bits
	var sel func(bit int, prefix, cnt int) Value
	nb := bits.Len64(uint64(hi))
	sel = func(bit int, prefix, cnt int) Value {
		// values with index in [prefix, prefix+cnt)
		if prefix > hi {
			return vals[len(vals)-1]
		}
		if prefix+cnt-1 < lo {
			return vals[0]
		}
		if bit < 0 {
			return vals[prefix-lo]
		}
		h := cnt / 2
		a := sel(bit-1, prefix, h)
		b := sel(bit-1, prefix+h, h)
		m, ok := e.mergeVal(e.c.Bit(idx, bit), b, a)
		if !ok {
			unsup("cannot merge elements under a symbolic index")
		}
		return m
	}
	return sel(nb-1, 0, 1<<uint(nb))
}

func (e *Eng) store(fs *FS, p Value, v Value) {
	if p.k != KPtr {
		unsup("store through %v", p)
	}
	switch o := p.x.(type) {
	case nil:
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	case *Obj:
		off := int(p.n)
		if v.k == KAgg {
			for i, c := range v.x.([]Value) {
				if e.race {
					e.logAccess(fs.st, o, off+i, true)
				}
				fs.st.wr(o, off+i, c)
			}
			return
		}
		if off >= len(o.cells) {
			unsup("store out of object")
		}
		if e.race {
			e.logAccess(fs.st, o, off, true)
		}
		fs.st.wr(o, off, v)
		return
	case *SymPtr:
		if v.k == KAgg {
			// make sure every component can be merged first
			for i, c := range v.x.([]Value) {
				e.storeSym(fs, o, i, c)
			}
			return
		}
		e.storeSym(fs, o, 0, v)
		return
	}
	unsup("store through %v", p)
}

func (e *Eng) storeSym(fs *FS, p *SymPtr, extra int, v Value) {
	lo, hi := e.symRange(p)
	type upd struct {
		off int
		v   Value
	}
	var ups []upd
	for i := lo; i <= hi; i++ {
		off := p.base + i*p.scale + p.sub + extra
		old := fs.st.rd(p.obj, off)
		c := e.c.Eq(p.idx, e.c.Const(p.idx.w, uint64(i)))
		if c == F {
			continue
		}
		m, ok := e.mergeVal(c, v, old)
		if !ok {
			i := e.concInt(fs, VTerm(p.idx))
			fs.st.wr(p.obj, p.base+int(i)*p.scale+p.sub+extra, v)
			return
		}
		ups = append(ups, upd{off, m})
	}
	for _, u := range ups {
		if e.race {
			e.logAccess(fs.st, p.obj, u.off, true)
		}
		fs.st.wr(p.obj, u.off, u.v)
	}
}

func (e *Eng) slElem(fs *FS, s *Sl, sz, i int) []Value {
	out := make([]Value, sz)
	for j := range out {
		if e.race {
			e.logAccess(fs.st, s.obj, s.off+i*sz+j, false)
		}
		out[j] = fs.st.rd(s.obj, s.off+i*sz+j)
	}
	return out
}

func (e *Eng) slBytes(fs *FS, v Value) []Value {
	if v.x == nil {
		return nil
	}
	s := v.x.(*Sl)
	out := make([]Value, s.len)
	for i := range out {
		if e.race {
			e.logAccess(fs.st, s.obj, s.off+i, false)
		}
		out[i] = fs.st.rd(s.obj, s.off+i)
	}
	return out
}

func (e *Eng) mkSlice(st *State, vals []Value, name string) Value {
	o := e.newObj(st, len(vals), name)
	copy(o.cells, vals)
	return Value{k: KSlice, x: &Sl{obj: o, len: len(vals), cap: len(vals)}}
}

// ---------- plain instructions ----------

func wrapAgg(v []Value, sz int) Value {
	if sz < 0 {
		return v[0]
	}
	return Value{k: KAgg, x: v}
}

func (e *Eng) instr(fs *FS, ci *cins) {
	switch ci.op {
	case iNop:
	case iAlloc:
		o := e.newObj(fs.st, ci.sz, "alloc "+ci.typ.String())
		copy(o.cells, e.zeros(ci.typ, ci.sz))
		fs.regs[ci.dst] = Value{k: KPtr, x: o}
	case iBin:
		fs.regs[ci.dst] = e.binop(fs, ci)
	case iUn:
		fs.regs[ci.dst] = e.unop(fs, ci)
	case iLoad:
		fs.regs[ci.dst] = e.load(fs, e.arg(fs, ci.args[0]), ci.sz, false)
	case iStore:
		e.store(fs, e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1]))
	case iChange:
		fs.regs[ci.dst] = e.arg(fs, ci.args[0])
	case iExtract:
		fs.regs[ci.dst] = e.arg(fs, ci.args[0]).x.([]Value)[ci.off]
	case iField:
		v := e.arg(fs, ci.args[0])
		if v.k != KAgg {
			unsup("field of %v", v)
		}
		cs := v.x.([]Value)
		if ci.sz < 0 {
			fs.regs[ci.dst] = cs[ci.off]
		} else {
			fs.regs[ci.dst] = Value{k: KAgg, x: cs[ci.off : ci.off+ci.sz]}
		}
	case iFieldAddr:
		p := e.arg(fs, ci.args[0])
		switch o := p.x.(type) {
		case nil:
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		case *Obj:
			fs.regs[ci.dst] = Value{k: KPtr, x: o, n: p.n + uint64(ci.off)}
		case *SymPtr:
			n := *o
			n.sub += ci.off
			fs.regs[ci.dst] = Value{k: KPtr, x: &n}
		default:
			unsup("field address of %v", p)
		}
	case iIndex:
		v, ix := e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1])
		if v.k == KStr {
			fs.regs[ci.dst] = e.strIndex(fs, v, ix, ci.sgn)
			return
		}
		cs := v.x.([]Value)
		sz := ci.sz
		if sz < 0 {
			sz = 1
		}
		n := len(cs) / sz
		e.bounds(fs, ix, n, ci.sgn)
		if ix.x == nil {
			i := int(ix.n)
			fs.regs[ci.dst] = wrapAgg(cs[i*sz:(i+1)*sz], ci.sz)
			return
		}
		idx := e.idx64(ix, ci.sgn)
		if ci.sz < 0 {
			lo, hi := e.symRange(&SymPtr{idx: idx, n: n})
			fs.regs[ci.dst] = e.selectVals(fs, idx, lo, hi, func(i int) Value { return cs[i] })
			return
		}
		i := int(e.concInt(fs, ix))
		fs.regs[ci.dst] = wrapAgg(cs[i*sz:(i+1)*sz], ci.sz)
	case iIndexAddr:
		b, ix := e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1])
		if b.k == KSlice {
			if b.x == nil {
				panic(rtPanic("index out of range [nil slice]"))
			}
			s := b.x.(*Sl)
			if ix.x == nil {
				i := ix.n
				if i >= uint64(s.len) || (ix.w < 64 && ci.sgn && sx(i, int(ix.w)) < 0) {
					panic(rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), s.len)))
				}
				fs.regs[ci.dst] = Value{k: KPtr, x: s.obj, n: uint64(s.off + int(i)*ci.sz)}
				return
			}
			e.bounds(fs, ix, s.len, ci.sgn)
			fs.regs[ci.dst] = e.symPtr(fs, s.obj, s.off, s.len, ci.sz, ix, ci.sgn)
			return
		}
		switch o := b.x.(type) {
		case nil:
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		case *Obj:
			e.bounds(fs, ix, ci.off, ci.sgn)
			if ix.x == nil {
				fs.regs[ci.dst] = Value{k: KPtr, x: o, n: b.n + ix.n*uint64(ci.sz)}
				return
			}
			fs.regs[ci.dst] = e.symPtr(fs, o, int(b.n), ci.off, ci.sz, ix, ci.sgn)
		case *SymPtr:
			e.bounds(fs, ix, ci.off, ci.sgn)
			j := e.concInt(fs, ix)
			n := *o
			n.sub += int(j) * ci.sz
			fs.regs[ci.dst] = Value{k: KPtr, x: &n}
		default:
			unsup("index address of %v", b)
		}
	case iLookup:
		fs.regs[ci.dst] = e.lookup(fs, ci)
	case iMakeChan:
		n := e.concInt(fs, e.arg(fs, ci.args[0]))
		o := e.newObj(fs.st, 1, "chan")
		o.cells[0] = Value{k: KHost, x: &ChanD{cap: int(n)}}
		fs.regs[ci.dst] = Value{k: KChan, x: o}
	case iMakeClosure:
		b := make([]Value, len(ci.args))
		for i, a := range ci.args {
			b[i] = e.arg(fs, a)
		}
		fs.regs[ci.dst] = Value{k: KFunc, x: &Fn{f: ci.fn, bind: b}}
	case iMakeIface:
		fs.regs[ci.dst] = Value{k: KIface, x: &If{t: ci.typ, v: e.arg(fs, ci.args[0])}}
	case iMakeMap:
		o := e.newObj(fs.st, 1, "map")
		o.cells[0] = Value{k: KHost, x: &MapD{idx: map[string]int{}}}
		fs.regs[ci.dst] = Value{k: KMap, x: o}
	case iMakeSlice:
		ln := int64(e.concInt(fs, e.arg(fs, ci.args[0])))
		cp := int64(e.concInt(fs, e.arg(fs, ci.args[1])))
		if ln < 0 || cp < ln {
			panic(rtPanic("makeslice: len out of range"))
		}
		if cp > 1<<24 {
			unsup("makeslice of %d elements", cp)
		}
		o := e.newObj(fs.st, int(cp)*ci.sz, "make []"+ci.typ.String())
		z := e.zeros(ci.typ, ci.sz)
		if ci.sz == 1 {
			for i := range o.cells {
				o.cells[i] = z[0]
			}
		} else {
			for i := 0; i < int(cp); i++ {
				copy(o.cells[i*ci.sz:], z)
			}
		}
		fs.regs[ci.dst] = Value{k: KSlice, x: &Sl{obj: o, len: int(ln), cap: int(cp)}}
	case iMapUpdate:
		e.mapUpdate(fs, e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1]), e.arg(fs, ci.args[2]))
	case iRange:
		v := e.arg(fs, ci.args[0])
		o := e.newObj(fs.st, 3, "range")
		o.cells[0] = v
		o.cells[1] = vpos(0)
		if v.k == KMap && v.x != nil {
			// snapshot of keys
			o.cells[2] = fs.st.rd(v.x.(*Obj), 0)
			if fs.st.pol&1 == 1 {
				// another iteration order
				d := o.cells[2].x.(*MapD)
				r := &MapD{idx: map[string]int{}, n: d.n}
				for i := len(d.keys) - 1; i >= 0; i-- {
					key := e.mapKey(fs, d.keys[i])
					if j, ok := d.idx[key]; ok && j == i {
						r.idx[key] = len(r.keys)
						r.keys = append(r.keys, d.keys[i])
						r.vals = append(r.vals, d.vals[i])
					}
				}
				o.cells[2] = Value{k: KHost, x: r}
			}
		}
		fs.regs[ci.dst] = Value{k: KPtr, x: o}
	case iSend:
		e.send(fs, e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1]))
	case iSlice:
		fs.regs[ci.dst] = e.sliceOp(fs, ci)
	case iSliceToArr:
		v := e.arg(fs, ci.args[0])
		n := ci.in.(*ssa.SliceToArrayPointer).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if v.x == nil {
			if n > 0 {
				panic(rtPanic("cannot convert slice to array pointer"))
			}
			fs.regs[ci.dst] = Value{k: KPtr}
			return
		}
		s := v.x.(*Sl)
		if int64(s.len) < n {
			panic(rtPanic("cannot convert slice to array pointer"))
		}
		fs.regs[ci.dst] = Value{k: KPtr, x: s.obj, n: uint64(s.off)}
	case iTypeAssert:
		fs.regs[ci.dst] = e.typeAssert(fs, ci)
	default:
		unsup("instruction %T: %v", ci.in, ci.in)
	}
}

func (e *Eng) zeros(t types.Type, sz int) []Value {
	if v, ok := zeroCache.Load(t); ok {
		return v.([]Value)
	}
	z := e.p.zeroCells(t, nil)
	zeroCache.Store(t, z)
	return z
}

func (e *Eng) idx64(ix Value, sgn bool) *BV {
	return e.c.Resize(e.term(ix), 64, sgn)
}

func (e *Eng) symPtr(fs *FS, o *Obj, base, n, sz int, ix Value, sgn bool) Value {
	small := n <= 5000
	if !small {
		if t, ok := ix.x.(*BV); ok {
			t = e.c.Resize(t, 64, sgn)
			_, tab := e.c.joint(t)
			small = tab || t.hi-t.lo <= 5000
		}
	}
	if !small {
		i := e.concInt(fs, ix)
		return Value{k: KPtr, x: o, n: uint64(base) + i*uint64(sz)}
	}
	for b := fs.st.bind; b != nil; b = b.parent {
		if b.t == ix.x.(*BV) {
			return Value{k: KPtr, x: o, n: uint64(base) + b.v*uint64(sz)}
		}
	}
	return Value{k: KPtr, x: &SymPtr{obj: o, base: base, idx: e.idx64(ix, sgn), n: n, scale: sz}}
}

// bounds raises the index panic on the paths where ix is outside [0,n).
func (e *Eng) bounds(fs *FS, ix Value, n int, sgn bool) {
	if ix.x == nil {
		i := ix.n
		if sgn {
			i = uint64(sx(ix.n, int(ix.w)))
		}
		if i >= uint64(n) {
			panic(rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n)))
		}
		return
	}
	t := e.idx64(ix, sgn)
	in := e.c.Ult(t, e.c.Const(64, uint64(n)))
	e.require(fs, in, "index out of range (symbolic index) with length "+fmt.Sprint(n))
}

// require splits off a panicking path where c fails.
func (e *Eng) require(fs *FS, c B, msg string) {
	if !e.concBool(fs, c) {
		panic(rtPanic(msg))
	}
}

func (e *Eng) strIndex(fs *FS, v, ix Value, sgn bool) Value {
	n := strLen(v)
	e.bounds(fs, ix, n, sgn)
	if ix.x == nil {
		return strByte(v, int(ix.n))
	}
	idx := e.idx64(ix, sgn)
	lo, hi := e.symRange(&SymPtr{idx: idx, n: n})
	return e.selectVals(fs, idx, lo, hi, func(i int) Value { return strByte(v, i) })
}

func (e *Eng) unop(fs *FS, ci *cins) Value {
	v := e.arg(fs, ci.args[0])
	switch ci.in.(*ssa.UnOp).Op {
	case token.NOT:
		return VBool(v.B().not())
	case token.SUB:
		if v.k == KFloat {
			return mkF(-fval(v), v.w)
		}
		if v.x == nil {
			return VInt(int(v.w), -v.n)
		}
		return VTerm(e.c.Op(vSub, e.c.Const(int(v.w), 0), e.term(v)))
	case token.XOR:
		if v.x == nil {
			return VInt(int(v.w), ^v.n)
		}
		return VTerm(e.c.NotV(e.term(v)))
	}
	unsup("unary %v", ci.in)
	return Value{}
}

func fval(v Value) float64 {
	if v.x != nil {
		unsup("symbolic float")
	}
	return math.Float64frombits(v.n)
}
func mkF(f float64, w uint8) Value {
	if w == 32 {
		f = float64(float32(f))
	}
	return Value{k: KFloat, w: w, n: math.Float64bits(f)}
}

func (e *Eng) binop(fs *FS, ci *cins) Value {
	op := ci.in.(*ssa.BinOp).Op
	a, b := e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1])
	if a.k == KInt && b.k == KInt {
		return e.intop(fs, op, a, b, ci.sgn)
	}
	switch op {
	case token.EQL:
		return VBool(e.eq(fs, a, b))
	case token.NEQ:
		return VBool(e.eq(fs, a, b).not())
	}
	if a.k == KFloat {
		x, y := fval(a), fval(b)
		switch op {
		case token.ADD:
			return mkF(x+y, a.w)
		case token.SUB:
			return mkF(x-y, a.w)
		case token.MUL:
			return mkF(x*y, a.w)
		case token.QUO:
			return mkF(x/y, a.w)
		case token.LSS:
			return VBoolC(x < y)
		case token.LEQ:
			return VBoolC(x <= y)
		case token.GTR:
			return VBoolC(x > y)
		case token.GEQ:
			return VBoolC(x >= y)
		}
	}
	if a.k == KStr {
		switch op {
		case token.ADD:
			if isOpaque(a) || isOpaque(b) {
				return opaque(minLen(a) + minLen(b))
			}
			if s, ok := a.x.(string); ok {
				if t, ok := b.x.(string); ok {
					return VStr(s + t)
				}
			}
			return mkStr(append(strBytes(a), strBytes(b)...))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			lt := e.strLess(strBytes(a), strBytes(b), op == token.LEQ || op == token.GEQ)
			return VBool(lt)
		}
	}
	unsup("binary %v on %v, %v", op, a, b)
	return Value{}
}

func (e *Eng) strLess(a, b []Value, orEq bool) B {
	if len(a) == 0 {
		if len(b) > 0 || orEq {
			return T
		}
		return F
	}
	if len(b) == 0 {
		return F
	}
	x, y := e.term(a[0]), e.term(b[0])
	rest := e.strLess(a[1:], b[1:], orEq)
	return e.c.Or(e.c.Ult(x, y), e.c.And(e.c.Eq(x, y), rest))
}

func (e *Eng) intop(fs *FS, op token.Token, a, b Value, sgn bool) Value {
	w := int(a.w)
	if a.x == nil && b.x == nil {
		x, y := a.n, b.n
		switch op {
		case token.ADD:
			return VInt(w, x+y)
		case token.SUB:
			return VInt(w, x-y)
		case token.MUL:
			return VInt(w, x*y)
		case token.QUO, token.REM:
			if y == 0 {
				panic(rtPanic("integer divide by zero"))
			}
			var o vop
			switch {
			case op == token.QUO && sgn:
				o = vSDiv
			case op == token.QUO:
				o = vUDiv
			case sgn:
				o = vSRem
			default:
				o = vURem
			}
			return VInt(w, evalOp(o, w, x, y))
		case token.AND:
			return VInt(w, x&y)
		case token.OR:
			return VInt(w, x|y)
		case token.XOR:
			return VInt(w, x^y)
		case token.AND_NOT:
			return VInt(w, x&^y)
		case token.SHL, token.SHR:
			if b.w < 64 || int64(y) >= 0 {
				if op == token.SHL {
					return VInt(w, evalOp(vShl, w, x, y))
				}
				if sgn {
					return VInt(w, evalOp(vAshr, w, x, y))
				}
				return VInt(w, evalOp(vLshr, w, x, y))
			}
			if e.shiftSigned(fs) {
				panic(rtPanic("negative shift amount"))
			}
			if op == token.SHR && sgn && sx(x, w) < 0 {
				return VInt(w, mask(w))
			}
			return VInt(w, 0)
		case token.EQL:
			return VBoolC(x == y)
		case token.NEQ:
			return VBoolC(x != y)
		}
		if sgn {
			p, q := sx(x, w), sx(y, w)
			switch op {
			case token.LSS:
				return VBoolC(p < q)
			case token.LEQ:
				return VBoolC(p <= q)
			case token.GTR:
				return VBoolC(p > q)
			case token.GEQ:
				return VBoolC(p >= q)
			}
		}
		switch op {
		case token.LSS:
			return VBoolC(x < y)
		case token.LEQ:
			return VBoolC(x <= y)
		case token.GTR:
			return VBoolC(x > y)
		case token.GEQ:
			return VBoolC(x >= y)
		}
		unsup("int op %v", op)
	}
	c := e.c
	x, y := e.term(a), e.term(b)
	lt := func(p, q *BV) B {
		if sgn {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	}
	switch op {
	case token.ADD:
		return VTerm(c.Op(vAdd, x, y))
	case token.SUB:
		return VTerm(c.Op(vSub, x, y))
	case token.MUL:
		return VTerm(c.Op(vMul, x, y))
	case token.QUO, token.REM:
		e.require(fs, c.Eq(y, c.Const(w, 0)).not(), "integer divide by zero")
		switch {
		case op == token.QUO && sgn:
			return VTerm(c.Op(vSDiv, x, y))
		case op == token.QUO:
			return VTerm(c.Op(vUDiv, x, y))
		case sgn:
			return VTerm(c.Op(vSRem, x, y))
		}
		return VTerm(c.Op(vURem, x, y))
	case token.AND:
		return VTerm(c.Bitwise(0, x, y))
	case token.OR:
		return VTerm(c.Bitwise(1, x, y))
	case token.XOR:
		return VTerm(c.Bitwise(2, x, y))
	case token.AND_NOT:
		return VTerm(c.Bitwise(3, x, y))
	case token.SHL, token.SHR:
		yw := int(b.w)
		if e.shiftSigned(fs) {
			e.require(fs, c.Slt(y, c.Const(yw, 0)).not(), "negative shift amount")
		}
		m := max(w, yw)
		yy := c.Resize(y, m, false)
		var xx *BV
		o := vShl
		if op == token.SHR {
			o = vLshr
			if sgn {
				o = vAshr
			}
		}
		xx = c.Resize(x, m, op == token.SHR && sgn)
		return VTerm(c.Resize(c.Op(o, xx, yy), w, false))
	case token.EQL:
		return VBool(c.Eq(x, y))
	case token.NEQ:
		return VBool(c.Eq(x, y).not())
	case token.LSS:
		return VBool(lt(x, y))
	case token.LEQ:
		return VBool(lt(y, x).not())
	case token.GTR:
		return VBool(lt(y, x))
	case token.GEQ:
		return VBool(lt(x, y).not())
	}
	unsup("int op %v", op)
	return Value{}
}

func (e *Eng) shiftSigned(fs *FS) bool {
	ci := &fs.fr.fn.blks[fs.blk].ins[fs.ip]
	b, ok := ci.in.(*ssa.BinOp)
	if !ok {
		return false
	}
	_, s, _ := intInfo(b.Y.Type())
	return s
}

func (e *Eng) eq(fs *FS, a, b Value) B {
	if a.k != b.k {
		// nil comparisons of differently tagged zero values
		if a.x == nil && b.x == nil && (a.k == KPtr || b.k == KPtr) {
			return T
		}
		if a.k == KIface && a.x != nil && b.k != KIface {
			return F
		}
		if b.x == nil && b.k == KPtr || a.x == nil && a.k == KPtr {
			return F
		}
		unsup("comparison of %v and %v", a, b)
	}
	switch a.k {
	case KInt:
		if a.x == nil && b.x == nil {
			if a.n == b.n {
				return T
			}
			return F
		}
		return e.c.Eq(e.term(a), e.term(b))
	case KBool:
		return e.c.Xor(a.B(), b.B()).not()
	case KFloat:
		if fval(a) == fval(b) {
			return T
		}
		return F
	case KStr:
		if s, ok := a.x.(string); ok {
			if t, ok := b.x.(string); ok {
				if s == t {
					return T
				}
				return F
			}
		}
		if isOpaque(a) || isOpaque(b) {
			if a.x == b.x {
				return T
			}
			if !isOpaque(a) && minLen(a) < minLen(b) || !isOpaque(b) && minLen(b) < minLen(a) {
				return F
			}
			unsup("comparison of a formatted (opaque) string")
		}
		if strLen(a) != strLen(b) {
			return F
		}
		r := T
		for i := 0; i < strLen(a); i++ {
			r = e.c.And(r, e.c.Eq(e.term(strByte(a, i)), e.term(strByte(b, i))))
		}
		return r
	case KPtr:
		if x, ok := a.x.(*Obj); ok {
			if y, ok := b.x.(*Obj); ok {
				if x == y && a.n == b.n {
					return T
				}
				return F
			}
		}
		if a.x == nil && b.x == nil {
			return T
		}
		if a.x == nil || b.x == nil {
			return F
		}
		if h, ok := a.x.(*HostObj); ok {
			if g, ok := b.x.(*HostObj); ok {
				if h == g {
					return T
				}
				return F
			}
		}
		unsup("comparison of symbolic pointers")
	case KSlice, KFunc, KMap, KChan:
		if a.x == b.x {
			return T
		}
		return F
	case KHost:
		if a.x == b.x {
			return T
		}
		return F
	case KIface:
		if a.x == nil || b.x == nil {
			if a.x == b.x {
				return T
			}
			return F
		}
		x, y := a.x.(*If), b.x.(*If)
		if x.t != y.t {
			return F
		}
		switch x.v.k {
		case KSlice, KMap, KFunc:
			panic(rtPanic("comparing uncomparable type"))
		}
		return e.eq(fs, x.v, y.v)
	case KAgg:
		r := T
		x, y := a.x.([]Value), b.x.([]Value)
		for i := range x {
			r = e.c.And(r, e.eq(fs, x[i], y[i]))
		}
		return r
	}
	unsup("comparison of %v and %v", a, b)
	return F
}

func (e *Eng) sliceOp(fs *FS, ci *cins) Value {
	v := e.arg(fs, ci.args[0])
	get := func(i, def int) int {
		if ci.args[i].kind == oNone {
			return def
		}
		a := e.arg(fs, ci.args[i])
		n := e.concInt(fs, a)
		return int(int64(n))
	}
	if v.k == KStr {
		if isOpaque(v) {
			if ci.args[1].kind == oNone && ci.args[2].kind == oNone {
				return v
			}
			unsup("slicing a formatted (opaque) string")
		}
		n := strLen(v)
		lo := get(1, 0)
		hi := get(2, n)
		if hi < 0 || hi > n || lo < 0 || lo > hi {
			panic(rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n)))
		}
		return subStr(v, lo, hi)
	}
	x := ci.in.(*ssa.Slice)
	var obj *Obj
	var base, ln, cp, sz int
	if v.k == KPtr { // pointer to array
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		o, ok := v.x.(*Obj)
		if !ok {
			if v.x == nil {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			unsup("slice of symbolic array pointer")
		}
		obj, base, ln, cp = o, int(v.n), int(at.Len()), int(at.Len())
		sz = e.p.size(at.Elem())
	} else {
		sz = e.p.size(x.X.Type().Underlying().(*types.Slice).Elem())
		if v.x == nil {
			lo, hi := get(1, 0), get(2, 0)
			mx := get(3, 0)
			if lo != 0 || hi != 0 || mx != 0 {
				panic(rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity 0", lo, hi)))
			}
			return v
		}
		s := v.x.(*Sl)
		obj, base, ln, cp = s.obj, s.off, s.len, s.cap
	}
	lo := get(1, 0)
	hi := get(2, ln)
	mx := get(3, cp)
	if hi < 0 || hi > cp || lo < 0 || lo > hi || mx < hi || mx > cp {
		panic(rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cp)))
	}
	return Value{k: KSlice, x: &Sl{obj: obj, off: base + lo*sz, len: hi - lo, cap: mx - lo}}
}

func (e *Eng) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := e.implC[k]; ok {
		return r
	}
	e.p.cmu.Lock()
	r := types.Implements(t, it.Underlying().(*types.Interface))
	e.p.cmu.Unlock()
	e.implC[k] = r
	return r
}

// minLen is the length of a string, or the least length of an opaque one.
func minLen(v Value) int {
	switch x := v.x.(type) {
	case string:
		return len(x)
	case *SymStr:
		if x.opaque {
			return x.min
		}
		return len(strBytes(v))
	}
	return 0
}

func (e *Eng) typeAssert(fs *FS, ci *cins) Value {
	v := e.arg(fs, ci.args[0])
	x := ci.in.(*ssa.TypeAssert)
	ok := false
	var res Value
	if _, isI := ci.typ.Underlying().(*types.Interface); isI {
		if v.x != nil {
			i := v.x.(*If)
			if h, isH := i.v.x.(*HostObj); isH {
				ok = h.implements(ci.typ)
			} else {
				ok = e.implements(i.t, ci.typ)
			}
			res = v
		}
	} else if v.x != nil && v.x.(*If).t == ci.typ {
		ok = true
		res = v.x.(*If).v
	}
	if !ok {
		res = e.p.zero(ci.typ)
	}
	if x.CommaOk {
		return tup(res, VBoolC(ok))
	}
	if !ok {
		panic(rtPanic(fmt.Sprintf("interface conversion: not %v", ci.typ)))
	}
	return res
}

// ---------- maps ----------

func (e *Eng) mapKey(fs *FS, k Value) string {
	switch k.k {
	case KInt:
		return fmt.Sprintf("i%d", e.concInt(fs, k))
	case KBool:
		return fmt.Sprint("b", e.concBool(fs, k.B()))
	case KFloat:
		return fmt.Sprint("f", k.n)
	case KStr:
		if s, ok := k.x.(string); ok {
			return "s" + s
		}
		bs := strBytes(k)
		out := make([]byte, len(bs))
		for i, b := range bs {
			out[i] = byte(e.concInt(fs, b))
		}
		return "s" + string(out)
	case KIface:
		if k.x == nil {
			return "nil"
		}
		i := k.x.(*If)
		return fmt.Sprintf("I%p", i.t) + e.mapKey(fs, i.v)
	case KAgg:
		s := "a"
		for _, c := range k.x.([]Value) {
			s += e.mapKey(fs, c) + ","
		}
		return s
	case KPtr:
		if k.x == nil {
			return "pnil"
		}
		if o, ok := k.x.(*Obj); ok {
			return fmt.Sprintf("p%d+%d", o.id, k.n)
		}
	case KHost:
		return fmt.Sprintf("h%p", k.x)
	}
	unsup("map key %v", k)
	return ""
}

func (e *Eng) lookup(fs *FS, ci *cins) Value {
	m, k := e.arg(fs, ci.args[0]), e.arg(fs, ci.args[1])
	x := ci.in.(*ssa.Lookup)
	if m.k == KStr {
		_, sgn, _ := intInfo(x.Index.Type())
		return e.strIndex(fs, m, k, sgn)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	var res Value
	ok := false
	if m.x != nil {
		o := m.x.(*Obj)
		if e.race {
			e.logAccess(fs.st, o, 0, false)
		}
		d := fs.st.rd(o, 0).x.(*MapD)
		// symbolic integer key over a constant integer table: build a selection
		if k.k == KInt && k.x != nil {
			if v, has, done := e.mapSelect(fs, d, k, mt); done {
				if x.CommaOk {
					return tup(v, VBool(has))
				}
				return v
			}
		}
		if i, found := d.idx[e.mapKey(fs, k)]; found {
			ok = true
			res = d.vals[i]
		}
	}
	if !ok {
		res = e.p.zero(mt.Elem())
	}
	if x.CommaOk {
		return tup(res, VBoolC(ok))
	}
	return res
}

// mapSelect evaluates a lookup with a symbolic integer key when keys and values are plain integers/booleans.
func (e *Eng) mapSelect(fs *FS, d *MapD, k Value, mt *types.Map) (Value, B, bool) {
	t := e.term(k)
	z := e.p.zero(mt.Elem())
	if z.k != KInt && z.k != KBool {
		return Value{}, F, false
	}
	for _, b := range []*Bind{fs.st.bind} {
		for ; b != nil; b = b.parent {
			if b.t == t {
				return Value{}, F, false
			}
		}
	}
	res, has := z, F
	tab := map[uint64]Value{}
	simple := z.k == KInt
	for _, i := range d.idx {
		if d.keys[i].k != KInt || d.keys[i].x != nil || d.vals[i].k != z.k {
			return Value{}, F, false
		}
		tab[d.keys[i].n] = d.vals[i]
		if d.vals[i].x != nil {
			simple = false
		}
	}
	if s, ok := e.c.joint(t); ok && simple {
		vt := e.c.valTab(t, s)
		out := make([]uint64, len(vt))
		hs := make([]bool, len(vt))
		for i, v := range vt {
			if q, ok := tab[v]; ok {
				out[i], hs[i] = q.n, true
			}
		}
		return VTerm(e.c.fromValTab(s, int(z.w), out)), e.c.boolFromVals(s, hs), true
	}
	if len(tab) > 600 {
		return Value{}, F, false
	}
	for i := range d.keys {
		if j, ok := d.idx[e.mapKey(fs, d.keys[i])]; !ok || j != i {
			continue
		}
		if d.keys[i].n < t.lo || d.keys[i].n > t.hi {
			continue
		}
		c := e.c.Eq(t, e.c.Const(t.w, d.keys[i].n))
		m, ok := e.mergeVal(c, d.vals[i], res)
		if !ok {
			return Value{}, F, false
		}
		res = m
		has = e.c.Or(has, c)
	}
	return res, has, true
}

func (e *Eng) mapUpdate(fs *FS, m, k, v Value) {
	if m.x == nil {
		panic(rtPanic("assignment to entry in nil map"))
	}
	o := m.x.(*Obj)
	key := e.mapKey(fs, k)
	if e.race {
		e.logAccess(fs.st, o, 0, true)
	}
	old := fs.st.rd(o, 0).x.(*MapD)
	d := old
	if !fs.st.dense(o) || e.inInit == 0 {
		d = old.clone()
	}
	if i, ok := d.idx[key]; ok {
		d.vals[i] = v
	} else {
		d.idx[key] = len(d.keys)
		d.keys = append(d.keys, k)
		d.vals = append(d.vals, v)
		d.n++
	}
	if d != old {
		fs.st.wr(o, 0, Value{k: KHost, x: d})
	}
}

func (e *Eng) mapDelete(fs *FS, m, k Value) {
	if m.x == nil {
		return
	}
	o := m.x.(*Obj)
	key := e.mapKey(fs, k)
	if e.race {
		e.logAccess(fs.st, o, 0, true)
	}
	d := fs.st.rd(o, 0).x.(*MapD).clone()
	if _, ok := d.idx[key]; ok {
		delete(d.idx, key)
		d.n--
	}
	fs.st.wr(o, 0, Value{k: KHost, x: d})
}

// plainRune reports whether the bytes at pos are known to form a sequence of a known
// length (a lead byte and continuation bytes).
func (e *Eng) plainRune(s Value, pos int) bool {
	b := strByte(s, pos)
	if b.x != nil {
		return false
	}
	n := 1
	switch {
	case b.n >= 0xc2 && b.n < 0xe0:
		n = 2
	case b.n > 0xe0 && b.n < 0xf0 && b.n != 0xed:
		n = 3
	default:
		return false
	}
	for i := pos + 1; i < pos+n; i++ {
		if i >= strLen(s) {
			return false
		}
		b := strByte(s, i)
		if b.x == nil {
			if b.n&0xc0 != 0x80 {
				return false
			}
			continue
		}
		t := e.term(b)
		if e.c.Bit(t, 7) != T || e.c.Bit(t, 6) != F {
			return false
		}
	}
	return true
}

// vpos is an iterator position: a value that is never merged with a different one.
func vpos(n uint64) Value { return Value{k: KFloat, n: n} }

// next implements range over strings and maps.
func (e *Eng) next(fs *FS, ci *cins) []Outcome {
	it := e.arg(fs, ci.args[0]).x.(*Obj)
	v := fs.st.rd(it, 0)
	pos := int(fs.st.rd(it, 1).n)
	x := ci.in.(*ssa.Next)
	if x.IsString {
		if pos >= strLen(v) {
			return ret(fs.st, tup(VBool(F), VInt(64, 0), VInt(32, 0)))
		}
		b := strByte(v, pos)
		if b.x == nil && b.n < 0x80 {
			fs.st.wr(it, 1, vpos(uint64(pos+1)))
			return ret(fs.st, tup(VBool(T), VInt(64, uint64(pos)), VInt(32, b.n)))
		}
		if b.x != nil {
			t := e.term(b)
			if e.c.Ult(t, e.c.Const(8, 0x80)) == T {
				fs.st.wr(it, 1, vpos(uint64(pos+1)))
				return ret(fs.st, tup(VBool(T), VInt(64, uint64(pos)), VTerm(e.c.Resize(t, 32, false))))
			}
		}
		var cb []byte
		for i := pos; i < pos+4 && i < strLen(v); i++ {
			b := strByte(v, i)
			if b.x != nil {
				break
			}
			cb = append(cb, byte(b.n))
		}
		if utf8.FullRune(cb) || len(cb) == strLen(v)-pos {
			r, n := utf8.DecodeRune(cb)
			fs.st.wr(it, 1, vpos(uint64(pos+n)))
			return ret(fs.st, tup(VBool(T), VInt(64, uint64(pos)), VInt(32, uint64(uint32(r)))))
		}
		hf := fs
		if !e.plainRune(v, pos) {
			hf = fs.fork() // concInt below needs fs intact
		}
		outs := e.callHelper(hf, "vxrtDecode", []Value{v, VInt(64, uint64(pos))})
		for i := range outs {
			if outs[i].kind != oRet {
				continue
			}
			r := outs[i].val.x.([]Value)
			n := r[1]
			if n.x != nil {
				n = VInt(64, e.concInt(fs, n))
			}
			outs[i].st.wr(it, 1, vpos(uint64(pos)+n.n))
			outs[i].val = tup(VBool(T), VInt(64, uint64(pos)), r[0])
		}
		return outs
	}
	if v.x == nil {
		return ret(fs.st, tup(VBool(F), Value{}, Value{}))
	}
	snap := fs.st.rd(it, 2).x.(*MapD)
	cur := fs.st.rd(v.x.(*Obj), 0).x.(*MapD)
	for pos < len(snap.keys) {
		k := snap.keys[pos]
		key := e.mapKey(fs, k)
		if i, ok := cur.idx[key]; ok && snap.idx[key] == pos {
			fs.st.wr(it, 1, vpos(uint64(pos+1)))
			return ret(fs.st, tup(VBool(T), k, cur.vals[i]))
		}
		pos++
	}
	fs.st.wr(it, 1, vpos(uint64(pos)))
	mt := x.Type().(*types.Tuple)
	return ret(fs.st, tup(VBool(F), e.zeroOr(mt.At(1).Type()), e.zeroOr(mt.At(2).Type())))
}

func (e *Eng) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return e.p.zero(t)
}

func (e *Eng) callHelper(fs *FS, name string, args []Value) []Outcome {
	for _, sp := range e.p.pkgs {
		if f := sp.Func(name); f != nil {
			return e.runFrame(f, args, nil, fs.st, fs.fr)
		}
	}
	unsup("helper %s not loaded", name)
	return nil
}

// ---------- conversions ----------

func (e *Eng) convert(fs *FS, ci *cins) []Outcome {
	x := ci.in.(ssa.Value)
	var from types.Type
	switch q := ci.in.(type) {
	case *ssa.Convert:
		from = q.X.Type()
	case *ssa.MultiConvert:
		from = q.X.Type()
	}
	to := x.Type()
	v := e.arg(fs, ci.args[0])
	set := func(r Value) []Outcome {
		fs.regs[ci.dst] = r
		return nil
	}
	fu, tu := from.Underlying(), to.Underlying()
	if tw, _, ok := intInfo(to); ok {
		if _, fsgn, ok := intInfo(from); ok {
			if v.x == nil {
				n := v.n
				if fsgn {
					n = uint64(sx(n, int(v.w)))
				}
				return set(VInt(tw, n))
			}
			if v.k != KInt {
				unsup("conversion of pointer to integer")
			}
			return set(VTerm(e.c.Resize(e.term(v), tw, fsgn)))
		}
		if v.k == KFloat {
			f := fval(v)
			_, tsgn, _ := intInfo(to)
			if tsgn {
				return set(VInt(tw, uint64(int64(f))))
			}
			return set(VInt(tw, uint64(f)))
		}
		if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			unsup("uintptr of pointer")
		}
	}
	tb, _ := tu.(*types.Basic)
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		if v.k == KFloat {
			return set(mkF(fval(v), fw(to)))
		}
		_, fsgn, _ := intInfo(from)
		n := e.concInt(fs, v)
		if fsgn {
			return set(mkF(float64(sx(n, int(v.w))), fw(to)))
		}
		return set(mkF(float64(n), fw(to)))
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch f := fu.(type) {
		case *types.Slice:
			if w, _, _ := intInfo(f.Elem()); w == 8 {
				return set(mkStr(e.slBytes(fs, v)))
			}
			return e.callHelper(fs, "vxrtRunesToString", []Value{v})
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return set(v)
			}
			if f.Info()&types.IsInteger != 0 {
				_, s, _ := intInfo(from)
				if v.x == nil {
					n := v.n
					if s {
						n = uint64(sx(n, int(v.w)))
					}
					if n > 0x10ffff {
						n = 0xfffd
					}
					return set(VStr(string(rune(n))))
				}
				r := v
				if v.w != 32 {
					r = VTerm(e.c.Resize(e.term(v), 32, s))
					big := e.c.Ult(e.c.Const(64, 0x10ffff), e.c.Resize(e.term(v), 64, s))
					if v.w > 32 && e.concBool(fs, big) {
						r = VInt(32, 0xfffd)
					}
				}
				return e.callHelper(fs, "vxrtRuneToString", []Value{r})
			}
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if w, _, _ := intInfo(sl.Elem()); w == 8 {
				return set(e.mkSlice(fs.st, strBytes(v), "[]byte(string)"))
			}
			if s, ok := v.x.(string); ok {
				var vs []Value
				for _, r := range s {
					vs = append(vs, VInt(32, uint64(r)))
				}
				return set(e.mkSlice(fs.st, vs, "[]rune(string)"))
			}
			return e.callHelper(fs, "vxrtStringToRunes", []Value{v})
		}
		return set(v)
	}
	if _, ok := tu.(*types.Pointer); ok {
		return set(v)
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return set(v)
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

// ---------- builtins ----------

func (e *Eng) builtin(fs *FS, t target, args []Value, ci *cins) []Outcome {
	st := fs.st
	switch t.builtin {
	case "len":
		v := args[0]
		switch v.k {
		case KStr:
			return ret(st, VInt(64, uint64(strLen(v))))
		case KSlice:
			if v.x == nil {
				return ret(st, VInt(64, 0))
			}
			return ret(st, VInt(64, uint64(v.x.(*Sl).len)))
		case KMap:
			if v.x == nil {
				return ret(st, VInt(64, 0))
			}
			return ret(st, VInt(64, uint64(st.rd(v.x.(*Obj), 0).x.(*MapD).n)))
		case KChan:
			if v.x == nil {
				return ret(st, VInt(64, 0))
			}
			return ret(st, VInt(64, uint64(len(st.rd(v.x.(*Obj), 0).x.(*ChanD).q))))
		}
		switch u := t.cc.Args[0].Type().Underlying().(type) {
		case *types.Array:
			return ret(st, VInt(64, uint64(u.Len())))
		case *types.Pointer:
			return ret(st, VInt(64, uint64(u.Elem().Underlying().(*types.Array).Len())))
		}
	case "cap":
		v := args[0]
		switch v.k {
		case KSlice:
			if v.x == nil {
				return ret(st, VInt(64, 0))
			}
			return ret(st, VInt(64, uint64(v.x.(*Sl).cap)))
		case KChan:
			if v.x == nil {
				return ret(st, VInt(64, 0))
			}
			return ret(st, VInt(64, uint64(st.rd(v.x.(*Obj), 0).x.(*ChanD).cap)))
		}
		switch u := t.cc.Args[0].Type().Underlying().(type) {
		case *types.Array:
			return ret(st, VInt(64, uint64(u.Len())))
		case *types.Pointer:
			return ret(st, VInt(64, uint64(u.Elem().Underlying().(*types.Array).Len())))
		}
	case "append":
		sz := e.p.size(t.cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return ret(st, e.appendOp(fs, args[0], args[1], sz, int(goSizes.Sizeof(t.cc.Args[0].Type().Underlying().(*types.Slice).Elem()))))
	case "copy":
		dst := args[0]
		if dst.x == nil {
			return ret(st, VInt(64, 0))
		}
		d := dst.x.(*Sl)
		var src []Value
		sz := e.p.size(t.cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		n := d.len
		if args[1].k == KStr {
			b := strBytes(args[1])
			n = min(n, len(b))
			src = b[:n]
		} else {
			if args[1].x == nil {
				return ret(st, VInt(64, 0))
			}
			s := args[1].x.(*Sl)
			n = min(n, s.len)
			src = make([]Value, n*sz)
			for i := range src {
				if e.race {
					e.logAccess(st, s.obj, s.off+i, false)
				}
				src[i] = st.rd(s.obj, s.off+i)
			}
		}
		for i, v := range src {
			if e.race {
				e.logAccess(st, d.obj, d.off+i, true)
			}
			st.wr(d.obj, d.off+i, v)
		}
		return ret(st, VInt(64, uint64(n)))
	case "delete":
		e.mapDelete(fs, args[0], args[1])
		return ret(st, Value{})
	case "clear":
		if args[0].k == KMap {
			if args[0].x != nil {
				st.wr(args[0].x.(*Obj), 0, Value{k: KHost, x: &MapD{idx: map[string]int{}}})
			}
			return ret(st, Value{})
		}
		if args[0].x != nil {
			s := args[0].x.(*Sl)
			et := t.cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := e.p.zeroCells(et, nil)
			for i := 0; i < s.len; i++ {
				for j, c := range z {
					st.wr(s.obj, s.off+i*len(z)+j, c)
				}
			}
		}
		return ret(st, Value{})
	case "close":
		if args[0].x == nil {
			panic(rtPanic("close of nil channel"))
		}
		o := args[0].x.(*Obj)
		d := *st.rd(o, 0).x.(*ChanD)
		if d.closed {
			panic(rtPanic("close of closed channel"))
		}
		st.woken(o)
		d.closed = true
		st.wr(o, 0, Value{k: KHost, x: &d})
		e.release(st, cellKey{o, 0})
		return ret(st, Value{})
	case "recover":
		if st.pan != nil && !st.pan.recovered {
			p := *st.pan
			p.recovered = true
			st.pan = &p
			return ret(st, p.val)
		}
		return ret(st, Value{k: KIface})
	case "print", "println":
		return ret(st, Value{})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if r.k == KFloat {
				if t.builtin == "min" {
					r = mkF(math.Min(fval(r), fval(a)), r.w)
				} else {
					r = mkF(math.Max(fval(r), fval(a)), r.w)
				}
				continue
			}
			if r.k != KInt {
				unsup("%s of %v", t.builtin, r)
			}
			_, sgn, _ := intInfo(t.cc.Args[0].Type())
			lt := e.intop(fs, token.LSS, a, r, sgn).B()
			if t.builtin == "max" {
				lt = e.intop(fs, token.LSS, r, a, sgn).B()
			}
			m, _ := e.mergeVal(lt, a, r)
			r = m
		}
		return ret(st, r)
	case "ssa:wrapnilchk":
		if args[0].x == nil {
			panic(rtPanic("value method called using nil pointer"))
		}
		return ret(st, args[0])
	case "SliceData":
		if args[0].x == nil {
			return ret(st, Value{k: KPtr})
		}
		s := args[0].x.(*Sl)
		return ret(st, Value{k: KPtr, x: s.obj, n: uint64(s.off)})
	case "String":
		n := int(e.concInt(fs, args[1]))
		if n == 0 {
			return ret(st, VStr(""))
		}
		o := args[0].x.(*Obj)
		bs := make([]Value, n)
		for i := range bs {
			bs[i] = st.rd(o, int(args[0].n)+i)
		}
		return ret(st, mkStr(bs))
	case "StringData":
		bs := strBytes(args[0])
		v := e.mkSlice(st, bs, "StringData")
		return ret(st, Value{k: KPtr, x: v.x.(*Sl).obj})
	case "Slice":
		n := int(e.concInt(fs, args[1]))
		if args[0].x == nil {
			return ret(st, Value{k: KSlice})
		}
		return ret(st, Value{k: KSlice, x: &Sl{obj: args[0].x.(*Obj), off: int(args[0].n), len: n, cap: n}})
	}
	unsup("builtin %s", t.builtin)
	return nil
}

func (e *Eng) appendOp(fs *FS, a, b Value, sz, esz int) Value {
	st := fs.st
	var add []Value
	if b.k == KStr {
		add = strBytes(b)
	} else if b.x != nil {
		s := b.x.(*Sl)
		add = make([]Value, s.len*sz)
		for i := range add {
			if e.race {
				e.logAccess(st, s.obj, s.off+i, false)
			}
			add[i] = st.rd(s.obj, s.off+i)
		}
	}
	n := 0
	if sz > 0 {
		n = len(add) / sz
	} else if b.x != nil {
		n = b.x.(*Sl).len
	}
	if a.x == nil {
		if n == 0 {
			return a
		}
		nc := growCap(n, 0, esz)
		o := e.newObj(st, nc*sz, "append")
		copy(o.cells, add)
		for i := n * sz; i < nc*sz; i++ {
			o.cells[i] = zeroLike(o.cells[i%sz])
		}
		return Value{k: KSlice, x: &Sl{obj: o, len: n, cap: nc}}
	}
	s := a.x.(*Sl)
	if n == 0 {
		return a
	}
	if s.len+n <= s.cap {
		for i, v := range add {
			if e.race {
				e.logAccess(st, s.obj, s.off+s.len*sz+i, true)
			}
			st.wr(s.obj, s.off+s.len*sz+i, v)
		}
		return Value{k: KSlice, x: &Sl{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap}}
	}
	nc := growCap(s.len+n, s.cap, esz)
	o := e.newObj(st, nc*sz, "append")
	for i := 0; i < s.len*sz; i++ {
		if e.race {
			e.logAccess(st, s.obj, s.off+i, false)
		}
		o.cells[i] = st.rd(s.obj, s.off+i)
	}
	copy(o.cells[s.len*sz:], add)
	if nc*sz > (s.len+n)*sz {
		// zero the spare capacity like the zero value of the element type
		for i := (s.len + n) * sz; i < nc*sz; i++ {
			o.cells[i] = zeroLike(o.cells[i%sz])
		}
	}
	return Value{k: KSlice, x: &Sl{obj: o, len: s.len + n, cap: nc}}
}

func zeroLike(v Value) Value {
	switch v.k {
	case KInt:
		return VInt(int(v.w), 0)
	case KBool:
		return VBool(F)
	case KFloat:
		return Value{k: KFloat, w: v.w}
	case KStr:
		return VStr("")
	}
	return Value{k: v.k}
}

var goSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors the Go runtime's slice growth.
func growCap(newLen, oldCap, esz int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	b := nc * esz
	for _, c := range sizeClasses {
		if b <= c {
			return c / esz
		}
	}
	return (b + 8191) / 8192 * 8192 / esz
}
