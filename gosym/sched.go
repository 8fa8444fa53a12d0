package main

// Goroutines, channels, wait groups, vector clocks and race detection.
// Goroutines are queued and run to completion when another thread blocks; the
// order in which messages of concurrent senders arrive is a symbolic choice,
// and data races (which would make the run-to-completion order matter) are
// detected with vector clocks.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	t    target
	args []Value
	tid  int
	up   int // the goroutine that started it
	pos  string
}

type Threads struct {
	pend []gor
	vc   [][]int32
	sync map[cellKey][]int32
	over []*Obj
	park []*Obj // channels that parked goroutines wait for
}

type access struct {
	tid   int
	clk   int32
	write bool
	pc    *PC
	pos   string
}

func (t *Threads) clone() *Threads {
	n := &Threads{pend: append([]gor(nil), t.pend...), vc: append([][]int32(nil), t.vc...), over: append([]*Obj(nil), t.over...), park: append([]*Obj(nil), t.park...), sync: make(map[cellKey][]int32, len(t.sync))}
	for k, v := range t.sync {
		n.sync[k] = v
	}
	return n
}

func eqI32(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func thEq(a, b *Threads) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || len(a.pend) != len(b.pend) || len(a.vc) != len(b.vc) || len(a.sync) != len(b.sync) || len(a.over) != len(b.over) || len(a.park) != len(b.park) {
		return false
	}
	for i := range a.pend {
		if a.pend[i].tid != b.pend[i].tid || a.pend[i].t.f != b.pend[i].t.f {
			return false
		}
		// closures and arguments must be identical
		x, y := a.pend[i], b.pend[i]
		if len(x.args) != len(y.args) || len(x.t.bind) != len(y.t.bind) {
			return false
		}
		for j := range x.args {
			if !sameVal(x.args[j], y.args[j]) {
				return false
			}
		}
		for j := range x.t.bind {
			if !sameVal(x.t.bind[j], y.t.bind[j]) {
				return false
			}
		}
	}
	for i := range a.vc {
		if !eqI32(a.vc[i], b.vc[i]) {
			return false
		}
	}
	for k, v := range a.sync {
		if !eqI32(v, b.sync[k]) {
			return false
		}
	}
	for i := range a.park {
		if a.park[i] != b.park[i] {
			return false
		}
	}
	for i := range a.over {
		if a.over[i] != b.over[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Value) bool {
	if a.k != b.k || a.n != b.n {
		return false
	}
	switch a.k {
	case KSlice, KIface, KAgg, KTuple, KHost, KStr:
		if a.k == KIface && a.x != nil && b.x != nil {
			return a.x.(*If).t == b.x.(*If).t && sameVal(a.x.(*If).v, b.x.(*If).v)
		}
		if a.k == KSlice && a.x != nil && b.x != nil {
			return *a.x.(*Sl) == *b.x.(*Sl)
		}
		if s, ok := a.x.(string); ok {
			t, ok := b.x.(string)
			return ok && s == t
		}
		if x, ok := a.x.([]Value); ok {
			y, ok := b.x.([]Value)
			if !ok || len(x) != len(y) {
				return false
			}
			for i := range x {
				if !sameVal(x[i], y[i]) {
					return false
				}
			}
			return true
		}
	}
	return a.x == b.x
}

func joinVC(a, b []int32) []int32 {
	n := make([]int32, max(len(a), len(b)))
	copy(n, a)
	for i, x := range b {
		if x > n[i] {
			n[i] = x
		}
	}
	return n
}

func (st *State) threads() *Threads {
	if st.th == nil {
		return &Threads{vc: [][]int32{{1}}, sync: map[cellKey][]int32{}}
	}
	return st.th.clone()
}

func (t *Threads) tick(tid int) {
	v := append([]int32(nil), t.vc[tid]...)
	for len(v) <= tid {
		v = append(v, 0)
	}
	v[tid]++
	t.vc[tid] = v
}

func (e *Eng) spawn(st *State, t target, args []Value, pos string) {
	th := st.threads()
	tid := len(th.vc)
	child := append([]int32(nil), th.vc[st.cur]...)
	for len(child) <= tid {
		child = append(child, 0)
	}
	child[tid] = 1
	th.vc = append(th.vc, child)
	th.tick(st.cur)
	th.pend = append(th.pend, gor{t: t, args: args, tid: tid, up: st.cur, pos: pos})
	st.th = th
}

// release publishes the current thread's clock on key.
func (e *Eng) release(st *State, k cellKey) {
	if st.th == nil {
		return
	}
	th := st.th.clone()
	th.sync[k] = joinVC(th.sync[k], th.vc[st.cur])
	th.tick(st.cur)
	st.th = th
}

func (e *Eng) acquire(st *State, k cellKey) {
	if st.th == nil {
		return
	}
	if v, ok := st.th.sync[k]; ok {
		th := st.th.clone()
		th.vc[st.cur] = joinVC(th.vc[st.cur], v)
		st.th = th
	}
}

func (st *State) npend() int {
	if st.th == nil {
		return 0
	}
	return len(st.th.pend)
}

// pick chooses the queued goroutine to run next under the state's schedule policy:
// 0 oldest first, 1 newest first, k>=2 rotated by k.
func (st *State) pick() int {
	n := st.npend()
	switch {
	case n == 0 || st.pol == 0:
		return 0
	case st.pol == 1:
		return n - 1
	}
	return st.pol % n
}

// runPending runs the i-th queued goroutine to completion.
func (e *Eng) runPending(fs *FS, st *State, i int) []Outcome {
	th := st.th.clone()
	g := th.pend[i]
	th.pend = append(append([]gor(nil), th.pend[:i]...), th.pend[i+1:]...)
	st.th = th
	cur, pan := st.cur, st.pan
	st.cur, st.pan = g.tid, nil
	shim := *fs
	shim.st = st
	outs := e.invokeCatch(&shim, g.t, g.args)
	for j := range outs {
		o := &outs[j]
		switch o.kind {
		case oRet:
			o.st.cur = cur
			o.st.pan = pan
		case oExit:
			if o.msg == parked || o.msg == asleep {
				o.st.cur = cur
				o.st.pan = pan
			}
		case oPanic:
			o.kind = oExit
			o.msg = "panic in goroutine: " + o.msg
		}
	}
	return outs
}

func (e *Eng) invokeCatch(fs *FS, t target, args []Value) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case rtPanic:
				outs = []Outcome{{st: fs.st, kind: oPanic, msg: "runtime error: " + string(x)}}
			default:
				panic(r)
			}
		}
	}()
	return e.invoke(fs, t, args, nil)
}

// drain runs queued goroutines until none is left or stop(st) holds; done is applied to every
// resulting state. A goroutine that comes to wait for something is put back: it is started
// later, when another one has run. If each of them waits, the first one is run up to there.
// A goroutine that runs while two others wait lets only those run that it started.
func (e *Eng) drain(fs *FS, st *State, stop func(*State) bool, done func(*State) []Outcome) []Outcome {
	n := st.npend()
	if stop(st) || n == 0 {
		return done(st)
	}
	goon := func(outs []Outcome) []Outcome {
		var res []Outcome
		for _, o := range outs {
			if o.kind == oExit && (o.msg == parked || o.msg == asleep) {
				o.kind, o.msg = oRet, ""
			}
			if o.kind != oRet {
				res = append(res, o)
				continue
			}
			res = append(res, e.drain(fs, o.st, stop, done)...)
		}
		return res
	}
	first := st.pick()
	some := -1
	for k := 0; k < n; k++ {
		i := (first + k) % n
		if e.trial >= 2 && st.th.pend[i].up != st.cur {
			continue
		}
		saved := st.fork()
		outs := e.try(fs, st, i)
		waits := 0
		for _, o := range outs {
			if o.kind == oExit && o.msg == parked {
				waits++
			}
		}
		if waits == 0 {
			saved.kill()
			return goon(outs)
		}
		if waits < len(outs) {
			unsup("a goroutine that waits in some cases only")
		}
		for _, o := range outs {
			o.st.kill()
		}
		st = saved
		if some < 0 {
			some = i
		}
	}
	if some < 0 || e.trial > 0 {
		return done(st)
	}
	return goon(e.try(fs, st, some))
}

func (e *Eng) try(fs *FS, st *State, i int) []Outcome {
	e.trial++
	defer func() { e.trial-- }()
	return e.runPending(fs, st, i)
}

// parked ends a goroutine that waits for what nothing gives it yet. Should one of the
// channels be used again the execution is given up.
const parked = "parked"

// asleep ends a goroutine that waits for ever.
const asleep = "asleep"

func deadlock(st *State, pos string, forever bool, chs ...*Obj) []Outcome {
	if st.cur != 0 {
		if len(chs) == 0 && !forever {
			unsup("a goroutine that waits at %s", pos)
		}
		if len(chs) == 0 {
			return []Outcome{{st: st, kind: oExit, msg: asleep, pos: pos}}
		}
		th := st.threads()
		th.park = append(th.park, chs...)
		st.th = th
		return []Outcome{{st: st, kind: oExit, msg: parked, pos: pos}}
	}
	return []Outcome{{st: st, kind: oExit, msg: "deadlock: all goroutines are asleep", pos: pos}}
}

func (st *State) woken(o *Obj) {
	if st.th != nil {
		for _, p := range st.th.park {
			if p == o {
				unsup("use of a channel that a parked goroutine waits for")
			}
		}
	}
}

// sel executes a select. Without a default case the queued goroutines run first. Which of
// several ready cases is taken is a symbolic choice.
func (e *Eng) sel(fs *FS, ci *cins) []Outcome {
	x := ci.in.(*ssa.Select)
	pos := e.p.pos(ci.in)
	done := func(st *State) []Outcome {
		shim := *fs
		shim.st = st
		var ready []int
		var chs []*Obj
		for i, s := range x.States {
			ch := e.arg(&shim, ci.args[2*i])
			if ch.x == nil {
				continue
			}
			o := ch.x.(*Obj)
			d := st.rd(o, 0).x.(*ChanD)
			if s.Dir == types.SendOnly {
				if d.closed || d.cap > 0 && len(d.q) < d.cap || d.cap == 0 && x.Blocking {
					ready = append(ready, i)
				}
				continue
			}
			chs = append(chs, o)
			if len(d.q) > 0 || d.closed {
				ready = append(ready, i)
			}
		}
		out := func(i int, ok bool, v Value) []Outcome {
			vals := []Value{VInt(64, uint64(int64(i))), VBoolC(ok)}
			for j, s := range x.States {
				if s.Dir == types.RecvOnly {
					w := e.p.zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
					if i == j {
						w = v
					}
					vals = append(vals, w)
				}
			}
			return ret(st, tup(vals...))
		}
		if len(ready) == 0 {
			if !x.Blocking {
				return out(-1, false, Value{})
			}
			return deadlock(st, pos, true, chs...)
		}
		i := ready[0]
		if len(ready) > 1 && e.job != nil && e.job.Order && st.pol != 0 {
			in, _ := e.c.NewInput(fmt.Sprintf("order%d", e.nOrder), 8, 0, uint64(len(ready)-1), false)
			in.Sched = true
			e.nOrder++
			i = ready[e.concInt(&shim, VTerm(in.Term))]
		}
		if x.States[i].Dir == types.SendOnly {
			e.send(&shim, e.arg(&shim, ci.args[2*i]), e.arg(&shim, ci.args[2*i+1]))
			return out(i, false, Value{})
		}
		ch := e.arg(&shim, ci.args[2*i])
		v, ok := e.take(&shim, ch.x.(*Obj), e.p.zero(x.States[i].Chan.Type().Underlying().(*types.Chan).Elem()))
		return out(i, ok, v)
	}
	if !x.Blocking {
		return done(fs.st)
	}
	return e.drain(fs, fs.st, func(*State) bool { return false }, done)
}

// take removes a message from a channel that has one or is closed.
func (e *Eng) take(fs *FS, o *Obj, zero Value) (Value, bool) {
	st := fs.st
	d := *st.rd(o, 0).x.(*ChanD)
	if len(d.q) == 0 {
		e.acquire(st, cellKey{o, 0})
		return zero, false
	}
	m, rest := e.pickMsg(fs, d.q)
	d.q = rest
	st.wr(o, 0, Value{k: KHost, x: &d})
	if st.th != nil && m.vc != nil {
		th := st.th.clone()
		th.vc[st.cur] = joinVC(th.vc[st.cur], m.vc)
		st.th = th
	}
	return m.v, true
}

func (e *Eng) send(fs *FS, ch, v Value) {
	st := fs.st
	if ch.x == nil {
		unsup("send on nil channel")
	}
	o := ch.x.(*Obj)
	st.woken(o)
	d := *st.rd(o, 0).x.(*ChanD)
	if d.closed {
		panic(rtPanic("send on closed channel"))
	}
	var vc []int32
	if st.th != nil {
		vc = st.th.vc[st.cur]
	}
	d.q = append(append([]msg(nil), d.q...), msg{v: v, tid: st.cur, vc: vc})
	if len(d.q) > d.cap {
		th := st.threads()
		th.over = append(th.over, o)
		st.th = th
	}
	st.wr(o, 0, Value{k: KHost, x: &d})
	if st.th != nil {
		th := st.th.clone()
		th.tick(st.cur)
		st.th = th
	}
}

func (e *Eng) recv(fs *FS, ci *cins) []Outcome {
	chv := e.arg(fs, ci.args[0])
	if chv.x == nil {
		return deadlock(fs.st, e.p.pos(ci.in), true)
	}
	o := chv.x.(*Obj)
	commaOk := ci.in.(*ssa.UnOp).CommaOk
	wrap := func(v Value, ok bool) Value {
		if commaOk {
			return tup(v, VBoolC(ok))
		}
		return v
	}
	pos := e.p.pos(ci.in)
	zero := e.p.zero(chanElem(ci))
	return e.drain(fs, fs.st, func(*State) bool { return false }, func(st *State) []Outcome {
		d := st.rd(o, 0).x.(*ChanD)
		if len(d.q) == 0 && !d.closed {
			return deadlock(st, pos, true, o)
		}
		shim := *fs
		shim.st = st
		v, ok := e.take(&shim, o, zero)
		return ret(st, wrap(v, ok))
	})
}

// hbBefore: was message a sent (happens-)before message b was sent?
func hbBefore(a, b msg) bool {
	if a.vc == nil || b.vc == nil || a.tid < 0 || b.tid < 0 {
		return a.tid == b.tid && a.tid >= 0
	}
	if a.tid == b.tid {
		return a.vc[a.tid] <= b.vc[b.tid]
	}
	return a.tid < len(b.vc) && b.vc[a.tid] >= a.vc[a.tid]
}

// pickMsg removes one of the messages that may arrive first.
func (e *Eng) pickMsg(fs *FS, q []msg) (msg, []msg) {
	n := 0
	for ; n < len(q); n++ {
		ok := true
		for j := 0; j < len(q); j++ {
			if j < n && hbBefore(q[j], q[n]) {
				ok = false
			}
		}
		if !ok {
			break
		}
	}
	// messages 0..n-1 are pairwise unordered prefixes; only they may come first
	if n <= 1 || e.job == nil || !e.job.Order || fs.st.pol == 0 {
		return q[0], append([]msg(nil), q[1:]...)
	}
	name := fmt.Sprintf("order%d", e.nOrder)
	var t *BV
	if in, ok := e.c.inByNm[name]; ok {
		t = in.Term
	} else {
		in, _ := e.c.NewInput(name, 8, 0, uint64(n-1), false)
		in.Sched = true
		t = in.Term
	}
	res := q[n-1]
	for i := n - 2; i >= 0; i-- {
		m, ok := e.mergeVal(e.c.Eq(t, e.c.Const(8, uint64(i))), q[i].v, res.v)
		if !ok {
			k := int(e.concInt(fs, VTerm(t)))
			rest := append([]msg(nil), q[:k]...)
			e.nOrder++
			return q[k], append(rest, q[k+1:]...)
		}
		res = msg{v: m, tid: -1, vc: joinVC(res.vc, q[i].vc)}
	}
	var rest []msg
	for j := 0; j < len(q)-1; j++ {
		if j >= n-1 {
			rest = append(rest, q[j+1])
			continue
		}
		// shifted when the picked index is <= j
		c := e.c.Ult(e.c.Const(8, uint64(j)), t).not()
		m, ok := e.mergeVal(c, q[j+1].v, q[j].v)
		if !ok {
			unsup("unmergeable channel messages")
		}
		rest = append(rest, msg{v: m, tid: -1, vc: joinVC(q[j].vc, q[j+1].vc)})
	}
	e.nOrder++
	return res, rest
}

// logAccess records a memory access and reports races with concurrent accesses.
func (e *Eng) logAccess(st *State, o *Obj, off int, write bool) {
	if st.th == nil || e.inInit > 0 || strings.Contains(o.name, ".vxNode") || strings.Contains(o.name, ".vxHandle") {
		return // (these stand for the file system)
	}
	k := cellKey{o, off}
	vc := st.th.vc[st.cur]
	l := e.shadow[k]
	for i := range l {
		a := &l[i]
		if a.tid == st.cur || !(a.write || write) {
			continue
		}
		if a.tid < len(vc) && vc[a.tid] >= a.clk {
			continue
		}
		// concurrent conflicting accesses; same execution?
		lp := lcaPC(a.pc, st.pc)
		if e.c.And(e.suffix(a.pc, lp), e.suffix(st.pc, lp)) == F {
			continue
		}
		pos := ""
		if e.curfs != nil {
			pos = e.fsPos(e.curfs)
		}
		key := a.pos + " / " + pos + " (" + o.name + ")"
		if !e.races[key] {
			e.races[key] = true
			cond := e.suffix(a.pc, lp)
			e.violate(st, cond, "data race", key)
		}
	}
	for i := range l {
		a := &l[i]
		if a.tid == st.cur && a.write == write {
			a.clk = vc[st.cur]
			a.pc = st.pc
			return
		}
	}
	pos := ""
	if e.curfs != nil {
		pos = e.fsPos(e.curfs)
	}
	e.shadow[k] = append(l, access{tid: st.cur, clk: vc[st.cur], write: write, pc: st.pc, pos: pos})
}

func chanElem(ci *cins) types.Type {
	u := ci.in.(*ssa.UnOp)
	return u.X.Type().Underlying().(*types.Chan).Elem()
}
