package main

// Loading of /repo with harness overlays, SSA construction, and per-function
// compilation (register numbering, liveness, loop structure).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type Prog struct {
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package
	fset  *token.FileSet
	mu    sync.Mutex
	fns   map[*ssa.Function]*cfn
	sizes sync.Map
	canon typeutil.Map
	cmu   sync.Mutex
	built map[*ssa.Package]bool
	root  string // repo dir
	impls map[types.Type][]types.Type

	scoreOnce sync.Once
	scoreF    []*ssa.Function
}

type operand struct {
	kind uint8 // 0 none, 1 reg, 2 const, 3 global, 4 builtin
	i    int32
}

const (
	oNone uint8 = iota
	oReg
	oConst
	oGlobal
)

type cins struct {
	in   ssa.Instruction
	dst  int32
	args []operand
	// precomputed
	op   uint8
	w    uint8 // operand width
	sgn  bool
	sz   int
	off  int
	typ  types.Type
	fn   *ssa.Function
	name string
}

type cblk struct {
	b     *ssa.BasicBlock
	ins   []cins
	phis  []cphi
	succs []int
	live  []int32 // live-in registers at block entry (after phis)
	loops []int   // enclosing loop headers, outer first
	ord   int
}
type cphi struct {
	dst  int32
	args []operand // per predecessor index
}

type cfn struct {
	f      *ssa.Function
	blks   []cblk
	nreg   int
	consts []Value
	globs  []*ssa.Global
	params []int32
	fvs    []int32
	rets   int
	hasDef bool
	cheap  bool
}

func loadProg(dir string, overlay map[string][]byte, env []string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	p := &Prog{ssa: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset, fns: map[*ssa.Function]*cfn{}, built: map[*ssa.Package]bool{}, root: dir}
	p.canon.SetHasher(typeutil.MakeHasher())
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	return p, nil
}

// ctype returns the canonical pointer of an identical type.
func (p *Prog) ctype(t types.Type) types.Type {
	t = types.Unalias(t)
	p.cmu.Lock()
	defer p.cmu.Unlock()
	if c := p.canon.At(t); c != nil {
		return c.(types.Type)
	}
	p.canon.Set(t, t)
	return t
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (p *Prog) size(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v, ok := p.sizes.Load(t); ok {
			return v.(int)
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += p.size(u.Field(i).Type())
		}
		p.sizes.Store(t, n)
		return n
	case *types.Array:
		return int(u.Len()) * p.size(u.Elem())
	case *types.Tuple:
		return u.Len()
	}
	return 1
}

func (p *Prog) fieldOff(s *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += p.size(s.Field(j).Type())
	}
	return n
}

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return 0, false, false
}

func (p *Prog) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return VInt(w, 0)
		}
		switch {
		case u.Kind() == types.UnsafePointer:
			return Value{k: KPtr}
		case u.Info()&types.IsBoolean != 0:
			return VBool(F)
		case u.Info()&types.IsString != 0:
			return VStr("")
		case u.Info()&types.IsFloat != 0:
			return Value{k: KFloat}
		}
		if u.Kind() == types.UntypedNil {
			return Value{k: KPtr}
		}
		return Value{k: KUndef}
	case *types.Pointer:
		return Value{k: KPtr}
	case *types.Slice:
		return Value{k: KSlice}
	case *types.Interface:
		return Value{k: KIface}
	case *types.Signature:
		return Value{k: KFunc}
	case *types.Map:
		return Value{k: KMap}
	case *types.Chan:
		return Value{k: KChan}
	case *types.Struct, *types.Array:
		return Value{k: KAgg, x: p.zeroCells(t, nil)}
	case *types.Tuple:
		var out []Value
		for i := 0; i < u.Len(); i++ {
			out = append(out, p.zero(u.At(i).Type()))
		}
		return Value{k: KTuple, x: out}
	}
	return Value{k: KUndef}
}

func (p *Prog) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = p.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if !isAgg(u.Elem()) {
			z := p.zero(u.Elem())
			for i := 0; i < n; i++ {
				out = append(out, z)
			}
			return out
		}
		for i := 0; i < n; i++ {
			out = p.zeroCells(u.Elem(), out)
		}
		return out
	}
	return append(out, p.zero(t))
}

func (p *Prog) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _, ok := intInfo(t); ok {
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return VInt(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return VInt(w, u)
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return VBoolC(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return VStr(constant.StringVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return Value{k: KFloat, n: math.Float64bits(f), w: fw(t)}
		}
	}
	// typed constant of a type parameter instance or similar
	return Value{k: KUndef}
}

func fw(t types.Type) uint8 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

// body builds the package of f if needed and returns the compiled function, or nil when f has no body.
func (p *Prog) body(f *ssa.Function) *cfn {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c, ok := p.fns[f]; ok {
		return c
	}
	if f.Blocks == nil {
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if pk == nil && f.Object() != nil && f.Object().Pkg() != nil {
			pk = p.ssa.Package(f.Object().Pkg())
		}
		if pk != nil && !p.built[pk] {
			p.built[pk] = true
			pk.Build()
		}
	}
	if f.Blocks == nil {
		p.fns[f] = nil
		return nil
	}
	c := p.compile(f)
	p.fns[f] = c
	return c
}

func (p *Prog) build(pk *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

func (p *Prog) compile(f *ssa.Function) *cfn {
	c := &cfn{f: f}
	reg := map[ssa.Value]int32{}
	nr := int32(0)
	add := func(v ssa.Value) int32 {
		reg[v] = nr
		nr++
		return nr - 1
	}
	for _, q := range f.Params {
		c.params = append(c.params, add(q))
	}
	for _, q := range f.FreeVars {
		c.fvs = append(c.fvs, add(q))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nreg = int(nr)
	constIdx := map[ssa.Value]int32{}
	mk := func(v ssa.Value) operand {
		if v == nil {
			return operand{}
		}
		if r, ok := reg[v]; ok {
			return operand{oReg, r}
		}
		if i, ok := constIdx[v]; ok {
			if _, g := v.(*ssa.Global); g {
				return operand{oGlobal, i}
			}
			return operand{oConst, i}
		}
		switch x := v.(type) {
		case *ssa.Const:
			c.consts = append(c.consts, p.constVal(x))
			i := int32(len(c.consts) - 1)
			constIdx[v] = i
			return operand{oConst, i}
		case *ssa.Function:
			c.consts = append(c.consts, Value{k: KFunc, x: &Fn{f: x}})
			i := int32(len(c.consts) - 1)
			constIdx[v] = i
			return operand{oConst, i}
		case *ssa.Global:
			c.globs = append(c.globs, x)
			i := int32(len(c.globs) - 1)
			constIdx[v] = i
			return operand{oGlobal, i}
		case *ssa.Builtin:
			return operand{}
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	c.blks = make([]cblk, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &c.blks[bi]
		cb.b = b
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: reg[ph]}
				for _, e := range ph.Edges {
					cp.args = append(cp.args, mk(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			p.decode(&ci, mk)
			if ci.op == iDefer {
				c.hasDef = true
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	p.liveness(c)
	p.wto(c)
	return c
}

const (
	iNop uint8 = iota
	iAlloc
	iBin
	iUn
	iLoad
	iCall
	iChange
	iConvert
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iJump
	iIf
	iReturn
	iPanic
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iRange
	iRunDefers
	iDefer
	iGo
	iSend
	iSelect
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iRecv
	iUnsup
)

func (p *Prog) decode(ci *cins, mk func(ssa.Value) operand) {
	call := func(cc *ssa.CallCommon) {
		ci.args = append(ci.args, mk(cc.Value))
		for _, a := range cc.Args {
			ci.args = append(ci.args, mk(a))
		}
		if f := cc.StaticCallee(); f != nil {
			ci.fn = f
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			ci.name = b.Name()
		}
	}
	switch x := ci.in.(type) {
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
		ci.sz = p.size(ci.typ)
	case *ssa.BinOp:
		ci.op = iBin
		ci.args = []operand{mk(x.X), mk(x.Y)}
		ci.typ = x.X.Type()
		if w, s, ok := intInfo(x.X.Type()); ok {
			ci.w, ci.sgn = uint8(w), s
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ci.op = iLoad
			ci.typ = x.Type()
			ci.sz = -1
			if isAgg(ci.typ) {
				ci.sz = p.size(ci.typ)
			}
		} else if x.Op == token.ARROW {
			ci.op = iRecv
			ci.typ = x.Type()
		} else {
			ci.op = iUn
			if w, s, ok := intInfo(x.X.Type()); ok {
				ci.w, ci.sgn = uint8(w), s
			}
		}
		ci.args = []operand{mk(x.X)}
	case *ssa.Call:
		ci.op = iCall
		call(x.Common())
	case *ssa.ChangeInterface:
		ci.op = iChange
		ci.args = []operand{mk(x.X)}
	case *ssa.ChangeType:
		ci.op = iChange
		ci.args = []operand{mk(x.X)}
	case *ssa.Convert:
		ci.op = iConvert
		ci.args = []operand{mk(x.X)}
	case *ssa.MultiConvert:
		ci.op = iConvert
		ci.args = []operand{mk(x.X)}
	case *ssa.Extract:
		ci.op = iExtract
		ci.args = []operand{mk(x.Tuple)}
		ci.off = x.Index
	case *ssa.Field:
		ci.op = iField
		ci.args = []operand{mk(x.X)}
		st := x.X.Type().Underlying().(*types.Struct)
		ci.off = p.fieldOff(st, x.Field)
		ci.sz = -1
		if isAgg(x.Type()) {
			ci.sz = p.size(x.Type())
		}
	case *ssa.FieldAddr:
		ci.op = iFieldAddr
		ci.args = []operand{mk(x.X)}
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		ci.off = p.fieldOff(st, x.Field)
	case *ssa.Index:
		ci.op = iIndex
		ci.args = []operand{mk(x.X), mk(x.Index)}
		ci.sz = -1
		if isAgg(x.Type()) {
			ci.sz = p.size(x.Type())
		}
		_, ci.sgn, _ = intInfo(x.Index.Type())
	case *ssa.IndexAddr:
		ci.op = iIndexAddr
		ci.args = []operand{mk(x.X), mk(x.Index)}
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			ci.sz = p.size(u.Elem())
			ci.off = -1
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			ci.sz = p.size(a.Elem())
			ci.off = int(a.Len())
		}
		_, ci.sgn, _ = intInfo(x.Index.Type())
	case *ssa.Jump:
		ci.op = iJump
	case *ssa.If:
		ci.op = iIf
		ci.args = []operand{mk(x.Cond)}
	case *ssa.Return:
		ci.op = iReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, mk(r))
		}
	case *ssa.Panic:
		ci.op = iPanic
		ci.args = []operand{mk(x.X)}
	case *ssa.Lookup:
		ci.op = iLookup
		ci.args = []operand{mk(x.X), mk(x.Index)}
	case *ssa.MakeChan:
		ci.op = iMakeChan
		ci.args = []operand{mk(x.Size)}
	case *ssa.MakeClosure:
		ci.op = iMakeClosure
		ci.fn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ci.args = append(ci.args, mk(b))
		}
	case *ssa.MakeInterface:
		ci.op = iMakeIface
		ci.args = []operand{mk(x.X)}
		ci.typ = p.ctype(x.X.Type())
	case *ssa.MakeMap:
		ci.op = iMakeMap
	case *ssa.MakeSlice:
		ci.op = iMakeSlice
		ci.args = []operand{mk(x.Len), mk(x.Cap)}
		ci.typ = x.Type().Underlying().(*types.Slice).Elem()
		ci.sz = p.size(ci.typ)
	case *ssa.MapUpdate:
		ci.op = iMapUpdate
		ci.args = []operand{mk(x.Map), mk(x.Key), mk(x.Value)}
	case *ssa.Next:
		ci.op = iNext
		ci.args = []operand{mk(x.Iter)}
	case *ssa.Range:
		ci.op = iRange
		ci.args = []operand{mk(x.X)}
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Defer:
		ci.op = iDefer
		call(x.Common())
	case *ssa.Go:
		ci.op = iGo
		call(x.Common())
	case *ssa.Send:
		ci.op = iSend
		ci.args = []operand{mk(x.Chan), mk(x.X)}
	case *ssa.Select:
		ci.op = iSelect
		for _, s := range x.States {
			ci.args = append(ci.args, mk(s.Chan), mk(s.Send))
		}
	case *ssa.Slice:
		ci.op = iSlice
		ci.args = []operand{mk(x.X), mk(x.Low), mk(x.High), mk(x.Max)}
	case *ssa.SliceToArrayPointer:
		ci.op = iSliceToArr
		ci.args = []operand{mk(x.X)}
	case *ssa.Store:
		ci.op = iStore
		ci.args = []operand{mk(x.Addr), mk(x.Val)}
	case *ssa.TypeAssert:
		ci.op = iTypeAssert
		ci.args = []operand{mk(x.X)}
		ci.typ = p.ctype(x.AssertedType)
	default:
		ci.op = iUnsup
	}
}

func (p *Prog) liveness(c *cfn) {
	n := len(c.blks)
	nw := (c.nreg + 63) / 64
	use := make([][]uint64, n)
	def := make([][]uint64, n)
	in := make([][]uint64, n)
	set := func(b []uint64, r int32) { b[r>>6] |= 1 << (uint(r) & 63) }
	has := func(b []uint64, r int32) bool { return b[r>>6]>>(uint(r)&63)&1 == 1 }
	for i := range c.blks {
		use[i], def[i], in[i] = make([]uint64, nw), make([]uint64, nw), make([]uint64, nw)
		for _, ci := range c.blks[i].ins {
			for _, a := range ci.args {
				if a.kind == oReg && !has(def[i], a.i) {
					set(use[i], a.i)
				}
			}
			if ci.dst >= 0 {
				set(def[i], ci.dst)
			}
		}
	}
	// in[b] = registers live after b's phis
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			out := make([]uint64, nw)
			for _, s := range c.blks[i].succs {
				sb := &c.blks[s]
				tmp := append([]uint64(nil), in[s]...)
				for _, ph := range sb.phis {
					tmp[ph.dst>>6] &^= 1 << (uint(ph.dst) & 63)
				}
				pi := predIndex(sb.b, c.blks[i].b)
				for _, q := range pi {
					for _, ph := range sb.phis {
						if a := ph.args[q]; a.kind == oReg {
							set(tmp, a.i)
						}
					}
				}
				for w := range out {
					out[w] |= tmp[w]
				}
			}
			for w := range out {
				nv := use[i][w] | out[w]&^def[i][w]
				if nv != in[i][w] {
					in[i][w] = nv
					ch = true
				}
			}
		}
	}
	for i := range c.blks {
		for r := int32(0); r < int32(c.nreg); r++ {
			if has(in[i], r) {
				c.blks[i].live = append(c.blks[i].live, r)
			}
		}
	}
}

func predIndex(b, pred *ssa.BasicBlock) []int {
	var out []int
	for i, p := range b.Preds {
		if p == pred {
			out = append(out, i)
		}
	}
	return out
}

// wto computes Bourdoncle's weak topological order: ord and enclosing loop headers.
func (p *Prog) wto(c *cfn) {
	n := len(c.blks)
	dfn := make([]int, n)
	num := 0
	var stack []int
	type elem struct {
		v    int
		comp []elem // non-nil => component with head v
		isC  bool
	}
	var visit func(v int, part *[]elem) int
	var component func(v int) []elem
	const inf = 1 << 30
	visit = func(v int, part *[]elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range c.blks[v].succs {
			var m int
			if dfn[s] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append(*part, elem{v: v, comp: component(v), isC: true})
			} else {
				*part = append(*part, elem{v: v})
			}
		}
		return head
	}
	component = func(v int) []elem {
		var part []elem
		for _, s := range c.blks[v].succs {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return part
	}
	var part []elem
	visit(0, &part)
	if rb := c.f.Recover; rb != nil && dfn[rb.Index] == 0 {
		visit(rb.Index, &part)
	}
	ord := 0
	var walk func(es []elem, loops []int)
	walk = func(es []elem, loops []int) {
		for i := len(es) - 1; i >= 0; i-- {
			e := es[i]
			if e.isC {
				l2 := append(append([]int(nil), loops...), e.v)
				c.blks[e.v].ord = ord
				ord++
				c.blks[e.v].loops = l2
				walk(e.comp, l2)
			} else {
				c.blks[e.v].ord = ord
				ord++
				c.blks[e.v].loops = loops
			}
		}
	}
	walk(part, nil)
}

func (p *Prog) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	ps := in.Pos()
	if !ps.IsValid() {
		return in.Parent().String()
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.root+"/"), q.Line)
}

func goEnv(extra ...string) []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-buildvcs=false", "GOWORK=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	env = append(env, extra...)
	return env
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
