package main

// Intrinsics: harness primitives, synchronisation, and the small set of library
// functions that are modelled instead of executed.

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hostFn = func(e *Eng, fs *FS, args []Value) []Outcome

// HostObj is an object implemented by the engine.
type HostObj struct {
	kind string
	data any
	cell *Obj
	fn   func(e *Eng, fs *FS, h *HostObj, method string, args []Value) []Outcome
	impl map[string]bool
}

func (h *HostObj) call(e *Eng, fs *FS, name string, args []Value) []Outcome {
	return h.fn(e, fs, h, name, args)
}

func (h *HostObj) implements(t types.Type) bool {
	it := t.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if !h.impl[it.Method(i).Name()] {
			return false
		}
	}
	return true
}

var intrTab = map[string]hostFn{}

// packages whose code is never executed (only their intrinsics)
var denyPkg = map[string]bool{
	"runtime": true, "syscall": true, "os": true, "reflect": true, "time": true, "net": true, "internal/poll": true,
	"internal/reflectlite": true, "fmt": true, "log": true, "internal/abi": true, "internal/cpu": true, "os/signal": true, "os/exec": true,
	"internal/bytealg": true, "internal/godebug": true, "path/filepath": false, "net/http": true, "sync": false,
}

func (e *Eng) pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func fname(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

// helperFor lists library functions replaced by Go helpers (harness/_rt/sym.go.tmpl).
var helperFor = map[string]string{
	"(*sync.Map).Load": "vxrtMapLoad", "(*sync.Map).Store": "vxrtMapStore", "(*sync.Map).LoadOrStore": "vxrtMapLoadOrStore",
	"(*sync.Map).LoadAndDelete": "vxrtMapLoadAndDelete", "(*sync.Map).Delete": "vxrtMapDelete", "(*sync.Map).Swap": "vxrtMapSwap",
	"(*sync.Map).CompareAndSwap": "vxrtMapCas", "(*sync.Map).Range": "vxrtMapRange", "(*sync.Map).Clear": "vxrtMapClear",
	"errors.Is": "vxrtErrorsIs", "errors.As": "vxrtErrorsAs",
	"sort.Slice": "vxrtSortSlice", "sort.SliceStable": "vxrtSortSlice",
	"internal/bytealg.CompareString": "vxrtCompare", "strings.Compare": "vxrtCompare",
}

func (e *Eng) intrinsic(f *ssa.Function) hostFn {
	if h, ok := e.stubs[f]; ok {
		return h
	}
	var h hostFn
	n := fname(f)
	if hn, ok := helperFor[n]; ok {
		h = func(e *Eng, fs *FS, a []Value) []Outcome { return e.callHelper(fs, hn, a) }
	} else if g, ok := e.redir[n]; ok {
		h = func(e *Eng, fs *FS, a []Value) []Outcome { return e.runFrame(g, a, nil, fs.st, fs.fr) }
	} else if t, ok := intrTab[n]; ok {
		h = t
	} else if strings.HasPrefix(f.Name(), "vx") && !strings.HasPrefix(f.Name(), "vxrt") && f.Signature.Recv() == nil {
		h = vxTab[f.Name()]
	} else if f.Name() == "init" && f.Synthetic != "" && f.Signature.Recv() == nil {
		// imported package initialisers run lazily
		h = func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, Value{}) }
	} else if denyPkg[e.pkgOf(f)] && !e.scanFunc(f) || (f.Blocks == nil && e.body(f) == nil) {
		h = func(e *Eng, fs *FS, a []Value) []Outcome {
			unsup("call of %s (not modelled)", n)
			return nil
		}
	}
	e.stubs[f] = h
	return h
}

// scanFunc reports whether f belongs to fmt's scanner or is a method of an error, which are
// executed as they are.
func (e *Eng) scanFunc(f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		switch f.Name() {
		case "Error", "Unwrap", "Is", "As", "Timeout", "Temporary":
			return true
		}
	}
	return e.pkgOf(f) == "fmt" && (f.Name() == "parsenum" || strings.HasPrefix(fname(f), "(*fmt.buffer)") || f.Name() == "tooLarge" || filepath.Base(e.p.fset.Position(f.Pos()).Filename) == "scan.go")
}

// ---------- globals and package initialisation ----------

func (e *Eng) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	n := e.p.size(t)
	e.nobj++
	o := &Obj{id: e.nobj, cells: make([]Value, n), name: g.String()}
	copy(o.cells, e.p.zeroCells(t, nil))
	e.globals[g] = o
	if v, ok := globalTab[g.String()]; ok {
		o.cells[0] = v(e, t)
		return o
	}
	e.initPkg(g.Pkg)
	return o
}

func (e *Eng) initPkg(pk *ssa.Package) {
	if pk == nil || e.inited[pk] != 0 {
		return
	}
	if p := pk.Pkg.Path(); denyPkg[p] && p != "fmt" {
		e.inited[pk] = 1
		return
	}
	e.inited[pk] = 1
	f := pk.Func("init")
	if f == nil {
		return
	}
	e.p.build(pk)
	st := &State{heap: &HNode{}}
	e.inInit++
	sf, sfs := e.curfr, e.curfs
	race := e.race
	e.race = false
	func() {
		defer func() {
			e.inInit--
			e.race = race
			e.curfr, e.curfs = sf, sfs
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					unsup("initialising %s: %s", pk.Pkg.Path(), u.msg)
				}
				panic(r)
			}
		}()
		outs := e.runFrame(f, nil, nil, st, nil)
		if len(outs) != 1 || outs[0].kind != oRet {
			m := "?"
			if len(outs) > 0 {
				m = outs[0].msg + " at " + outs[0].pos
			}
			unsup("initialising %s: %s", pk.Pkg.Path(), m)
		}
	}()
}

var globalTab map[string]func(e *Eng, t types.Type) Value

func init() {
	globalTab = map[string]func(e *Eng, t types.Type) Value{
		"os.Stdout":      func(e *Eng, t types.Type) Value { return Value{k: KPtr, x: e.stdFile("stdout")} },
		"os.Stderr":      func(e *Eng, t types.Type) Value { return Value{k: KPtr, x: e.stdFile("stderr")} },
		"os.Stdin":       func(e *Eng, t types.Type) Value { return Value{k: KPtr, x: e.stdFile("stdin")} },
		"os.ErrNotExist": func(e *Eng, t types.Type) Value { return e.osErr("ErrNotExist", "file does not exist") },
		"os.ErrExist":    func(e *Eng, t types.Type) Value { return e.osErr("ErrExist", "file already exists") },
		"os.ErrInvalid":  func(e *Eng, t types.Type) Value { return e.osErr("ErrInvalid", "invalid argument") },
		"os.ErrClosed":   func(e *Eng, t types.Type) Value { return e.osErr("ErrClosed", "file already closed") },
		"os.Args": func(e *Eng, t types.Type) Value {
			e.nobj++
			o := &Obj{id: e.nobj, cells: []Value{VStr("prog")}, name: "os.Args"}
			return Value{k: KSlice, x: &Sl{obj: o, len: 1, cap: 1}}
		},
	}
}

// osErr is the error of package internal/oserror that os and io/fs give another name.
func (e *Eng) osErr(name, msg string) Value {
	for _, sp := range e.p.ssa.AllPackages() {
		if sp.Pkg.Path() == "internal/oserror" {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				return e.global(g).cells[0]
			}
		}
	}
	return e.newErrG(msg)
}

func (e *Eng) newErrG(msg string) Value {
	e.nobj++
	o := &Obj{id: e.nobj, cells: []Value{VStr(msg)}, name: "error"}
	return Value{k: KIface, x: &If{t: e.errT, v: Value{k: KPtr, x: o}}}
}

func (e *Eng) stdFile(n string) *HostObj {
	k := "file:" + n
	if h, ok := e.hostdata[k]; ok {
		return h.(*HostObj)
	}
	h := &HostObj{kind: "file", data: n}
	e.hostdata[k] = h
	return h
}

// newErr makes an error value (*errors.errorString).
func (e *Eng) newErr(st *State, msg Value) Value {
	o := e.newObj(st, 1, "error")
	o.cells[0] = msg
	return Value{k: KIface, x: &If{t: e.errT, v: Value{k: KPtr, x: o}}}
}

// opaque is a formatted string that is not kept, of at least n bytes.
func opaque(n int) Value { return Value{k: KStr, x: &SymStr{opaque: true, min: n}} }

var verbRe = regexp.MustCompile(`%[-+# 0-9.*]*[a-zA-Z%]`)

// litLen counts the bytes of a format outside its verbs.
func litLen(f string) int { return len(verbRe.ReplaceAllString(f, "")) }

// hostAny converts a concrete value to a Go value for formatting.
func (e *Eng) hostAny(fs *FS, v Value) (any, bool) {
	if v.k != KIface {
		return nil, false
	}
	if v.x == nil {
		return nil, true
	}
	i := v.x.(*If)
	if i.v.x != nil && i.v.k != KStr && i.v.k != KPtr && i.v.k != KSlice {
		return nil, false
	}
	// types with formatting methods
	for _, m := range []string{"Error", "String", "Format", "GoString"} {
		e.p.mu.Lock()
		sel := e.p.ssa.MethodSets.MethodSet(i.t).Lookup(nil, m)
		e.p.mu.Unlock()
		if sel == nil {
			continue
		}
		if m != "Error" && m != "String" {
			return nil, false
		}
		e.p.mu.Lock()
		f := e.p.ssa.MethodValue(sel)
		e.p.mu.Unlock()
		shim := *fs
		outs := e.runFrame2(f, []Value{i.v}, &shim)
		if len(outs) != 1 || outs[0].kind != oRet {
			return nil, false
		}
		s, ok := outs[0].val.x.(string)
		if !ok || outs[0].st != fs.st {
			return nil, false
		}
		return s, true
	}
	b, ok := i.t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if i.v.k == KStr {
		s, ok := i.v.x.(string)
		return s, ok
	}
	if i.v.x != nil {
		return nil, false
	}
	n := i.v.n
	switch b.Kind() {
	case types.Bool:
		if i.v.B() == T {
			return true, true
		}
		if i.v.B() == F {
			return false, true
		}
		return nil, false
	case types.Int:
		return int(n), true
	case types.Int8:
		return int8(n), true
	case types.Int16:
		return int16(n), true
	case types.Int32:
		return int32(n), true
	case types.Int64:
		return int64(n), true
	case types.Uint:
		return uint(n), true
	case types.Uint8:
		return uint8(n), true
	case types.Uint16:
		return uint16(n), true
	case types.Uint32:
		return uint32(n), true
	case types.Uint64, types.Uintptr:
		return n, true
	case types.Float64:
		return math.Float64frombits(n), true
	case types.Float32:
		return float32(math.Float64frombits(n)), true
	}
	return nil, false
}

// runFrame2 runs f without side effects on the caller's state when it stays single-path.
func (e *Eng) runFrame2(f *ssa.Function, args []Value, fs *FS) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Unsupported, rtPanic, forkReq:
				outs = nil
			default:
				panic(r)
			}
		}
	}()
	if h := e.intrinsic(f); h != nil {
		return h(e, fs, args)
	}
	return e.runFrame(f, args, nil, fs.st, fs.fr)
}

func (e *Eng) fmtArgs(fs *FS, sl Value) ([]any, bool) {
	if sl.x == nil {
		return nil, true
	}
	s := sl.x.(*Sl)
	out := make([]any, s.len)
	ok := true
	for i := range out {
		var o bool
		out[i], o = e.hostAny(fs, fs.st.rd(s.obj, s.off+i))
		ok = ok && o
	}
	return out, ok
}

func (e *Eng) sprintf(fs *FS, format, args Value) Value {
	f, ok := format.x.(string)
	if !ok {
		return opaque(0)
	}
	as, ok := e.fmtArgs(fs, args)
	if !ok {
		return opaque(litLen(f))
	}
	f = strings.ReplaceAll(f, "%w", "%v")
	if strings.Contains(f, "%T") || strings.Contains(f, "%p") {
		return opaque(litLen(f))
	}
	return VStr(fmt.Sprintf(f, as...))
}

// poolD is what a sync.Pool holds.
type poolD struct{ vals []Value }

func init() {
	nop := func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, Value{}) }
	zeroRet := func(v Value) hostFn {
		return func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, v) }
	}
	I := func(n string, h hostFn) { intrTab[n] = h }

	// needed to initialise package errors
	I("internal/reflectlite.TypeOf", func(e *Eng, fs *FS, a []Value) []Outcome {
		h := &HostObj{kind: "type", impl: map[string]bool{"Elem": true}}
		h.fn = func(e *Eng, fs *FS, h *HostObj, m string, args []Value) []Outcome {
			if m != "Elem" {
				unsup("reflectlite.Type.%s", m)
			}
			return ret(fs.st, Value{k: KIface, x: &If{t: e.strT, v: Value{k: KHost, x: h}}})
		}
		return ret(fs.st, Value{k: KIface, x: &If{t: e.strT, v: Value{k: KHost, x: h}}})
	})
	// fmt
	I("fmt.Sprintf", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, e.sprintf(fs, a[0], a[1])) })
	I("fmt.Sprint", func(e *Eng, fs *FS, a []Value) []Outcome {
		as, ok := e.fmtArgs(fs, a[0])
		if !ok {
			return ret(fs.st, opaque(0))
		}
		return ret(fs.st, VStr(fmt.Sprint(as...)))
	})
	I("fmt.Sprintln", func(e *Eng, fs *FS, a []Value) []Outcome {
		as, ok := e.fmtArgs(fs, a[0])
		if !ok {
			return ret(fs.st, opaque(0))
		}
		return ret(fs.st, VStr(fmt.Sprintln(as...)))
	})
	I("fmt.Errorf", func(e *Eng, fs *FS, a []Value) []Outcome {
		s := e.sprintf(fs, a[0], a[1])
		f, _ := a[0].x.(string)
		if strings.Contains(f, "%w") && a[1].x != nil {
			if wt := e.namedPtr("fmt", "wrapError"); wt != nil {
				// the wrapped error: argument matching %w
				sl := a[1].x.(*Sl)
				k := 0
				for i := 0; i+1 < len(f); i++ {
					if f[i] == '%' {
						if f[i+1] == 'w' {
							break
						}
						if f[i+1] != '%' {
							k++
						}
						i++
					}
				}
				if k < sl.len {
					o := e.newObj(fs.st, 2, "wrapError")
					o.cells[0] = s
					o.cells[1] = fs.st.rd(sl.obj, sl.off+k)
					return ret(fs.st, Value{k: KIface, x: &If{t: wt, v: Value{k: KPtr, x: o}}})
				}
			}
		}
		return ret(fs.st, e.newErr(fs.st, s))
	})
	I("(*fmt.wrapError).Error", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, fs.st.rd(a[0].x.(*Obj), 0)) })
	I("(*fmt.wrapError).Unwrap", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, fs.st.rd(a[0].x.(*Obj), 1)) })
	pr := zeroRet(tup(VInt(64, 0), Value{k: KIface}))
	I("runtime.Callers", zeroRet(VInt(64, 0)))
	for _, n := range []string{"Printf", "Println", "Print"} {
		if _, ok := intrTab["log."+n]; !ok {
			I("log."+n, zeroRet(Value{}))
		}
	}
	I("fmt.Printf", pr)
	I("fmt.Println", pr)
	I("fmt.Print", pr)
	fpr := func(kind int) hostFn {
		return func(e *Eng, fs *FS, a []Value) []Outcome {
			if a[0].x != nil {
				if h, ok := a[0].x.(*If).v.x.(*HostObj); ok && h.kind == "file" {
					if n, ok := h.data.(string); ok && strings.HasPrefix(n, "std") {
						return pr(e, fs, a)
					}
				}
			}
			var s Value
			switch kind {
			case 0:
				s = e.sprintf(fs, a[1], a[2])
			default:
				as, ok := e.fmtArgs(fs, a[1])
				s = opaque(0)
				if ok {
					if kind == 1 {
						s = VStr(fmt.Sprintln(as...))
					} else {
						s = VStr(fmt.Sprint(as...))
					}
				}
			}
			return e.writeTo(fs, a[0], s)
		}
	}
	I("fmt.Fprintf", fpr(0))
	I("fmt.Fprintln", fpr(1))
	I("fmt.Fprint", fpr(2))
	// log
	for _, n := range []string{"Printf", "Println", "Print", "SetFlags", "SetOutput", "SetPrefix"} {
		I("log."+n, nop)
		I("(*log.Logger)."+n, nop)
	}
	lp := func(e *Eng, fs *FS, a []Value) []Outcome {
		s := opaque(0)
		if len(a) == 2 {
			s = e.sprintf(fs, a[0], a[1])
		}
		return []Outcome{{st: fs.st, kind: oPanic, val: Value{k: KIface, x: &If{t: e.strT, v: s}}, msg: "log.Panic", pos: e.fsPos(fs)}}
	}
	I("log.Panicf", lp)
	I("log.Panic", lp)
	I("log.Panicln", lp)
	lf := func(e *Eng, fs *FS, a []Value) []Outcome {
		return []Outcome{{st: fs.st, kind: oExit, msg: "log.Fatal", pos: e.fsPos(fs)}}
	}
	I("log.Fatal", lf)
	I("log.Fatalf", lf)
	I("log.Fatalln", lf)
	I("os.Exit", func(e *Eng, fs *FS, a []Value) []Outcome {
		return []Outcome{{st: fs.st, kind: oExit, msg: "os.Exit", pos: e.fsPos(fs)}}
	})
	I("os.Getenv", zeroRet(VStr("")))
	I("os.LookupEnv", zeroRet(tup(VStr(""), VBool(F))))

	// sync
	I("(*sync.WaitGroup).Add", func(e *Eng, fs *FS, a []Value) []Outcome {
		o, off := a[0].x.(*Obj), int(a[0].n)
		n := int64(fs.st.rd(o, off).n) + int64(e.concInt(fs, a[1]))
		if n < 0 {
			return []Outcome{{st: fs.st, kind: oPanic, msg: "sync: negative WaitGroup counter", val: Value{k: KIface, x: &If{t: e.strT, v: VStr("sync: negative WaitGroup counter")}}, pos: e.fsPos(fs)}}
		}
		if int64(e.concInt(fs, a[1])) < 0 {
			e.release(fs.st, cellKey{o, off})
		}
		fs.st.wr(o, off, VInt(64, uint64(n)))
		return ret(fs.st, Value{})
	})
	I("(*sync.WaitGroup).Done", func(e *Eng, fs *FS, a []Value) []Outcome {
		return intrTab["(*sync.WaitGroup).Add"](e, fs, []Value{a[0], VInt(64, ^uint64(0))})
	})
	I("(*sync.WaitGroup).Wait", func(e *Eng, fs *FS, a []Value) []Outcome {
		o, off := a[0].x.(*Obj), int(a[0].n)
		pos := e.fsPos(fs)
		stop := func(st *State) bool { return st.rd(o, off).n == 0 }
		return e.drain(fs, fs.st, stop, func(st *State) []Outcome {
			if !stop(st) {
				return deadlock(st, pos, false)
			}
			if st.th != nil && st.cur == 0 {
				for _, ch := range st.th.over {
					d := st.rd(ch, 0).x.(*ChanD)
					if len(d.q) > d.cap && st.npend() == 0 {
						return deadlock(st, pos, false)
					}
				}
			}
			e.acquire(st, cellKey{o, off})
			return ret(st, Value{})
		})
	})
	lock := func(e *Eng, fs *FS, a []Value) []Outcome {
		o, off := a[0].x.(*Obj), int(a[0].n)
		if fs.st.rd(o, off).n != 0 {
			return deadlock(fs.st, e.fsPos(fs), false)
		}
		fs.st.wr(o, off, VInt(int(fs.st.rd(o, off).w), 1))
		e.acquire(fs.st, cellKey{o, off})
		return ret(fs.st, Value{})
	}
	unlock := func(e *Eng, fs *FS, a []Value) []Outcome {
		o, off := a[0].x.(*Obj), int(a[0].n)
		fs.st.wr(o, off, VInt(int(fs.st.rd(o, off).w), 0))
		e.release(fs.st, cellKey{o, off})
		return ret(fs.st, Value{})
	}
	I("(*sync.Mutex).Lock", lock)
	I("(*sync.Mutex).Unlock", unlock)
	I("(*internal/sync.Mutex).Lock", lock)
	I("(*internal/sync.Mutex).Unlock", unlock)
	acq := func(e *Eng, fs *FS, a []Value) []Outcome {
		e.acquire(fs.st, cellKey{a[0].x.(*Obj), int(a[0].n)})
		return ret(fs.st, Value{})
	}
	rel := func(e *Eng, fs *FS, a []Value) []Outcome {
		e.release(fs.st, cellKey{a[0].x.(*Obj), int(a[0].n)})
		return ret(fs.st, Value{})
	}
	I("(*sync.RWMutex).Lock", acq)
	I("(*sync.RWMutex).RLock", acq)
	I("(*sync.RWMutex).Unlock", rel)
	I("(*sync.RWMutex).RUnlock", rel)
	I("(*sync.Pool).Get", func(e *Eng, fs *FS, a []Value) []Outcome {
		o := a[0].x.(*Obj)
		// what was put last is given out again
		if p, ok := fs.st.rd(o, int(a[0].n)).x.(*poolD); ok && len(p.vals) > 0 {
			n := len(p.vals) - 1
			fs.st.wr(o, int(a[0].n), Value{k: KHost, x: &poolD{p.vals[:n:n]}})
			acq(e, fs, a)
			return ret(fs.st, p.vals[n])
		}
		// New is the last field
		nf := fs.st.rd(o, int(a[0].n)+len(e.p.zeroCells(e.namedPtr("sync", "Pool").(*types.Pointer).Elem(), nil))-1)
		if nf.x == nil {
			return ret(fs.st, Value{k: KIface})
		}
		f := nf.x.(*Fn)
		return e.invoke(fs, target{f: f.f, bind: f.bind, host: f.host}, nil, nil)
	})
	I("(*sync.Pool).Put", func(e *Eng, fs *FS, a []Value) []Outcome {
		if a[1].x == nil {
			return ret(fs.st, Value{})
		}
		o, d := a[0].x.(*Obj), &poolD{}
		if p, ok := fs.st.rd(o, int(a[0].n)).x.(*poolD); ok {
			d.vals = append(d.vals, p.vals...)
		}
		d.vals = append(d.vals, a[1])
		fs.st.wr(o, int(a[0].n), Value{k: KHost, x: d})
		return rel(e, fs, a)
	})
	// atomic.Pointer keeps a pointer
	aptr := func(name string, f func(e *Eng, fs *FS, a []Value, old Value) (Value, Value)) {
		I("(*sync/atomic.Pointer[T])."+name, func(e *Eng, fs *FS, a []Value) []Outcome {
			if a[0].x == nil {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			o, off := a[0].x.(*Obj), int(a[0].n)
			nw, v := f(e, fs, a, fs.st.rd(o, off))
			fs.st.wr(o, off, nw)
			acq(e, fs, a)
			rel(e, fs, a)
			return ret(fs.st, v)
		})
	}
	aptr("Load", func(e *Eng, fs *FS, a []Value, old Value) (Value, Value) { return old, old })
	aptr("Store", func(e *Eng, fs *FS, a []Value, old Value) (Value, Value) { return a[1], Value{} })
	aptr("Swap", func(e *Eng, fs *FS, a []Value, old Value) (Value, Value) { return a[1], old })
	aptr("CompareAndSwap", func(e *Eng, fs *FS, a []Value, old Value) (Value, Value) {
		if e.concBool(fs, e.eq(fs, old, a[1])) {
			return a[2], VBoolC(true)
		}
		return old, VBoolC(false)
	})
	// atomic.Value keeps an interface
	aval := func(name string, f func(e *Eng, fs *FS, a []Value, old Value) Value) {
		I("(*sync/atomic.Value)."+name, func(e *Eng, fs *FS, a []Value) []Outcome {
			if len(a) > 1 && a[len(a)-1].x == nil {
				panic(rtPanic("sync/atomic: store of nil value into Value"))
			}
			r := e.race
			e.race = false
			defer func() { e.race = r }()
			v := f(e, fs, a, e.load(fs, a[0], -1, false))
			acq(e, fs, a)
			rel(e, fs, a)
			return ret(fs.st, v)
		})
	}
	aval("Load", func(e *Eng, fs *FS, a []Value, old Value) Value { return old })
	aval("Store", func(e *Eng, fs *FS, a []Value, old Value) Value { e.store(fs, a[0], a[1]); return Value{} })
	aval("Swap", func(e *Eng, fs *FS, a []Value, old Value) Value { e.store(fs, a[0], a[1]); return old })
	aval("CompareAndSwap", func(e *Eng, fs *FS, a []Value, old Value) Value {
		ok := e.concBool(fs, e.eq(fs, old, a[1]))
		if ok {
			e.store(fs, a[0], a[2])
		}
		return VBoolC(ok)
	})
	// atomics
	for _, w := range []int{32, 64} {
		for _, s := range []string{"Int", "Uint"} {
			w := w
			n := fmt.Sprintf("%s%d", s, w)
			I("sync/atomic.Load"+n, func(e *Eng, fs *FS, a []Value) []Outcome {
				r := e.race
				e.race = false
				v := e.load(fs, a[0], -1, false)
				e.race = r
				acq(e, fs, a)
				return ret(fs.st, v)
			})
			I("sync/atomic.Store"+n, func(e *Eng, fs *FS, a []Value) []Outcome {
				r := e.race
				e.race = false
				e.store(fs, a[0], a[1])
				e.race = r
				return rel(e, fs, a)
			})
			I("sync/atomic.Add"+n, func(e *Eng, fs *FS, a []Value) []Outcome {
				r := e.race
				e.race = false
				v := VTerm(e.c.Op(vAdd, e.term(e.load(fs, a[0], -1, false)), e.term(a[1])))
				e.store(fs, a[0], v)
				e.race = r
				acq(e, fs, a)
				rel(e, fs, a)
				return ret(fs.st, v)
			})
			I("sync/atomic.CompareAndSwap"+n, func(e *Eng, fs *FS, a []Value) []Outcome {
				r := e.race
				e.race = false
				defer func() { e.race = r }()
				c := e.eq(fs, e.load(fs, a[0], -1, false), a[1])
				ok := e.concBool(fs, c)
				if ok {
					e.store(fs, a[0], a[2])
				}
				acq(e, fs, a)
				rel(e, fs, a)
				return ret(fs.st, VBoolC(ok))
			})
		}
	}

	// math (floats are concrete)
	m1 := func(n string, f func(float64) float64) {
		I("math."+n, func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, mkF(f(fval(a[0])), 64)) })
	}
	m1("Abs", math.Abs)
	m1("Floor", math.Floor)
	m1("Ceil", math.Ceil)
	m1("Round", math.Round)
	m1("Trunc", math.Trunc)
	m1("Sqrt", math.Sqrt)
	m1("Sin", math.Sin)
	m1("Cos", math.Cos)
	m1("Tan", math.Tan)
	m1("Exp", math.Exp)
	m1("Log", math.Log)
	m1("sqrt", math.Sqrt)
	m1("floor", math.Floor)
	m1("ceil", math.Ceil)
	m2 := func(n string, f func(a, b float64) float64) {
		I("math."+n, func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, mkF(f(fval(a[0]), fval(a[1])), 64)) })
	}
	m2("Atan2", math.Atan2)
	m2("Pow", math.Pow)
	m2("Mod", math.Mod)
	m2("Hypot", math.Hypot)
	m2("Max", math.Max)
	m2("Min", math.Min)
	I("math.Float64bits", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, VInt(64, math.Float64bits(fval(a[0])))) })
	I("math.Float64frombits", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, mkF(math.Float64frombits(e.concInt(fs, a[0])), 64))
	})
	I("math.Float32bits", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, VInt(32, uint64(math.Float32bits(float32(fval(a[0]))))))
	})
	I("math.Float32frombits", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, mkF(float64(math.Float32frombits(uint32(e.concInt(fs, a[0])))), 32))
	})
	I("math.IsNaN", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, VBoolC(math.IsNaN(fval(a[0])))) })
	I("math.IsInf", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, VBoolC(math.IsInf(fval(a[0]), int(int64(a[1].n)))))
	})

	// byte-level helpers without Go bodies
	idx := func(bs []Value, c Value) func(e *Eng, fs *FS) int {
		return func(e *Eng, fs *FS) int {
			for i, b := range bs {
				if e.concBool(fs, e.eq(fs, b, c)) {
					return i
				}
			}
			return -1
		}
	}
	I("internal/bytealg.IndexByteString", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, VInt(64, uint64(idx(strBytes(a[0]), a[1])(e, fs))))
	})
	I("internal/bytealg.IndexByte", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, VInt(64, uint64(idx(e.slBytes(fs, a[0]), a[1])(e, fs))))
	})
	I("bytes.IndexByte", intrTab["internal/bytealg.IndexByte"])
	I("strings.IndexByte", intrTab["internal/bytealg.IndexByteString"])
	I("internal/stringslite.IndexByte", intrTab["internal/bytealg.IndexByteString"])
	I("internal/bytealg.CountString", func(e *Eng, fs *FS, a []Value) []Outcome {
		n := e.c.Const(64, 0)
		for _, b := range strBytes(a[0]) {
			n = e.c.Op(vAdd, n, e.c.Ite(e.eq(fs, b, a[1]), e.c.Const(64, 1), e.c.Const(64, 0)))
		}
		return ret(fs.st, VTerm(n))
	})
	I("internal/bytealg.Count", func(e *Eng, fs *FS, a []Value) []Outcome {
		n := e.c.Const(64, 0)
		for _, b := range e.slBytes(fs, a[0]) {
			n = e.c.Op(vAdd, n, e.c.Ite(e.eq(fs, b, a[1]), e.c.Const(64, 1), e.c.Const(64, 0)))
		}
		return ret(fs.st, VTerm(n))
	})
	I("bytes.Equal", func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, VBool(e.eq(fs, mkStr(e.slBytes(fs, a[0])), mkStr(e.slBytes(fs, a[1])))))
	})
	I("internal/bytealg.Equal", intrTab["bytes.Equal"])
	I("internal/bytealg.MakeNoZero", func(e *Eng, fs *FS, a []Value) []Outcome {
		n := int(e.concInt(fs, a[0]))
		vs := make([]Value, n)
		for i := range vs {
			vs[i] = VInt(8, 0)
		}
		return ret(fs.st, e.mkSlice(fs.st, vs, "MakeNoZero"))
	})
	I("internal/bytealg.Compare", func(e *Eng, fs *FS, a []Value) []Outcome {
		x, y := e.slBytes(fs, a[0]), e.slBytes(fs, a[1])
		lt, gt := e.strLess(x, y, false), e.strLess(y, x, false)
		return ret(fs.st, VTerm(e.c.Ite(lt, e.c.Const(64, ^uint64(0)), e.c.Ite(gt, e.c.Const(64, 1), e.c.Const(64, 0)))))
	})
	str2 := func(n, helper string, f func(s, t string) Value) {
		I(n, func(e *Eng, fs *FS, a []Value) []Outcome {
			s, ok1 := a[0].x.(string)
			t, ok2 := a[1].x.(string)
			if ok1 && ok2 {
				return ret(fs.st, f(s, t))
			}
			return e.callHelper(fs, helper, a)
		})
	}
	str2("strings.Index", "vxrtIndex", func(s, t string) Value { return VInt(64, uint64(strings.Index(s, t))) })
	str2("strings.Contains", "vxrtContains", func(s, t string) Value { return VBoolC(strings.Contains(s, t)) })
	str2("strings.LastIndex", "vxrtLastIndex", func(s, t string) Value { return VInt(64, uint64(strings.LastIndex(s, t))) })
	I("strings.ToLower", func(e *Eng, fs *FS, a []Value) []Outcome {
		if s, ok := a[0].x.(string); ok {
			return ret(fs.st, VStr(strings.ToLower(s)))
		}
		return e.asciiMap(fs, a[0], 'A', 'Z', 32)
	})
	I("strings.ToUpper", func(e *Eng, fs *FS, a []Value) []Outcome {
		if s, ok := a[0].x.(string); ok {
			return ret(fs.st, VStr(strings.ToUpper(s)))
		}
		return e.asciiMap(fs, a[0], 'a', 'z', ^uint64(31))
	})
	I("internal/abi.NoEscape", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, a[0]) })
	I("internal/abi.Escape", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, a[0]) })
	I("runtime.KeepAlive", nop)
	I("runtime.GC", nop)
	I("runtime.Gosched", nop)
	I("runtime.SetFinalizer", nop)
	I("runtime.NumCPU", zeroRet(VInt(64, 8)))
	I("runtime.GOMAXPROCS", zeroRet(VInt(64, 8)))
	I("time.Sleep", nop)
	// time stands still
	zeroTime := func(e *Eng, fs *FS, a []Value) []Outcome {
		return ret(fs.st, Value{k: KAgg, x: []Value{VInt(64, 0), VInt(64, 0), {k: KPtr}}})
	}
	I("time.Now", zeroTime)
	I("(time.Time).UTC", zeroTime)
	I("(time.Time).UnixNano", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, VInt(64, 1700000000)) })
	I("(time.Time).Unix", func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, VInt(64, 1)) })
}

// asciiMap shifts bytes in [lo,hi] by add, for strings of ASCII bytes.
func (e *Eng) asciiMap(fs *FS, v Value, lo, hi byte, add uint64) []Outcome {
	bs := strBytes(v)
	out := make([]Value, len(bs))
	for i, b := range bs {
		t := e.term(b)
		if !e.concBool(fs, e.c.Ult(t, e.c.Const(8, 128))) {
			unsup("case mapping of a non-ASCII symbolic byte")
		}
		in := e.c.And(e.c.Ult(t, e.c.Const(8, uint64(lo))).not(), e.c.Ult(e.c.Const(8, uint64(hi)), t).not())
		out[i] = VTerm(e.c.Ite(in, e.c.Op(vAdd, t, e.c.Const(8, add)), t))
	}
	return ret(fs.st, mkStr(out))
}

func (e *Eng) namedPtr(pkg, name string) types.Type {
	sp := e.p.pkgs[pkg]
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	return e.p.ctype(types.NewPointer(sp.Type(name).Type()))
}

// writeTo calls w.Write([]byte(s)).
func (e *Eng) writeTo(fs *FS, w, s Value) []Outcome {
	if w.x == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	if isOpaque(s) {
		unsup("writing a formatted (opaque) string")
	}
	i := w.x.(*If)
	sl := e.mkSlice(fs.st, strBytes(s), "fmt")
	if h, ok := i.v.x.(*HostObj); ok && i.v.k == KHost {
		return h.call(e, fs, "Write", []Value{i.v, sl})
	}
	e.p.mu.Lock()
	sel := e.p.ssa.MethodSets.MethodSet(i.t).Lookup(nil, "Write")
	var f *ssa.Function
	if sel != nil {
		f = e.p.ssa.MethodValue(sel)
	}
	e.p.mu.Unlock()
	if f == nil {
		unsup("Write method of %v", i.t)
	}
	return e.invoke(fs, target{f: f}, []Value{i.v, sl}, nil)
}

// ---------- harness primitives ----------

var vxTab map[string]hostFn

func cstr(v Value) string {
	s, ok := v.x.(string)
	if !ok {
		unsup("harness label must be a constant string")
	}
	return s
}

func (e *Eng) input(name string, w int, lo, hi uint64, isBool bool) *Input {
	if in, ok := e.c.inByNm[name]; ok {
		return in
	}
	in, _ := e.c.NewInput(name, w, lo, hi, isBool)
	return in
}

func (e *Eng) inputVal(name string, w int, lo, hi uint64, isBool bool) Value {
	if e.conc != nil {
		v, ok := e.conc[name]
		if !ok {
			v = lo
		}
		if isBool {
			return VBoolC(v != 0)
		}
		return VInt(w, v)
	}
	in := e.input(name, w, lo, hi, isBool)
	if isBool {
		return VBool(e.c.Bit(in.Term, 0))
	}
	return VTerm(in.Term)
}

func init() {
	vxTab = map[string]hostFn{
		"vxU8": func(e *Eng, fs *FS, a []Value) []Outcome {
			return ret(fs.st, e.inputVal(cstr(a[0]), 8, 0, 255, false))
		},
		"vxU8R": func(e *Eng, fs *FS, a []Value) []Outcome {
			return ret(fs.st, e.inputVal(cstr(a[0]), 8, a[1].n, a[2].n, false))
		},
		"vxInt": func(e *Eng, fs *FS, a []Value) []Outcome {
			lo, hi := int64(a[1].n), int64(a[2].n)
			if lo < 0 {
				// offset encoding: raw in [0,hi-lo], value = lo+raw (wraps modulo 2^64)
				return ret(fs.st, e.inputVal(cstr(a[0]), 64, uint64(lo), uint64(hi), false))
			}
			return ret(fs.st, e.inputVal(cstr(a[0]), 64, uint64(lo), uint64(hi), false))
		},
		"vxBool": func(e *Eng, fs *FS, a []Value) []Outcome {
			return ret(fs.st, e.inputVal(cstr(a[0]), 1, 0, 1, true))
		},
		"vxBytes": func(e *Eng, fs *FS, a []Value) []Outcome {
			n := int(e.concInt(fs, a[1]))
			vs := make([]Value, n)
			for i := range vs {
				vs[i] = e.inputVal(fmt.Sprintf("%s[%d]", cstr(a[0]), i), 8, 0, 255, false)
			}
			return ret(fs.st, e.mkSlice(fs.st, vs, "vxBytes"))
		},
		"vxParam": func(e *Eng, fs *FS, a []Value) []Outcome {
			return ret(fs.st, VInt(64, uint64(int64(e.job.P[cstr(a[0])]))))
		},
		"vxParamS": func(e *Eng, fs *FS, a []Value) []Outcome {
			return ret(fs.st, VStr(e.job.S[cstr(a[0])]))
		},
		"vxAssume": func(e *Eng, fs *FS, a []Value) []Outcome {
			c := a[0].B()
			if c == F || !e.feasible(fs.st, c) {
				return nil
			}
			if fs.st.pc == nil && e.conc == nil && e.c.globalAssume(c) {
				fs.st.wit = nil
				return ret(fs.st, Value{})
			}
			e.assume(fs.st, c)
			return ret(fs.st, Value{})
		},
		"vxAssert": func(e *Eng, fs *FS, a []Value) []Outcome {
			e.assert(fs.st, a[0].B(), cstr(a[1]), e.fsPos(fs))
			if a[0].B() == F {
				return nil
			}
			if a[0].B() != T {
				if !e.feasible(fs.st, a[0].B()) {
					return nil
				}
				e.assume(fs.st, a[0].B())
			}
			return ret(fs.st, Value{})
		},
		"vxFail": func(e *Eng, fs *FS, a []Value) []Outcome {
			e.assert(fs.st, F, cstr(a[0]), e.fsPos(fs))
			return nil
		},
		"vxReach": func(e *Eng, fs *FS, a []Value) []Outcome {
			e.reach(fs.st, cstr(a[0]))
			return ret(fs.st, Value{})
		},
		"vxObs": func(e *Eng, fs *FS, a []Value) []Outcome {
			if e.conc != nil {
				e.obs = append(e.obs, fmt.Sprintf("%s=%d", cstr(a[0]), int64(e.concInt(fs, a[1]))))
			}
			return ret(fs.st, Value{})
		},
		"vxIsSym": func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, VBoolC(e.conc == nil)) },
		"vxSplit": func(e *Eng, fs *FS, a []Value) []Outcome {
			return ret(fs.st, VInt(64, e.concInt(fs, a[0])))
		},
		"vxSliceLen": func(e *Eng, fs *FS, a []Value) []Outcome {
			n := 0
			if v := a[0].x.(*If).v; v.x != nil {
				n = v.x.(*Sl).len
			}
			return ret(fs.st, VInt(64, uint64(n)))
		},
		"vxAssign": func(e *Eng, fs *FS, a []Value) []Outcome {
			if a[0].x == nil || a[1].x == nil {
				return ret(fs.st, VBool(F))
			}
			ei, tgt := a[0].x.(*If), a[1].x.(*If)
			pt, isP := tgt.t.Underlying().(*types.Pointer)
			if !isP {
				panic(rtPanic("errors: target must be a non-nil pointer"))
			}
			t, v, ok := e.p.ctype(pt.Elem()), ei.v, false
			if _, isI := t.Underlying().(*types.Interface); isI {
				v = a[1]
				if h, isH := ei.v.x.(*HostObj); isH {
					ok = h.implements(t)
				} else {
					ok = e.implements(ei.t, t)
				}
			} else {
				ok = ei.t == t
			}
			if ok {
				e.store(fs, tgt.v, v)
			}
			return ret(fs.st, VBoolC(ok))
		},
		"vxSliceSwap": func(e *Eng, fs *FS, a []Value) []Outcome {
			f := a[0].x.(*If)
			s, k := f.v.x.(*Sl), e.p.size(f.t.Underlying().(*types.Slice).Elem())
			i, j := s.off+int(e.concInt(fs, a[1]))*k, s.off+int(e.concInt(fs, a[2]))*k
			for c := 0; c < k; c++ {
				x, y := fs.st.rd(s.obj, i+c), fs.st.rd(s.obj, j+c)
				fs.st.wr(s.obj, i+c, y)
				fs.st.wr(s.obj, j+c, x)
			}
			return ret(fs.st, Value{})
		},
		"vxSched": func(e *Eng, fs *FS, a []Value) []Outcome {
			fs.st.pol = int(e.concInt(fs, a[0]))
			return ret(fs.st, Value{})
		},
		"vxNative": func(e *Eng, fs *FS, a []Value) []Outcome { return ret(fs.st, VBool(F)) },
	}
}
