package main

// Named abstractions of callees, chosen per job and reported in the evidence.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) applyStub(name string) error {
	switch name {
	case "rsuf":
		return e.stubRS()
	case "score":
		return e.stubScore()
	case "scoref":
		return e.stubScoreF()
	}
	if set, ok := redirSets[name]; ok {
		for _, r := range set {
			i := strings.IndexByte(r, '=')
			if err := e.stubRedir(r[:i], r[i+1:]); err != nil {
				return err
			}
		}
		return nil
	}
	if strings.HasPrefix(name, "redir:") {
		i := strings.IndexByte(name, '=')
		return e.stubRedir(name[6:i], name[i+1:])
	}
	return fmt.Errorf("unknown stub %s", name)
}

// redirSets name groups of replacements by the models in harness/_rt/common.go.tmpl:
// fs models files, codec the image encoders of the standard library.
var redirSets = map[string][]string{
	"fs": {"os.OpenFile=vxOpenFile", "os.Create=vxCreate", "os.Open=vxOpen", "os.Stat=vxStat", "os.Lstat=vxStat",
		"(*os.File).Write=vxFileWrite", "(*os.File).WriteString=vxFileWriteString", "(*os.File).Close=vxFileClose",
		"os.ReadFile=vxReadFile", "os.WriteFile=vxWriteFile", "os.Remove=vxRemove", "os.IsExist=vxIsExist", "os.IsNotExist=vxIsNotExist", "(*os.File).Sync=vxFileSync", "(*os.File).Truncate=vxFileTruncate", "(*os.File).Name=vxFileName"},
	"help":  {"(*flag.FlagSet).defaultUsage=vxFlagUsage", "github.com/urfave/cli/v2.ShowAppHelp=vxShowAppHelp"},
	"codec": {"image/png.Encode=vxPngEncode", "(*image/png.Encoder).Encode=vxPngEncoderEncode", "image/jpeg.Encode=vxJpegEncode"},
}

// stubRedir replaces a function outside the repository (named as ssa prints it) by a
// function of the harness with the same parameters, the receiver first.
func (e *Eng) stubRedir(from, to string) error {
	g := e.p.findHarness(to)
	if g == nil {
		return fmt.Errorf("stub %s not found", to)
	}
	if e.redir == nil {
		e.redir = map[string]*ssa.Function{}
	}
	e.redir[from] = g
	return nil
}

// stubRS replaces reedsolomon.Encode by an uninterpreted function: the result is the
// data followed by parity bytes that are fresh variables per distinct argument list.
func (e *Eng) stubRS() error {
	sp := e.p.pkgs["github.com/yeqown/reedsolomon"]
	if sp == nil || sp.Func("Encode") == nil {
		return fmt.Errorf("reedsolomon.Encode not found")
	}
	tab := map[string][]Value{}
	e.stubs[sp.Func("Encode")] = func(e *Eng, fs *FS, a []Value) []Outcome {
		st := fs.st
		if a[0].x == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		o := a[0].x.(*Obj)
		off := int(a[0].n)
		bits := e.slBytes(fs, st.rd(o, off))
		ln := int(e.concInt(fs, st.rd(o, off+1)))
		n := int(e.concInt(fs, a[1]))
		if ln%8 != 0 {
			return []Outcome{{st: st, kind: oPanic, msg: "could not deal with binary times 8bits", val: Value{k: KIface, x: &If{t: e.strT, v: VStr("")}}}}
		}
		data := bits[:ln/8]
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d:", n)
		for _, b := range data {
			fmt.Fprintf(&sb, "%d,", e.term(b).id)
		}
		k := sb.String()
		ec, ok := tab[k]
		if !ok {
			for i := 0; i < n; i++ {
				in := e.input(fmt.Sprintf("rs%d[%d]", len(tab), i), 8, 0, 255, false)
				in.Sched = true
				ec = append(ec, VTerm(in.Term))
			}
			tab[k] = ec
		}
		vals := append(append([]Value(nil), data...), ec...)
		sl := e.mkSlice(st, vals, "rs")
		r := e.newObj(st, 2, "binary")
		r.cells[0] = sl
		r.cells[1] = VInt(64, uint64(len(vals)*8))
		return ret(st, Value{k: KPtr, x: r})
	}
	return nil
}

// stubScore replaces the mask penalty functions by an arbitrary score. They are found
// by shape, not by name: unexported functions or methods of package qrcode that take
// the matrix (as argument or receiver), return one integer and are not called by
// another such function.
func (e *Eng) stubScore() error {
	fs := e.p.scoreFuncs()
	if len(fs) == 0 {
		return fmt.Errorf("mask penalty function not identified")
	}
	n := 0
	for _, f := range fs {
		f := f
		w, _, _ := intInfo(f.Signature.Results().At(0).Type())
		e.stubs[f] = func(e *Eng, fs *FS, a []Value) []Outcome {
			if k, ok := e.job.P["msk"]; ok && k > 0 {
				// one mask only: the k-th evaluation gets the lowest score
				n++
				if (n-1)%8 == k-1 {
					return ret(fs.st, VInt(w, 0))
				}
				return ret(fs.st, VInt(w, 1))
			}
			in := e.input(fmt.Sprintf("score%d", n), w, 0, 7, false)
			in.Sched = true
			n++
			return ret(fs.st, VTerm(in.Term))
		}
	}
	return nil
}

// stubScoreF replaces the mask penalty by an uninterpreted function of the colours of
// the matrix: equal matrices (as formulas) have equal scores, anything else is free.
func (e *Eng) stubScoreF() error {
	fs := e.p.scoreFuncs()
	if len(fs) == 0 {
		return fmt.Errorf("mask penalty function not identified")
	}
	tab := map[string]Value{}
	for _, f := range fs {
		f := f
		w, _, _ := intInfo(f.Signature.Results().At(0).Type())
		e.stubs[f] = func(e *Eng, fs *FS, a []Value) []Outcome {
			var sb strings.Builder
			sb.WriteString(f.Name())
			ok := true
			seen := map[*Obj]bool{}
			var walk func(v Value)
			walk = func(v Value) {
				switch v.k {
				case KInt:
					if v.x == nil {
						fmt.Fprintf(&sb, ",%d", v.n)
					} else {
						fmt.Fprintf(&sb, ",t%d", e.term(v).id)
					}
				case KBool:
					fmt.Fprintf(&sb, ",b%d", v.n)
				case KPtr:
					if v.x == nil {
						sb.WriteString(",nil")
						return
					}
					o, is := v.x.(*Obj)
					if !is {
						ok = false
						return
					}
					if seen[o] {
						return
					}
					seen[o] = true
					for i := range o.cells {
						walk(fs.st.rd(o, i))
					}
				case KSlice:
					if v.x == nil {
						return
					}
					s := v.x.(*Sl)
					fmt.Fprintf(&sb, "[%d", s.len)
					for i := 0; i < s.len; i++ {
						walk(fs.st.rd(s.obj, s.off+i))
					}
				case KAgg:
					for _, x := range v.x.([]Value) {
						walk(x)
					}
				}
			}
			walk(a[0])
			if !ok {
				unsup("argument of the penalty function")
			}
			k := sb.String()
			v, hit := tab[k]
			if !hit {
				hi := uint64(1)
				if x := e.job.P["smax"]; x > 0 {
					hi = uint64(x)
				}
				in := e.input(fmt.Sprintf("score%d", len(tab)), w, 0, hi, false)
				in.Sched = true
				v = VTerm(in.Term)
				tab[k] = v
			}
			return ret(fs.st, v)
		}
	}
	return nil
}

func isMatrix(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Matrix"
}

func (p *Prog) scoreFuncs() []*ssa.Function {
	p.scoreOnce.Do(func() { p.scoreF = p.findScoreFuncs() })
	return p.scoreF
}

func (p *Prog) findScoreFuncs() []*ssa.Function {
	var pk *ssa.Package
	for path, sp := range p.pkgs {
		if strings.HasPrefix(path, "github.com/yeqown/go-qrcode") && sp.Pkg.Name() == "qrcode" {
			pk = sp
		}
	}
	if pk == nil {
		return nil
	}
	p.build(pk)
	p.mu.Lock()
	defer p.mu.Unlock()
	cand := map[*ssa.Function]bool{}
	consider := func(f *ssa.Function) {
		if f == nil || f.Synthetic != "" || f.Object() == nil || f.Object().Exported() || strings.HasPrefix(f.Name(), "vx") {
			return
		}
		sg := f.Signature
		if sg.Results().Len() != 1 {
			return
		}
		if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		if _, named := sg.Results().At(0).Type().(*types.Named); named {
			return
		}
		nm := 0
		for i := 0; i < sg.Params().Len(); i++ {
			if !isMatrix(sg.Params().At(i).Type()) {
				return
			}
			nm++
		}
		if sg.Recv() != nil {
			if !isMatrix(sg.Recv().Type()) {
				return
			}
			nm++
		}
		if nm == 1 {
			cand[f] = true
		}
	}
	var all []*ssa.Function
	for _, m := range pk.Members {
		switch m := m.(type) {
		case *ssa.Function:
			all = append(all, m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.ssa.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					all = append(all, p.ssa.MethodValue(ms.At(i)))
				}
			}
		}
	}
	for _, f := range all {
		consider(f)
	}
	called := map[*ssa.Function]bool{}
	for f := range cand {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range cand {
		if !called[f] {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
