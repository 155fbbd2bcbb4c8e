package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v   any // Iface or nil
	msg string
}

type stats struct {
	branches, brDom, audits, brSolver, forks, asserts, assertFold, assertUnsat int
}

type Worker struct {
	pathState
	eng       *Engine
	ts        *Terms
	solver    *Solver
	second    *Solver // another solver that confirms verdicts
	nconf     int
	naudit    int
	auditTime time.Duration
	ex        *Explorer
	harness   string
	qcache    map[string]qres
	st        stats
	sglob     map[*ssa.Global]*any // standard library globals, initialised once per worker
	pglob     map[*ssa.Global]*any // repo/harness globals, initialised afresh on every path
	sinit     map[*ssa.Package]bool
	pinit     map[*ssa.Package]bool
	mcache    map[mkey]*ssa.Function
	reCache   map[string]*Native
	depth     int
	funcs     map[*cfn]bool
	stubs     map[string]int
	initing   int
}

type mkey struct {
	t types.Type
	m *types.Func
}

type ref struct {
	k uint8 // 0 reg 1 const 2 global
	i int
	c any
	g *ssa.Global
}

type instr func(fr *frame)

type cblock struct {
	ins  []instr
	phis []cphi
	// terminator: 0 jump, 1 if, 2 return, 3 panic/unreachable
	tk    uint8
	cond  ref
	succ  [2]int
	ret   []ref
	preds []int
}

type cphi struct {
	dst  int
	edge []ref
}

type cfn struct {
	fn       *ssa.Function
	name     string
	nreg     int
	blocks   []cblock
	hasDefer bool
	recover  int
	intr     intrinsic
	redirect *ssa.Function
	isRepo   bool
	isInit   bool
	once     sync.Once
	pos      map[int]string
}

type deferred struct {
	fn   any
	args []any
}

// debugPanics makes panics of the code under test print where they happen
var debugPanics = os.Getenv("SYMX_DEBUG") != ""

type frame struct {
	w         *Worker
	f         *cfn
	r         []any
	caller    *frame
	defers    []deferred
	panicking bool
	pan       targetPanic
	done      bool
	result    any
}

func (fr *frame) g(r ref) any {
	switch r.k {
	case 0:
		return fr.r[r.i]
	case 1:
		return r.c
	}
	return fr.w.global(r.g)
}

// ---------------------------------------------------------------- compile

type compiler struct {
	eng  *Engine
	f    *cfn
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.f.nreg
	c.f.nreg++
	c.regs[v] = i
	return i
}

func (c *compiler) ref(v ssa.Value) ref {
	switch x := v.(type) {
	case *ssa.Const:
		return ref{k: 1, c: constVal(x)}
	case *ssa.Global:
		return ref{k: 2, g: x}
	case *ssa.Function:
		return ref{k: 1, c: &Closure{fn: x}}
	case *ssa.Builtin:
		return ref{k: 1, c: &Builtin{x.Name()}}
	}
	return ref{k: 0, i: c.reg(v)}
}

func constVal(c *ssa.Const) any {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			return constant.StringVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, _, _ := widthOf(b)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return uint64(i) & mskw(w)
			}
			u, _ := constant.Uint64Val(v)
			return u & mskw(w)
		case b.Kind() == types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return f
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	// type parameters etc.
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value)
	case constant.Int:
		i, _ := constant.Int64Val(c.Value)
		return uint64(i)
	}
	return nil
}

func (e *Engine) cfnOf(fn *ssa.Function) *cfn {
	if v, ok := e.cfns.Load(fn); ok {
		return v.(*cfn)
	}
	n := &cfn{fn: fn, name: fn.String()}
	v, _ := e.cfns.LoadOrStore(fn, n)
	f := v.(*cfn)
	return f
}

func (e *Engine) compile(f *cfn) {
	f.once.Do(func() {
		fn := f.fn
		name := f.name
		if o := fn.Origin(); o != nil {
			name = o.String()
		}
		f.intr = intrinsics[name]
		if name == "reflect.TypeFor" && len(fn.TypeArgs()) == 1 {
			t := fn.TypeArgs()[0]
			f.intr = func(w *Worker, fr *frame, a []any) (any, bool) { return Iface{w.eng.rtErrType, RType{t}}, true }
		}
		if m, ok := redirects[name]; ok {
			f.redirect = e.modelFn(m)
		}
		if fn.Pkg != nil {
			p := fn.Pkg.Pkg.Path()
			f.isRepo = strings.HasPrefix(p, e.repoPath)
			f.isInit = fn.Name() == "init" && fn.Synthetic == "package initializer"
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			f.isRepo = strings.HasPrefix(o.Pkg.Pkg.Path(), e.repoPath)
		}
		c := &compiler{eng: e, f: f, regs: map[ssa.Value]int{}}
		for _, p := range fn.Params {
			c.reg(p)
		}
		for _, p := range fn.FreeVars {
			c.reg(p)
		}
		f.recover = -1
		f.blocks = make([]cblock, len(fn.Blocks))
		for i, b := range fn.Blocks {
			cb := &f.blocks[i]
			for _, p := range b.Preds {
				cb.preds = append(cb.preds, p.Index)
			}
			for _, in := range b.Instrs {
				c.instr(cb, in)
			}
		}
		if fn.Recover != nil {
			f.recover = fn.Recover.Index
		}
	})
}

func (c *compiler) instr(cb *cblock, in ssa.Instruction) {
	add := func(f instr) { cb.ins = append(cb.ins, f) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		p := cphi{dst: c.reg(x)}
		for _, e := range x.Edges {
			p.edge = append(p.edge, c.ref(e))
		}
		cb.phis = append(cb.phis, p)
	case *ssa.Jump:
		cb.tk = 0
		cb.succ[0] = x.Block().Succs[0].Index
	case *ssa.If:
		cb.tk = 1
		cb.cond = c.ref(x.Cond)
		cb.succ[0] = x.Block().Succs[0].Index
		cb.succ[1] = x.Block().Succs[1].Index
	case *ssa.Return:
		cb.tk = 2
		for _, r := range x.Results {
			cb.ret = append(cb.ret, c.ref(r))
		}
	case *ssa.Panic:
		cb.tk = 3
		v := c.ref(x.X)
		add(func(fr *frame) { fr.w.goPanic(fr.g(v)) })
	case *ssa.Alloc:
		d := c.reg(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		add(func(fr *frame) {
			p := new(any)
			*p = zeroOf(t)
			fr.r[d] = p
		})
	case *ssa.Store:
		a, v := c.ref(x.Addr), c.ref(x.Val)
		add(func(fr *frame) { fr.w.store(fr.g(a), fr.g(v)) })
	case *ssa.UnOp:
		c.unop(add, x)
	case *ssa.BinOp:
		c.binop(add, x)
	case *ssa.Call:
		d := c.reg(x)
		call := c.call(&x.Call)
		add(func(fr *frame) { fr.r[d] = call(fr) })
	case *ssa.Defer:
		c.f.hasDefer = true
		prep := c.prepCall(&x.Call)
		add(func(fr *frame) {
			fn, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn, args})
		})
	case *ssa.RunDefers:
		c.f.hasDefer = true
		add(func(fr *frame) { fr.runDefers() })
	case *ssa.ChangeInterface:
		d, v := c.reg(x), c.ref(x.X)
		add(func(fr *frame) { fr.r[d] = fr.g(v) })
	case *ssa.ChangeType:
		d, v := c.reg(x), c.ref(x.X)
		add(func(fr *frame) { fr.r[d] = fr.g(v) })
	case *ssa.Convert:
		d, v := c.reg(x), c.ref(x.X)
		from, to := x.X.Type(), x.Type()
		add(func(fr *frame) { fr.r[d] = fr.w.convert(fr.g(v), from, to) })
	case *ssa.MultiConvert:
		d, v := c.reg(x), c.ref(x.X)
		from, to := x.X.Type(), x.Type()
		add(func(fr *frame) { fr.r[d] = fr.w.convert(fr.g(v), from, to) })
	case *ssa.MakeClosure:
		d := c.reg(x)
		fn := x.Fn.(*ssa.Function)
		var bs []ref
		for _, b := range x.Bindings {
			bs = append(bs, c.ref(b))
		}
		add(func(fr *frame) {
			env := make([]any, len(bs))
			for i, b := range bs {
				env[i] = fr.g(b)
			}
			fr.r[d] = &Closure{fn: fn, env: env}
		})
	case *ssa.MakeInterface:
		d, v := c.reg(x), c.ref(x.X)
		t := c.eng.canon(x.X.Type())
		add(func(fr *frame) { fr.r[d] = Iface{t, copyVal(fr.g(v))} })
	case *ssa.MakeMap:
		d := c.reg(x)
		add(func(fr *frame) { fr.r[d] = newMap() })
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.ref(x.Len), c.ref(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		isB := isByteType(et)
		add(func(fr *frame) {
			n := fr.w.concInt(fr.g(l), "make length")
			m := fr.w.concInt(fr.g(cp), "make capacity")
			if n < 0 || n > 1<<40 {
				fr.w.goPanicStr("runtime error: makeslice: len out of range")
			}
			if m < n {
				fr.w.goPanicStr("runtime error: makeslice: cap out of range")
			}
			if m > 1<<26 {
				panic(pathAbort{"allocation above engine limit" + fr.w.place()})
			}
			if isB {
				fr.r[d] = BSlice{newBArr(m), 0, n, m}
				return
			}
			fr.r[d] = GSlice{newGArr(m, et), 0, n, m}
		})
	case *ssa.Slice:
		c.slice(add, x)
	case *ssa.SliceToArrayPointer:
		d, v := c.reg(x), c.ref(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		add(func(fr *frame) {
			switch s := fr.g(v).(type) {
			case BSlice:
				if s.n < n {
					fr.w.goPanicStr("runtime error: cannot convert slice to array pointer")
				}
				if s.off == 0 && len(s.a.c) == n {
					p := new(any)
					*p = s.a
					fr.r[d] = p
					return
				}
			case GSlice:
				if s.n < n {
					fr.w.goPanicStr("runtime error: cannot convert slice to array pointer")
				}
				if s.off == 0 && len(s.a.e) == n {
					p := new(any)
					*p = s.a
					fr.r[d] = p
					return
				}
			}
			// read-only approximation is unsound for writes: refuse unless immediately loaded
			p := new(any)
			switch s := fr.g(v).(type) {
			case BSlice:
				*p = bsFromBytes(BSlice{s.a, s.off, n, n}.bytes()).a
			case GSlice:
				*p = &GArr{append([]any(nil), s.a.e[s.off:s.off+n]...)}
			}
			fr.r[d] = p
		})
	case *ssa.FieldAddr:
		d, v, i := c.reg(x), c.ref(x.X), x.Field
		add(func(fr *frame) {
			switch p := fr.g(v).(type) {
			case *any:
				if p == nil {
					fr.w.nilDeref()
				}
				s, ok := (*p).(*SVal)
				if !ok {
					panic(pathAbort{fmt.Sprintf("field of native object in %s", fr.f.name)})
				}
				fr.r[d] = &s.f[i]
			default:
				panic(pathAbort{fmt.Sprintf("FieldAddr on %T in %s", p, fr.f.name)})
			}
		})
	case *ssa.Field:
		d, v, i := c.reg(x), c.ref(x.X), x.Field
		add(func(fr *frame) { fr.r[d] = copyVal(fr.g(v).(*SVal).f[i]) })
	case *ssa.IndexAddr:
		c.indexAddr(add, x)
	case *ssa.Index:
		d, v, i := c.reg(x), c.ref(x.X), c.ref(x.Index)
		iw, isg, _ := widthOf(x.Index.Type())
		ew := elemWidth(x.X.Type())
		add(func(fr *frame) { fr.r[d] = fr.w.indexVal(fr.g(v), fr.g(i), iw, isg, ew) })
	case *ssa.Lookup:
		c.lookup(add, x)
	case *ssa.MapUpdate:
		m, k, v := c.ref(x.Map), c.ref(x.Key), c.ref(x.Value)
		add(func(fr *frame) { fr.w.mapSet(fr.g(m).(*MapV), copyVal(fr.g(k)), copyVal(fr.g(v))) })
	case *ssa.Range:
		d, v := c.reg(x), c.ref(x.X)
		add(func(fr *frame) {
			switch m := fr.g(v).(type) {
			case *MapV:
				fr.r[d] = fr.w.newMapIter(m)
			default:
				fr.r[d] = &strIter{s: m}
			}
		})
	case *ssa.Next:
		d, v := c.reg(x), c.ref(x.Iter)
		tup := x.Type().(*types.Tuple)
		add(func(fr *frame) {
			switch it := fr.g(v).(type) {
			case *mapIter:
				k, val, ok := fr.w.mapNext(it)
				if !ok {
					fr.r[d] = Tuple{false, zeroT(tup.At(1).Type()), zeroT(tup.At(2).Type())}
					return
				}
				fr.r[d] = Tuple{true, k, copyVal(val)}
			case *strIter:
				if it.pos >= strLen(it.s) {
					fr.r[d] = Tuple{false, uint64(0), uint64(0)}
					return
				}
				r, n := fr.w.decodeRune(it.s, it.pos)
				p := it.pos
				it.pos += n
				fr.r[d] = Tuple{true, uint64(p), r}
			}
		})
	case *ssa.TypeAssert:
		c.typeAssert(add, x)
	case *ssa.Extract:
		d, v, i := c.reg(x), c.ref(x.Tuple), x.Index
		add(func(fr *frame) { fr.r[d] = fr.g(v).(Tuple)[i] })
	default:
		name := fmt.Sprintf("%T", in)
		add(func(fr *frame) { panic(pathAbort{"unsupported instruction " + name + " in " + fr.f.name}) })
		if v, ok := in.(ssa.Value); ok {
			c.reg(v)
		}
	}
}

func zeroT(t types.Type) any {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zeroOf(t)
}

func newGArr(n int, et types.Type) *GArr {
	a := &GArr{make([]any, n)}
	if n == 0 {
		return a
	}
	z := zeroOf(et)
	switch z.(type) {
	case *SVal, *GArr, *BArr:
		a.e[0] = z
		for i := 1; i < n; i++ {
			a.e[i] = copyVal(z)
		}
	default:
		for i := range a.e {
			a.e[i] = z
		}
	}
	return a
}

func (c *compiler) unop(add func(instr), x *ssa.UnOp) {
	d, v := c.reg(x), c.ref(x.X)
	switch x.Op {
	case token.MUL:
		add(func(fr *frame) { fr.r[d] = fr.w.load(fr.g(v)) })
	case token.NOT:
		add(func(fr *frame) {
			switch b := fr.g(v).(type) {
			case bool:
				fr.r[d] = !b
			case *Term:
				fr.r[d] = fr.w.boolVal(fr.w.ts.Not(b))
			}
		})
	case token.SUB:
		w, _, isInt := widthOf(x.Type())
		add(func(fr *frame) {
			switch a := fr.g(v).(type) {
			case uint64:
				fr.r[d] = (-a) & mskw(w)
			case *Term:
				fr.r[d] = fr.w.intVal(fr.w.ts.Bin(OSub, fr.w.ts.Const(w, 0), a))
			case float64:
				fr.r[d] = -a
			case float32:
				fr.r[d] = -a
			case complex128:
				fr.r[d] = -a
			default:
				_ = isInt
				panic(pathAbort{"neg"})
			}
		})
	case token.XOR:
		w, _, _ := widthOf(x.Type())
		add(func(fr *frame) {
			switch a := fr.g(v).(type) {
			case uint64:
				fr.r[d] = ^a & mskw(w)
			case *Term:
				fr.r[d] = fr.w.intVal(fr.w.ts.BNot(a))
			}
		})
	default:
		add(func(fr *frame) { panic(pathAbort{"channel receive in " + fr.f.name}) })
	}
}

func (w *Worker) boolVal(t *Term) any {
	if t.isConst() {
		return t.c != 0
	}
	return t
}

func (w *Worker) intVal(t *Term) any {
	if t.isConst() {
		return t.c
	}
	return t
}

func (w *Worker) truth(v any) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return w.branch(b)
	}
	panic(pathAbort{fmt.Sprintf("truth of %T", v)})
}

func (c *compiler) binop(add func(instr), x *ssa.BinOp) {
	d, a, b := c.reg(x), c.ref(x.X), c.ref(x.Y)
	op := x.Op
	w, sg, isInt := widthOf(x.X.Type())
	m := mskw(w)
	if isInt {
		yw, ysg, _ := widthOf(x.Y.Type())
		var fast func(p, q uint64) (any, bool)
		switch op {
		case token.ADD:
			fast = func(p, q uint64) (any, bool) { return (p + q) & m, true }
		case token.SUB:
			fast = func(p, q uint64) (any, bool) { return (p - q) & m, true }
		case token.MUL:
			fast = func(p, q uint64) (any, bool) { return (p * q) & m, true }
		case token.AND:
			fast = func(p, q uint64) (any, bool) { return p & q, true }
		case token.OR:
			fast = func(p, q uint64) (any, bool) { return p | q, true }
		case token.XOR:
			fast = func(p, q uint64) (any, bool) { return p ^ q, true }
		case token.AND_NOT:
			fast = func(p, q uint64) (any, bool) { return p &^ q, true }
		case token.EQL:
			fast = func(p, q uint64) (any, bool) { return p == q, true }
		case token.NEQ:
			fast = func(p, q uint64) (any, bool) { return p != q, true }
		case token.LSS:
			if sg {
				fast = func(p, q uint64) (any, bool) { return sx(p, w) < sx(q, w), true }
			} else {
				fast = func(p, q uint64) (any, bool) { return p < q, true }
			}
		case token.LEQ:
			if sg {
				fast = func(p, q uint64) (any, bool) { return sx(p, w) <= sx(q, w), true }
			} else {
				fast = func(p, q uint64) (any, bool) { return p <= q, true }
			}
		case token.GTR:
			if sg {
				fast = func(p, q uint64) (any, bool) { return sx(p, w) > sx(q, w), true }
			} else {
				fast = func(p, q uint64) (any, bool) { return p > q, true }
			}
		case token.GEQ:
			if sg {
				fast = func(p, q uint64) (any, bool) { return sx(p, w) >= sx(q, w), true }
			} else {
				fast = func(p, q uint64) (any, bool) { return p >= q, true }
			}
		}
		add(func(fr *frame) {
			av, bv := fr.g(a), fr.g(b)
			if fast != nil {
				if p, ok := av.(uint64); ok {
					if q, ok := bv.(uint64); ok {
						fr.r[d], _ = fast(p, q)
						return
					}
				}
			}
			fr.r[d] = fr.w.intOp(op, av, bv, w, sg, yw, ysg)
		})
		return
	}
	add(func(fr *frame) { fr.r[d] = fr.w.genOp(op, fr.g(a), fr.g(b)) })
}

func (w *Worker) intOp(op token.Token, av, bv any, wd uint8, sg bool, yw uint8, ysg bool) any {
	ts := w.ts
	p, pc := av.(uint64)
	q, qc := bv.(uint64)
	switch op {
	case token.SHL, token.SHR:
		if ysg {
			if qc {
				if sx(q, yw) < 0 {
					w.goPanicStr("runtime error: negative shift amount")
				}
			} else if w.branch(ts.Cmp(OSlt, bv.(*Term), ts.Const(yw, 0))) {
				w.goPanicStr("runtime error: negative shift amount")
			}
		}
		if pc && qc {
			if op == token.SHL {
				if q >= uint64(wd) {
					return uint64(0)
				}
				return (p << q) & mskw(wd)
			}
			if sg {
				if q >= uint64(wd) {
					q = uint64(wd) - 1
				}
				return uint64(sx(p, wd)>>q) & mskw(wd)
			}
			if q >= uint64(wd) {
				return uint64(0)
			}
			return p >> q
		}
		a := w.toTerm(av, wd)
		o := OShl
		if op == token.SHR {
			if sg {
				o = OAshr
			} else {
				o = OLshr
			}
		}
		if qc {
			if q >= uint64(wd) {
				if o == OAshr {
					q = uint64(wd) - 1
				} else {
					return uint64(0)
				}
			}
			return w.intVal(ts.Bin(o, a, ts.Const(wd, q)))
		}
		b := bv.(*Term)
		if yw <= wd {
			return w.intVal(ts.Bin(o, a, ts.Zext(b, wd)))
		}
		big := ts.Cmp(OUle, ts.Const(yw, uint64(wd)), b)
		sh := ts.Bin(o, a, ts.Extract(b, 0, wd))
		if o == OAshr {
			return w.intVal(ts.Ite(big, ts.Bin(OAshr, a, ts.Const(wd, uint64(wd)-1)), sh))
		}
		return w.intVal(ts.Ite(big, ts.Const(wd, 0), sh))
	case token.QUO, token.REM:
		if qc {
			if q == 0 {
				w.goPanicStr("runtime error: integer divide by zero")
			}
		} else if w.branch(w.eqc(bv.(*Term), 0)) {
			w.goPanicStr("runtime error: integer divide by zero")
		}
		var o Op
		switch {
		case op == token.QUO && sg:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case sg:
			o = OSRem
		default:
			o = OURem
		}
		if pc && qc {
			return evalOp(o, wd, 0, wd, p, q, 0, wd)
		}
		return w.intVal(ts.Bin(o, w.toTerm(av, wd), w.toTerm(bv, wd)))
	}
	a, b := w.toTerm(av, wd), w.toTerm(bv, wd)
	switch op {
	case token.ADD:
		return w.intVal(ts.Bin(OAdd, a, b))
	case token.SUB:
		return w.intVal(ts.Bin(OSub, a, b))
	case token.MUL:
		return w.intVal(ts.Bin(OMul, a, b))
	case token.AND:
		return w.intVal(ts.Bin(OBAnd, a, b))
	case token.OR:
		return w.intVal(ts.Bin(OBOr, a, b))
	case token.XOR:
		return w.intVal(ts.Bin(OBXor, a, b))
	case token.AND_NOT:
		return w.intVal(ts.Bin(OBAnd, a, ts.BNot(b)))
	case token.EQL:
		return w.boolVal(ts.Eq(a, b))
	case token.NEQ:
		return w.boolVal(ts.Not(ts.Eq(a, b)))
	}
	lt, le := OUlt, OUle
	if sg {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return w.boolVal(ts.Cmp(lt, a, b))
	case token.LEQ:
		return w.boolVal(ts.Cmp(le, a, b))
	case token.GTR:
		return w.boolVal(ts.Cmp(lt, b, a))
	case token.GEQ:
		return w.boolVal(ts.Cmp(le, b, a))
	}
	panic(pathAbort{"intOp " + op.String()})
}

func (w *Worker) genOp(op token.Token, a, b any) any {
	switch op {
	case token.EQL:
		return w.boolVal(w.eqVal(a, b))
	case token.NEQ:
		return w.boolVal(w.ts.Not(w.eqVal(a, b)))
	}
	switch x := a.(type) {
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case float32:
		y := b.(float32)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case string, *SStr:
		if op == token.ADD {
			return strConcat(a, b)
		}
		xs, xok := a.(string)
		ys, yok := b.(string)
		if xok && yok {
			switch op {
			case token.LSS:
				return xs < ys
			case token.LEQ:
				return xs <= ys
			case token.GTR:
				return xs > ys
			case token.GEQ:
				return xs >= ys
			}
		}
		p, q := strBytes(a), strBytes(b)
		switch op {
		case token.LSS:
			return w.boolVal(w.ltBytes(p, q))
		case token.GTR:
			return w.boolVal(w.ltBytes(q, p))
		case token.LEQ:
			return w.boolVal(w.ts.Not(w.ltBytes(q, p)))
		case token.GEQ:
			return w.boolVal(w.ts.Not(w.ltBytes(p, q)))
		}
	case bool, *Term:
		// bool logic operators on bools (rare)
		ta, tb := w.toTerm(a, 0), w.toTerm(b, 0)
		switch op {
		case token.AND:
			return w.boolVal(w.ts.And(ta, tb))
		case token.OR:
			return w.boolVal(w.ts.Or(ta, tb))
		}
	}
	panic(pathAbort{fmt.Sprintf("operator %s on %T", op, a)})
}

// concInt concretises an int (enumerating feasible values when symbolic).
func (w *Worker) concInt(v any, why string) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(sx(w.concretize(x, why), x.w))
	}
	panic(pathAbort{fmt.Sprintf("concInt of %T", v)})
}

func (w *Worker) nilDeref() {
	w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

type symPtr struct {
	b   *BArr
	g   *GArr
	off int
	n   int
	idx *Term
	ew  uint8 // width of the elements if they are integers
}

func (w *Worker) load(p any) any {
	switch x := p.(type) {
	case *any:
		if x == nil {
			w.nilDeref()
		}
		switch v := (*x).(type) {
		case *SVal, *GArr, *BArr:
			return copyVal(v)
		default:
			return v
		}
	case BPtr:
		if t := x.a.t; t != nil && t[x.i] != nil {
			return t[x.i]
		}
		return uint64(x.a.c[x.i])
	case symPtr:
		return w.selectAt(x)
	}
	panic(pathAbort{fmt.Sprintf("load through %T", p)})
}

func (w *Worker) selectAt(x symPtr) any {
	if x.b != nil {
		return w.intVal(w.selByte(x, w.ts.Zext(x.idx, 64)))
	}
	// generic: scalars only
	width := uint8(255)
	if x.ew != 0 {
		width = x.ew
	}
	for i := 0; i < x.n; i++ {
		switch v := x.g.e[x.off+i].(type) {
		case uint64:
		case *Term:
			width = v.w
		case bool:
			width = 0
		default:
			j := int(w.concretize(x.idx, "index of non-scalar element"))
			return copyVal(x.g.e[x.off+j])
		}
	}
	if width == 255 {
		width = 64
	}
	idx := w.ts.Zext(x.idx, 64)
	var rec func(lo, n int) *Term
	rec = func(lo, n int) *Term {
		if n == 1 {
			return w.toTerm(x.g.e[x.off+lo], width)
		}
		h := 1
		for h*2 < n {
			h *= 2
		}
		a, b := rec(lo, h), rec(lo+h, n-h)
		return w.ts.Ite(w.ts.Cmp(OUlt, idx, w.ts.Const(64, uint64(lo+h))), a, b)
	}
	t := rec(0, x.n)
	return w.scalar(t)
}

func (w *Worker) scalar(t *Term) any {
	if t.w == 0 {
		return w.boolVal(t)
	}
	return w.intVal(t)
}

func (w *Worker) selByte(x symPtr, idx *Term) *Term {
	var rec func(lo, n int) *Term
	rec = func(lo, n int) *Term {
		if n == 1 {
			return w.byteT(x.b.get(x.off + lo))
		}
		h := 1
		for h*2 < n {
			h *= 2
		}
		a, b := rec(lo, h), rec(lo+h, n-h)
		return w.ts.Ite(w.ts.Cmp(OUlt, idx, w.ts.Const(64, uint64(lo+h))), a, b)
	}
	return rec(0, x.n)
}

func (w *Worker) store(p, v any) {
	switch x := p.(type) {
	case *any:
		if x == nil {
			w.nilDeref()
		}
		storeInto(x, v)
		return
	case BPtr:
		x.a.set(x.i, w.byteOf(v))
		return
	case symPtr:
		j := int(w.concretize(x.idx, "store index"))
		if x.b != nil {
			x.b.set(x.off+j, w.byteOf(v))
		} else {
			storeInto(&x.g.e[x.off+j], v)
		}
		return
	}
	panic(pathAbort{fmt.Sprintf("store through %T", p)})
}

func (w *Worker) byteOf(v any) sb {
	switch x := v.(type) {
	case uint64:
		return sb{c: byte(x)}
	case *Term:
		if x.isConst() {
			return sb{c: byte(x.c)}
		}
		return sb{t: x}
	}
	panic(pathAbort{fmt.Sprintf("byteOf %T", v)})
}

func (w *Worker) byteVal(b sb) any {
	if b.t != nil {
		return b.t
	}
	return uint64(b.c)
}

// checkIndex returns a concrete index or -1 with a symbolic term in bounds.
func (w *Worker) checkIndex(iv any, iw uint8, isg bool, n int) (int, *Term) {
	switch i := iv.(type) {
	case uint64:
		k := int64(i)
		if isg {
			k = sx(i, iw)
		}
		if k < 0 || k >= int64(n) {
			w.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", k, n))
		}
		return int(k), nil
	case *Term:
		t := i
		if isg {
			t = w.ts.Sext(t, 64)
		} else {
			t = w.ts.Zext(t, 64)
		}
		if !w.branch(w.ts.Cmp(OUlt, t, w.ts.Const(64, uint64(n)))) {
			w.goPanicStr(fmt.Sprintf("runtime error: index out of range (symbolic) with length %d", n))
		}
		if t.isConst() {
			return int(t.c), nil
		}
		return -1, t
	}
	panic(pathAbort{fmt.Sprintf("index of %T", iv)})
}

func (c *compiler) indexAddr(add func(instr), x *ssa.IndexAddr) {
	d, v, i := c.reg(x), c.ref(x.X), c.ref(x.Index)
	iw, isg, _ := widthOf(x.Index.Type())
	ew := elemWidth(x.X.Type())
	add(func(fr *frame) {
		w := fr.w
		var b *BArr
		var g *GArr
		var off, n int
		switch s := fr.g(v).(type) {
		case BSlice:
			b, off, n = s.a, s.off, s.n
		case GSlice:
			g, off, n = s.a, s.off, s.n
		case *any:
			if s == nil {
				w.nilDeref()
			}
			switch a := (*s).(type) {
			case *BArr:
				b, n = a, len(a.c)
			case *GArr:
				g, n = a, len(a.e)
			}
		default:
			panic(pathAbort{fmt.Sprintf("IndexAddr on %T", s)})
		}
		k, t := w.checkIndex(fr.g(i), iw, isg, n)
		if t != nil {
			if n > 4096 {
				k = int(w.concretize(t, "index into large array"))
			} else {
				fr.r[d] = symPtr{b: b, g: g, off: off, n: n, idx: t, ew: ew}
				return
			}
		}
		if b != nil {
			fr.r[d] = BPtr{b, off + k}
			return
		}
		fr.r[d] = &g.e[off+k]
	})
}

func (w *Worker) indexVal(v, iv any, iw uint8, isg bool, ew uint8) any {
	switch a := v.(type) {
	case *BArr:
		k, t := w.checkIndex(iv, iw, isg, len(a.c))
		if t != nil {
			return w.selectAt(symPtr{b: a, n: len(a.c), idx: t})
		}
		return w.byteVal(a.get(k))
	case *GArr:
		k, t := w.checkIndex(iv, iw, isg, len(a.e))
		if t != nil {
			return w.selectAt(symPtr{g: a, n: len(a.e), idx: t, ew: ew})
		}
		return copyVal(a.e[k])
	case string, *SStr:
		n := strLen(v)
		k, t := w.checkIndex(iv, iw, isg, n)
		if t != nil {
			if n > 4096 {
				k = int(w.concretize(t, "index into long string"))
			} else {
				bs := bsFromStr(v)
				return w.selectAt(symPtr{b: bs.a, n: n, idx: t})
			}
		}
		return w.byteVal(strAt(v, k))
	}
	panic(pathAbort{fmt.Sprintf("Index on %T", v)})
}

func (c *compiler) lookup(add func(instr), x *ssa.Lookup) {
	d, v, k := c.reg(x), c.ref(x.X), c.ref(x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		iw, isg, _ := widthOf(x.Index.Type())
		add(func(fr *frame) { fr.r[d] = fr.w.indexVal(fr.g(v), fr.g(k), iw, isg, 0) })
		return
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	commaOk := x.CommaOk
	kw, _, _ := widthOf(x.Index.Type())
	ew, _, eok := widthOf(et)
	if !eok {
		kw = 0
	}
	add(func(fr *frame) {
		m := fr.g(v).(*MapV)
		if r, found, ok := fr.w.mapSelect(m, fr.g(k), kw, ew); ok {
			if commaOk {
				fr.r[d] = Tuple{r, found}
			} else {
				fr.r[d] = r
			}
			return
		}
		i := fr.w.mapFind(m, fr.g(k))
		var val any
		if i >= 0 {
			val = copyVal(m.ents[i].v)
		} else {
			val = zeroOf(et)
		}
		if commaOk {
			fr.r[d] = Tuple{val, i >= 0}
		} else {
			fr.r[d] = val
		}
	})
}

// mapSelect looks a symbolic integer key up in a map of concrete integers without a path per entry:
// one branch on whether the key is present, and the value as a term.
func (w *Worker) mapSelect(m *MapV, k any, kw, ew uint8) (val, found any, ok bool) {
	kt, sym := k.(*Term)
	if !sym || kt.isConst() || m == nil || kw == 0 || ew == 0 || m.symK != 0 || m.n < 4 {
		return nil, nil, false
	}
	type ent struct{ k, v uint64 }
	var es []ent
	for _, e := range m.ents {
		if e.del {
			continue
		}
		ek, ok1 := e.k.(uint64)
		ev, ok2 := e.v.(uint64)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		es = append(es, ent{ek & mskw(kw), ev & mskw(ew)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	ts := w.ts
	le := func(a, b *Term) *Term { return ts.Not(ts.Cmp(OUlt, b, a)) }
	present := ts.ff
	for i := 0; i < len(es); {
		j := i + 1
		for j < len(es) && es[j].k == es[j-1].k+1 {
			j++
		}
		lo, hi := ts.Const(kw, es[i].k), ts.Const(kw, es[j-1].k)
		in := ts.And(le(lo, kt), le(kt, hi))
		if j == i+1 {
			in = ts.Eq(kt, lo)
		}
		present = ts.Or(present, in)
		i = j
	}
	if !w.branch(present) {
		return uint64(0), false, true
	}
	// runs of consecutive keys whose values are equal or advance with the key
	type run struct {
		lo uint64
		t  *Term
	}
	var runs []run
	for i := 0; i < len(es); {
		j := i + 1
		for j < len(es) && es[j].k == es[j-1].k+1 && es[j].v == es[j-1].v {
			j++
		}
		if j == i+1 {
			for j < len(es) && es[j].k == es[j-1].k+1 && es[j].v == (es[j-1].v+1)&mskw(ew) {
				j++
			}
			t := ts.Const(ew, es[i].v)
			if j > i+1 {
				x := kt
				if kw > ew {
					x = ts.Extract(kt, 0, ew)
				} else if kw < ew {
					x = ts.Zext(kt, ew)
				}
				t = x
				if c := (es[i].v - es[i].k) & mskw(ew); c != 0 {
					t = ts.Bin(OAdd, x, ts.Const(ew, c))
				}
			}
			runs = append(runs, run{es[i].k, t})
		} else {
			runs = append(runs, run{es[i].k, ts.Const(ew, es[i].v)})
		}
		i = j
	}
	var rec func(r []run) *Term
	rec = func(r []run) *Term {
		if len(r) == 1 {
			return r[0].t
		}
		h := len(r) / 2
		return ts.Ite(ts.Cmp(OUlt, kt, ts.Const(kw, r[h].lo)), rec(r[:h]), rec(r[h:]))
	}
	return w.scalar(rec(runs)), true, true
}

func (w *Worker) newMapIter(m *MapV) *mapIter {
	it := &mapIter{m: m}
	if m != nil && w.mapAll > 0 && m.n > 1 && m.n <= w.mapAll && w.initing == 0 {
		it.all = true
	}
	return it
}

func (w *Worker) mapNext(it *mapIter) (any, any, bool) {
	if it.m == nil {
		return nil, nil, false
	}
	if it.all {
		var live []int
		for i := range it.m.ents {
			if i < len(it.used) && it.used[i] || it.m.ents[i].del {
				continue
			}
			live = append(live, i)
		}
		if len(live) == 0 {
			return nil, nil, false
		}
		j := live[w.choose(len(live))]
		for len(it.used) <= j {
			it.used = append(it.used, false)
		}
		it.used[j] = true
		return it.m.ents[j].k, it.m.ents[j].v, true
	}
	for it.i < len(it.m.ents) {
		e := it.m.ents[it.i]
		it.i++
		if !e.del {
			return e.k, e.v, true
		}
	}
	return nil, nil, false
}

func (c *compiler) slice(add func(instr), x *ssa.Slice) {
	d, v := c.reg(x), c.ref(x.X)
	var lo, hi, mx ref
	hasLo, hasHi, hasMax := x.Low != nil, x.High != nil, x.Max != nil
	if hasLo {
		lo = c.ref(x.Low)
	}
	if hasHi {
		hi = c.ref(x.High)
	}
	if hasMax {
		mx = c.ref(x.Max)
	}
	add(func(fr *frame) {
		w := fr.w
		sv := fr.g(v)
		var n, cp, off int
		var b *BArr
		var g *GArr
		isStr, isB := false, false
		switch s := sv.(type) {
		case string, *SStr:
			n = strLen(s)
			cp = n
			isStr = true
		case BSlice:
			b, off, n, cp, isB = s.a, s.off, s.n, s.cap, true
		case GSlice:
			g, off, n, cp = s.a, s.off, s.n, s.cap
		case *any:
			if s == nil {
				w.nilDeref()
			}
			switch a := (*s).(type) {
			case *BArr:
				b, n, isB = a, len(a.c), true
				cp = n
			case *GArr:
				g, n = a, len(a.e)
				cp = n
			}
		default:
			panic(pathAbort{fmt.Sprintf("Slice of %T", sv)})
		}
		l, h, m := 0, n, cp
		bound := func(r ref, max int) int {
			val := fr.g(r)
			if t, ok := val.(*Term); ok {
				// out of range => panic path; else enumerate
				if !w.branch(w.ts.Cmp(OUle, w.ts.Zext(t, 64), w.ts.Const(64, uint64(max)))) {
					w.goPanicStr("runtime error: slice bounds out of range (symbolic)")
				}
				return int(w.concretize(t, "slice bound"))
			}
			return int(int64(val.(uint64)))
		}
		if hasMax {
			m = bound(mx, cp)
		}
		if hasHi {
			h = bound(hi, m)
		}
		if hasLo {
			l = bound(lo, h)
		}
		if m < 0 || m > cp {
			w.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", m, cp))
		}
		if h < 0 || h > m {
			w.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", h, m))
		}
		if l < 0 || l > h {
			w.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", l, h))
		}
		switch {
		case isStr:
			fr.r[d] = strSlice(sv, l, h)
		case isB:
			fr.r[d] = BSlice{b, off + l, h - l, m - l}
		default:
			fr.r[d] = GSlice{g, off + l, h - l, m - l}
		}
	})
}

func (c *compiler) typeAssert(add func(instr), x *ssa.TypeAssert) {
	d, v := c.reg(x), c.ref(x.X)
	at := c.eng.canon(x.AssertedType)
	ifc, isIface := at.Underlying().(*types.Interface)
	ck := x.CommaOk
	add(func(fr *frame) {
		val := fr.g(v)
		ok := false
		var res any
		if f, isF := val.(Iface); isF {
			if isIface {
				ok = fr.w.eng.implements(f.t, ifc)
				res = val
			} else {
				ok = f.t == at || types.Identical(f.t, at)
				res = f.v
			}
		}
		if ck {
			if !ok {
				res = zeroOf(at)
			}
			fr.r[d] = Tuple{copyVal(res), ok}
			return
		}
		if !ok {
			fr.w.goPanicStr("interface conversion: not " + at.String())
		}
		fr.r[d] = copyVal(res)
	})
}

// ---------------------------------------------------------------- calls

func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *frame) (any, []any) {
	var args []ref
	for _, a := range cc.Args {
		args = append(args, c.ref(a))
	}
	if cc.IsInvoke() {
		recv := c.ref(cc.Value)
		m := cc.Method
		return func(fr *frame) (any, []any) {
			fn, self := fr.w.resolve(fr.g(recv), m)
			as := make([]any, 0, len(args)+1)
			as = append(as, self)
			for _, a := range args {
				as = append(as, fr.g(a))
			}
			return fn, as
		}
	}
	fv := c.ref(cc.Value)
	// builtins that need types
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		fv = ref{k: 1, c: &Builtin{b.Name()}}
	}
	return func(fr *frame) (any, []any) {
		as := make([]any, len(args))
		for i, a := range args {
			as[i] = fr.g(a)
		}
		return fr.g(fv), as
	}
}

func (c *compiler) call(cc *ssa.CallCommon) func(fr *frame) any {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return c.builtin(b, cc)
	}
	if fn := cc.StaticCallee(); fn != nil && !cc.IsInvoke() {
		if _, isClo := cc.Value.(*ssa.MakeClosure); !isClo {
			var args []ref
			for _, a := range cc.Args {
				args = append(args, c.ref(a))
			}
			cf := c.eng.cfnOf(fn)
			return func(fr *frame) any {
				as := make([]any, len(args))
				for i, a := range args {
					as[i] = fr.g(a)
				}
				return fr.w.callFn(fr, cf, as, nil)
			}
		}
	}
	prep := c.prepCall(cc)
	return func(fr *frame) any {
		fn, args := prep(fr)
		return fr.w.callVal(fr, fn, args)
	}
}

func (w *Worker) resolve(recv any, m *types.Func) (any, any) {
	f, ok := recv.(Iface)
	if !ok {
		w.nilDeref()
	}
	if rt, ok := f.v.(RType); ok {
		return &Closure{nat: func(w *Worker, args []any) any { return w.rtypeMethod(rt, m.Name(), args[1:]) }}, recv
	}
	k := mkey{f.t, m}
	fn, ok := w.mcache[k]
	if !ok {
		fn = w.eng.lookupMethod(f.t, m)
		w.mcache[k] = fn
	}
	if fn == nil {
		panic(pathAbort{"no method " + m.Name() + " on " + f.t.String()})
	}
	return &Closure{fn: fn}, f.v
}

func (w *Worker) callVal(caller *frame, fn any, args []any) any {
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			w.nilDeref()
		}
		if f.nat != nil {
			return f.nat(w, args)
		}
		return w.callFn(caller, w.eng.cfnOf(f.fn), args, f.env)
	case *Builtin:
		return w.builtinDyn(caller, f.name, args)
	}
	panic(pathAbort{fmt.Sprintf("call of %T", fn)})
}

const maxDepth = 4000
const maxSteps = 40_000_000

func (w *Worker) callFn(caller *frame, f *cfn, args []any, env []any) any {
	w.eng.compile(f)
	if f.intr != nil {
		if r, ok := f.intr(w, caller, args); ok {
			return r
		}
	}
	if f.redirect != nil {
		w.stubs[f.name]++
		return w.callFn(caller, w.eng.cfnOf(f.redirect), args, nil)
	}
	if f.isInit {
		return nil // packages are initialised lazily
	}
	return w.exec(caller, f, args, env)
}

func (w *Worker) exec(caller *frame, f *cfn, args []any, env []any) any {
	if len(f.blocks) == 0 {
		panic(pathAbort{"no body for " + f.name})
	}
	if f.isRepo && w.initing == 0 {
		w.funcs[f] = true
	}
	w.depth++
	if w.depth > maxDepth {
		panic(pathAbort{"call depth limit in " + f.name})
	}
	fr := &frame{w: w, f: f, r: make([]any, f.nreg), caller: caller}
	copy(fr.r, args)
	copy(fr.r[len(args):], env)
	prev := w.top
	w.top = fr
	if f.hasDefer {
		w.execDefer(fr)
	} else {
		fr.loop(0)
	}
	w.top = prev
	w.depth--
	return fr.result
}

func (w *Worker) execDefer(fr *frame) {
	d := w.depth
	defer func() {
		if fr.done {
			return
		}
		x := recover()
		tp, ok := x.(targetPanic)
		if !ok {
			panic(x)
		}
		w.depth = d
		fr.panicking = true
		fr.pan = tp
		fr.runDefers()
		if fr.panicking {
			panic(fr.pan)
		}
		if fr.f.recover >= 0 {
			fr.loop(fr.f.recover)
		}
	}()
	fr.loop(0)
	fr.done = true
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		n := len(fr.defers) - 1
		d := fr.defers[n]
		fr.defers = fr.defers[:n]
		fr.w.callVal(fr, d.fn, d.args)
	}
}

func (fr *frame) loop(bi int) {
	f := fr.f
	w := fr.w
	prev := -1
	var tmp [8]any
	for {
		b := &f.blocks[bi]
		w.steps++
		if w.steps&0xfff == 0 {
			w.periodic(fr)
		}
		if len(b.phis) > 0 {
			e := 0
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			vals := tmp[:0]
			for i := range b.phis {
				vals = append(vals, fr.g(b.phis[i].edge[e]))
			}
			for i := range b.phis {
				fr.r[b.phis[i].dst] = vals[i]
			}
		}
		for _, in := range b.ins {
			in(fr)
		}
		switch b.tk {
		case 0:
			prev = bi
			bi = b.succ[0]
		case 1:
			prev = bi
			c := fr.g(b.cond)
			t, ok := c.(bool)
			if !ok {
				t = w.truth(c)
			}
			if t {
				bi = b.succ[0]
			} else {
				bi = b.succ[1]
			}
		case 2:
			switch len(b.ret) {
			case 0:
			case 1:
				fr.result = fr.g(b.ret[0])
			default:
				t := make(Tuple, len(b.ret))
				for i, r := range b.ret {
					t[i] = fr.g(r)
				}
				fr.result = t
			}
			fr.done = true
			return
		default:
			panic(pathAbort{"fell through in " + f.name})
		}
	}
}

func (w *Worker) periodic(fr *frame) {
	if w.steps > int64(w.eng.maxSteps) {
		panic(hangAbort{"step limit in " + fr.f.name})
	}
	w.checkTime()
}

type hangAbort struct{ where string }

func (w *Worker) goPanic(v any) {
	panic(targetPanic{v, w.panicText(v) + w.place()})
}

func (w *Worker) goPanicStr(s string) {
	panic(targetPanic{Iface{w.eng.rtErrType, s}, numerals.ReplaceAllString(s, "N") + w.place()})
}

// numerals are made the same in messages, so that one fault is reported once
var numerals = regexp.MustCompile(`-?[0-9]+`)

// place names the function a panic arises in and the callers up to the code under test.
func (w *Worker) place() string {
	s := ""
	for f, i := w.top, 0; f != nil && i < 8; f, i = f.caller, i+1 {
		s += " in " + f.f.name
		if strings.Contains(f.f.name, "benedoc-inc") {
			break
		}
	}
	if debugPanics {
		for f, i := w.top, 0; f != nil && i < 12; f, i = f.caller, i+1 {
			fmt.Fprintf(os.Stderr, "  PANIC in %s\n", f.f.name)
		}
	}
	return s
}

func (w *Worker) panicText(v any) string {
	if f, ok := v.(Iface); ok {
		switch x := f.v.(type) {
		case string:
			return x
		case *SStr:
			return "<symbolic>"
		}
		return f.t.String()
	}
	return "nil"
}

// ---------------------------------------------------------------- globals

func (w *Worker) global(g *ssa.Global) *any {
	per := w.eng.perPath(g.Pkg)
	var m map[*ssa.Global]*any
	if per {
		m = w.pglob
	} else {
		m = w.sglob
	}
	p := m[g]
	if p == nil {
		p = new(any)
		*p = zeroOf(g.Type().Underlying().(*types.Pointer).Elem())
		m[g] = p
	}
	w.ensureInit(g.Pkg, per)
	return p
}

func (w *Worker) ensureInit(p *ssa.Package, per bool) {
	im := w.sinit
	if per {
		im = w.pinit
	}
	if im[p] {
		return
	}
	im[p] = true
	fn := p.Func("init")
	if fn == nil || noInit[p.Pkg.Path()] {
		return
	}
	f := w.eng.cfnOf(fn)
	w.eng.compile(f)
	if len(f.blocks) == 0 {
		return
	}
	w.initing++
	st := w.steps
	ok := false
	defer func() {
		w.initing--
		w.steps = st
		if !ok {
			delete(im, p) // not initialised: the next use is to fail as well
		}
	}()
	w.exec(nil, f, nil, nil)
	ok = true
	if p.Pkg.Path() == "image" { // the formats register themselves there
		for _, f := range []string{"image/gif", "image/jpeg", "image/png"} {
			if q := w.eng.prog.ImportedPackage(f); q != nil {
				w.ensureInit(q, per)
			}
		}
	}
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "reflect": true, "internal/reflectlite": true, "fmt": true, "log": true, "internal/godebug": true}

// ---------------------------------------------------------------- conversions

func (w *Worker) convert(v any, from, to types.Type) any {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				if f.Info()&types.IsInteger != 0 {
					fw, fs, _ := widthOf(f)
					if x, ok := v.(uint64); ok {
						i := int64(x)
						if fs {
							i = sx(x, fw)
						}
						if i < 0 || i > 0x10ffff {
							return "\uFFFD"
						}
						return string(rune(i))
					}
					return mkStr(w.encodeRune(v.(*Term)))
				}
			case *types.Slice:
				if isByteType(f.Elem()) {
					return v.(BSlice).str()
				}
				s := v.(GSlice)
				var out []sb
				for i := 0; i < s.n; i++ {
					switch r := s.a.e[s.off+i].(type) {
					case uint64:
						out = append(out, strBytes(string(rune(int32(r))))...)
					case *Term:
						out = append(out, w.encodeRune(r)...)
					}
				}
				return mkStr(out)
			}
		case t.Info()&types.IsInteger != 0:
			tw, tsg, _ := widthOf(t)
			if fw, fsg, ok := widthOf(fu); ok {
				switch x := v.(type) {
				case uint64:
					if fsg {
						return uint64(sx(x, fw)) & mskw(tw)
					}
					return x & mskw(tw)
				case *Term:
					if tw <= fw {
						return w.intVal(w.ts.Extract(x, 0, tw))
					}
					if fsg {
						return w.intVal(w.ts.Sext(x, tw))
					}
					return w.intVal(w.ts.Zext(x, tw))
				}
			}
			var f float64
			switch x := v.(type) {
			case float64:
				f = x
			case float32:
				f = float64(x)
			case *any, BPtr: // unsafe pointer to uintptr
				return uint64(1 << 20)
			default:
				panic(pathAbort{fmt.Sprintf("convert %T to %s", v, to)})
			}
			// amd64 semantics for the ranges the code uses
			if tsg {
				return uint64(int64(f)) & mskw(tw)
			}
			return uint64(f) & mskw(tw)
		case t.Info()&types.IsFloat != 0:
			var f float64
			switch x := v.(type) {
			case float64:
				f = x
			case float32:
				f = float64(x)
			case uint64:
				fw, fsg, _ := widthOf(fu)
				if fsg {
					f = float64(sx(x, fw))
				} else {
					f = float64(x)
				}
			case *Term:
				c := w.concretize(x, "integer to float conversion")
				_, fsg, _ := widthOf(fu)
				if fsg {
					f = float64(sx(c, x.w))
				} else {
					f = float64(c)
				}
			default:
				panic(pathAbort{fmt.Sprintf("convert %T to %s", v, to)})
			}
			if t.Kind() == types.Float32 {
				return float32(f)
			}
			return f
		case t.Kind() == types.UnsafePointer:
			return v
		case t.Info()&types.IsComplex != 0:
			return v
		}
	case *types.Slice:
		if isByteType(t.Elem()) {
			switch v.(type) {
			case string, *SStr:
				return bsFromStr(v)
			}
			return v
		}
		switch v.(type) {
		case string, *SStr: // []rune
			var rs []any
			n := strLen(v)
			for i := 0; i < n; {
				r, k := w.decodeRune(v, i)
				rs = append(rs, r)
				i += k
			}
			return GSlice{&GArr{rs}, 0, len(rs), len(rs)}
		}
		return v
	case *types.Pointer:
		return v
	}
	return v
}

func (w *Worker) encodeRune(r *Term) []sb {
	f := w.eng.stdFn("unicode/utf8", "AppendRune")
	if r.w != 32 {
		r = w.ts.Extract(w.ts.Sext(r, 64), 0, 32)
	}
	res := w.callFn(nil, w.eng.cfnOf(f), []any{BSlice{}, r}, nil)
	return res.(BSlice).bytes()
}

func (w *Worker) decodeRune(s any, pos int) (any, int) {
	b := strAt(s, pos)
	if b.t == nil && b.c < 0x80 {
		return uint64(b.c), 1
	}
	if b.t != nil {
		if w.branch(w.ts.Cmp(OUlt, b.t, w.ts.Const(8, 0x80))) {
			return w.ts.Zext(b.t, 32), 1
		}
	}
	hi := pos + 4
	if n := strLen(s); hi > n {
		hi = n
	}
	sub := strSlice(s, pos, hi)
	if cs, ok := sub.(string); ok {
		for i, r := range cs {
			_ = i
			n := 1
			if r != 0xFFFD {
				n = len(string(r))
			} else if len(cs) >= 3 && cs[:3] == "\uFFFD" {
				n = 3
			}
			return uint64(uint32(r)), n
		}
	}
	f := w.eng.stdFn("unicode/utf8", "DecodeRuneInString")
	res := w.callFn(nil, w.eng.cfnOf(f), []any{sub}, nil).(Tuple)
	return res[0], w.concInt(res[1], "rune size")
}

// ---------------------------------------------------------------- builtins

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame) any {
	var args []ref
	for _, a := range cc.Args {
		args = append(args, c.ref(a))
	}
	name := b.Name()
	switch name {
	case "len":
		a := args[0]
		return func(fr *frame) any { return uint64(lenOf(fr.g(a))) }
	case "append":
		et := types.Type(nil)
		if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		a0, a1 := args[0], args[1]
		return func(fr *frame) any { return fr.w.appendVal(fr.g(a0), fr.g(a1), et) }
	case "min", "max":
		var wd uint8
		var sg, isInt bool
		wd, sg, isInt = widthOf(cc.Args[0].Type())
		return func(fr *frame) any {
			r := fr.g(args[0])
			for _, a := range args[1:] {
				v := fr.g(a)
				var lt any
				if isInt {
					lt = fr.w.intOp(token.LSS, v, r, wd, sg, wd, sg)
				} else {
					lt = fr.w.genOp(token.LSS, v, r)
				}
				if t, ok := lt.(*Term); ok && isInt {
					x, y := fr.w.toTerm(v, wd), fr.w.toTerm(r, wd)
					if name == "max" {
						x, y = y, x
					}
					r = fr.w.intVal(fr.w.ts.Ite(t, x, y))
					continue
				}
				take := fr.w.truth(lt)
				if name == "max" {
					take = !take
				}
				if take {
					r = v
				}
			}
			return r
		}
	case "clear":
		a := args[0]
		var et types.Type
		if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		return func(fr *frame) any {
			switch x := fr.g(a).(type) {
			case *MapV:
				if x != nil {
					*x = *newMap()
				}
			case BSlice:
				for i := 0; i < x.n; i++ {
					x.a.set(x.off+i, sb{})
				}
			case GSlice:
				for i := 0; i < x.n; i++ {
					storeInto(&x.a.e[x.off+i], zeroOf(et))
				}
			}
			return nil
		}
	case "recover":
		return func(fr *frame) any {
			if fr.caller != nil && fr.caller.panicking {
				fr.caller.panicking = false
				return fr.caller.pan.v
			}
			return nil
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) any {
			v := fr.g(args[0])
			if p, ok := v.(*any); ok && p == nil {
				fr.w.nilDeref()
			}
			return v
		}
	}
	return func(fr *frame) any {
		as := make([]any, len(args))
		for i, a := range args {
			as[i] = fr.g(a)
		}
		return fr.w.builtinDyn(fr, name, as)
	}
}

func lenOf(v any) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	case BSlice:
		return x.n
	case GSlice:
		return x.n
	case *MapV:
		if x == nil {
			return 0
		}
		return x.n
	case *BArr:
		return len(x.c)
	case *GArr:
		return len(x.e)
	case *any:
		if x == nil {
			return 0
		}
		return lenOf(*x)
	}
	panic(pathAbort{fmt.Sprintf("len of %T", v)})
}

func (w *Worker) appendVal(a, b any, et types.Type) any {
	switch s := a.(type) {
	case BSlice:
		var n int
		var src BSlice
		isStr := false
		switch y := b.(type) {
		case BSlice:
			src, n = y, y.n
		case string, *SStr:
			n, isStr = strLen(y), true
		}
		if n == 0 {
			return s
		}
		need := s.n + n
		dst := s
		if need > s.cap {
			nc := growCap(s.cap, need)
			na := &BArr{c: make([]byte, nc)}
			if s.a != nil {
				copy(na.c, s.a.c[s.off:s.off+s.n])
				if s.sym() {
					na.t = make([]*Term, nc)
					copy(na.t, s.a.t[s.off:s.off+s.n])
				}
			}
			dst = BSlice{na, 0, s.n, nc}
		}
		if isStr {
			if cs, ok := b.(string); ok && dst.a.t == nil {
				copy(dst.a.c[dst.off+dst.n:], cs)
			} else {
				for i := 0; i < n; i++ {
					dst.a.set(dst.off+dst.n+i, strAt(b, i))
				}
			}
		} else {
			copyBytes(dst.a, dst.off+dst.n, src.a, src.off, n)
		}
		dst.n = need
		return dst
	case GSlice:
		y := b.(GSlice)
		if y.n == 0 {
			return s
		}
		need := s.n + y.n
		dst := s
		if need > s.cap {
			nc := growCap(s.cap, need)
			na := &GArr{make([]any, nc)}
			for i := 0; i < s.n; i++ {
				na.e[i] = copyVal(s.a.e[s.off+i])
			}
			z := zeroOf(et)
			for i := need; i < nc; i++ {
				na.e[i] = copyVal(z)
			}
			dst = GSlice{na, 0, s.n, nc}
		}
		for i := 0; i < y.n; i++ {
			p := &dst.a.e[dst.off+dst.n+i]
			if *p == nil {
				*p = copyVal(y.a.e[y.off+i])
			} else {
				storeInto(p, y.a.e[y.off+i])
			}
		}
		dst.n = need
		return dst
	}
	panic(pathAbort{fmt.Sprintf("append to %T", a)})
}

func growCap(old, need int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < 8 {
		nc = 8
	}
	return nc
}

func copyBytes(dst *BArr, do int, src *BArr, so, n int) {
	if src.t == nil && dst.t == nil {
		copy(dst.c[do:do+n], src.c[so:so+n])
		return
	}
	if dst.t == nil && !src.symIn(so, n) {
		copy(dst.c[do:do+n], src.c[so:so+n])
		return
	}
	if dst.t == nil {
		dst.t = make([]*Term, len(dst.c))
	}
	copy(dst.c[do:do+n], src.c[so:so+n])
	if src.t != nil {
		copy(dst.t[do:do+n], src.t[so:so+n])
	} else {
		for i := 0; i < n; i++ {
			dst.t[do+i] = nil
		}
	}
}

func (w *Worker) builtinDyn(fr *frame, name string, args []any) any {
	switch name {
	case "len":
		return uint64(lenOf(args[0]))
	case "cap":
		switch x := args[0].(type) {
		case BSlice:
			return uint64(x.cap)
		case GSlice:
			return uint64(x.cap)
		}
		return uint64(lenOf(args[0]))
	case "copy":
		switch d := args[0].(type) {
		case BSlice:
			switch s := args[1].(type) {
			case BSlice:
				n := min(d.n, s.n)
				if n > 0 {
					copyBytes(d.a, d.off, s.a, s.off, n)
				}
				return uint64(n)
			default:
				n := min(d.n, strLen(s))
				for i := 0; i < n; i++ {
					d.a.set(d.off+i, strAt(s, i))
				}
				return uint64(n)
			}
		case GSlice:
			s := args[1].(GSlice)
			n := min(d.n, s.n)
			tmp := make([]any, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s.a.e[s.off+i])
			}
			for i := 0; i < n; i++ {
				storeInto(&d.a.e[d.off+i], tmp[i])
			}
			return uint64(n)
		}
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			w.mapDel(m, args[1])
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		w.goPanic(args[0])
	case "String": // unsafe.String(ptr, len)
		n := w.concInt(args[1], "unsafe.String")
		if n == 0 {
			return ""
		}
		p := args[0].(BPtr)
		return BSlice{p.a, p.i, n, n}.str()
	case "Slice":
		n := w.concInt(args[1], "unsafe.Slice")
		if p, ok := args[0].(BPtr); ok {
			return BSlice{p.a, p.i, n, n}
		}
		if n == 0 {
			return BSlice{}
		}
	case "SliceData":
		switch s := args[0].(type) {
		case BSlice:
			if s.a == nil {
				return (*any)(nil)
			}
			return BPtr{s.a, s.off}
		case GSlice:
			if s.a == nil || s.cap == 0 {
				return (*any)(nil)
			}
			return &s.a.e[s.off]
		}
	case "StringData":
		if strLen(args[0]) == 0 {
			return (*any)(nil)
		}
		b := bsFromStr(args[0])
		return BPtr{b.a, 0}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "recover":
		return nil
	}
	panic(pathAbort{"builtin " + name})
}

var _ = math.Pi
