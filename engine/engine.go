package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type Engine struct {
	prog      *ssa.Program
	cfns      sync.Map
	repoPath  string
	tier      string
	maxSteps  int
	modelPkg  *ssa.Package
	symPkgS   *ssa.Package
	rtErrType types.Type

	cmu   sync.Mutex
	canonM typeutil.Map
	imu   sync.Mutex
	impl  map[implKey]bool
	mmu   sync.Mutex
	meth  map[methKey]*ssa.Function
	pmu   sync.RWMutex
	per   map[*ssa.Package]bool
	mset  sync.Mutex
	hpkg  *ssa.Package
	sem   chan struct{} // limits how many paths run at once over all harnesses
}

type implKey struct {
	t types.Type
	i *types.Interface
}
type methKey struct {
	t    types.Type
	name string
}

func (e *Engine) canon(t types.Type) types.Type {
	e.cmu.Lock()
	defer e.cmu.Unlock()
	if x := e.canonM.At(t); x != nil {
		return x.(types.Type)
	}
	e.canonM.Set(t, t)
	return t
}

func (e *Engine) implements(t types.Type, i *types.Interface) bool {
	e.imu.Lock()
	defer e.imu.Unlock()
	k := implKey{t, i}
	if r, ok := e.impl[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	e.impl[k] = r
	return r
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	e.mmu.Lock()
	defer e.mmu.Unlock()
	k := methKey{t, name}
	if f, ok := e.meth[k]; ok {
		return f
	}
	var fn *ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn = e.prog.MethodValue(ms.At(i))
			break
		}
	}
	e.meth[k] = fn
	return fn
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mmu.Lock()
	defer e.mmu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) stdFn(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(pathAbort{"package " + pkg + " not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(pathAbort{pkg + "." + name + " not found"})
	}
	return f
}

func (e *Engine) stdMethod(pkg, typ, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	t := p.Type(typ).Type()
	if f := e.methodByName(t, name); f != nil {
		return f
	}
	return e.methodByName(types.NewPointer(t), name)
}

func (e *Engine) modelFn(name string) *ssa.Function {
	f := e.modelPkg.Func(name)
	if f == nil {
		panic("model function " + name + " missing")
	}
	return f
}

// perPath reports whether the globals of p are re-initialised on every path.
func (e *Engine) perPath(p *ssa.Package) bool {
	e.pmu.RLock()
	r, ok := e.per[p]
	e.pmu.RUnlock()
	if ok {
		return r
	}
	path := p.Pkg.Path()
	r = strings.HasPrefix(path, e.repoPath) || strings.HasPrefix(path, "verif/")
	e.pmu.Lock()
	e.per[p] = r
	e.pmu.Unlock()
	return r
}

func loadEngine(dir, pattern, repoPath, tier string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pk, err := packages.Load(cfg, pattern, "verif/harness/model", "verif/harness/sym")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, repoPath: repoPath, tier: tier, maxSteps: maxSteps, impl: map[implKey]bool{}, meth: map[methKey]*ssa.Function{}, per: map[*ssa.Package]bool{}}
	for i, p := range pk {
		switch p.PkgPath {
		case "verif/harness/model":
			e.modelPkg = ps[i]
		case "verif/harness/sym":
			e.symPkgS = ps[i]
		default:
			e.hpkg = ps[i]
		}
	}
	if e.hpkg == nil || e.modelPkg == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	e.rtErrType = e.modelPkg.Type("RuntimeError").Type()
	return e, nil
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, kv := range env {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GOSUMDB", "GO111MODULE":
			continue
		case "PATH":
			kv = "PATH=/opt/veriftools/go1.27.3/bin:" + strings.TrimPrefix(kv, "PATH=")
		}
		out = append(out, kv)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off")
}

func (e *Engine) newWorker(ex *Explorer, harness string, tmoMS int) *Worker {
	w := &Worker{eng: e, ex: ex, harness: harness, mcache: map[mkey]*ssa.Function{}, reCache: map[string]*Native{}, funcs: map[*cfn]bool{}, stubs: map[string]int{}}
	w.sglob = map[*ssa.Global]*any{}
	w.sinit = map[*ssa.Package]bool{}
	w.resetTerms(tmoMS)
	return w
}

func (w *Worker) resetTerms(tmo int) {
	if w.solver != nil {
		w.flushSolver()
		w.solver.Close()
		w.second.Close()
	}
	w.ts = NewTerms()
	w.solver = NewSolver(w.ts, tmo)
	w.second = NewSolver(w.ts, tmo)
	w.second.bin = secondZ3()
	w.qcache = map[string]qres{}
}

func (w *Worker) flushSolver() {
	s := w.solver
	e := w.ex
	e.mu.Lock()
	e.Queries += s.Queries
	e.QSat += s.NSat
	e.QUnsat += s.NUnsat
	e.QUnk += s.NUnk
	e.QTime += s.Time
	e.BadModels += s.BadModels
	e.Confirmed += w.second.NUnsat
	e.ConfTime += w.second.Time
	w.second.NUnsat, w.second.Time, s.BadModels = 0, 0, 0
	e.mu.Unlock()
	s.Queries, s.NSat, s.NUnsat, s.NUnk, s.Time = 0, 0, 0, 0, 0
}

func (w *Worker) resetPath(pre []*decNode) {
	w.pathState = pathState{
		pre: pre, dom: map[int32]*[4]uint64{}, uncons: map[int32][]*Term{}, multiV: map[int32]bool{}, lastM: map[int32]uint64{}, lastOK: true,
		counters: map[string]int{}, model: map[string]*Term{}, choices: map[string]uint64{}, cryptoApps: map[string]*cryptoApp{}, cryptoInv: map[string][]sb{},
		nativeObjs: map[any]any{},
	}
	w.pglob = map[*ssa.Global]*any{}
	w.pinit = map[*ssa.Package]bool{}
	w.depth = 0
	w.initing = 0
	w.st = stats{}
}

func (w *Worker) runPath(fn *ssa.Function, node *decNode) {
	w.resetPath(node.expand())
	outcome := "ok"
	abort := ""
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch p := x.(type) {
			case pathEnd:
				outcome = "end:" + p.reason
			case pathAbort:
				abort = p.reason
			case hangAbort:
				mod, _, r := w.fullModel(nil)
				if r == Sat {
					w.cex("hang", p.where, "", mod)
					w.ex.mu.Lock()
					w.ex.hangs++
					w.ex.stop = w.ex.stop || w.ex.hangs >= 6 // enough of a costly kind
					w.ex.mu.Unlock()
				}
				abort = p.where
			case targetPanic:
				outcome = "panic"
				func() {
					defer func() {
						if y := recover(); y != nil {
							abort = fmt.Sprint(y)
						}
					}()
					mod, _, r := w.fullModel(nil)
					switch r {
					case Sat:
						w.cex("panic", "panic: "+p.msg, "", mod)
					case Unknown:
						abort = "solver unknown on panic path"
					}
				}()
			default:
				abort = fmt.Sprintf("engine: %v", x)
				if os.Getenv("SYMX_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE PANIC %v\n%s\n", x, debug.Stack())
				}
			}
		}()
		w.exec(nil, w.eng.compiled(fn), nil, nil)
	}()
	e := w.ex
	if abort == "" && (outcome == "ok") {
		w.finishPath(outcome)
	}
	e.mu.Lock()
	if abort != "" {
		e.Aborted++
		e.Abort[abort]++
	} else if outcome != "ok" {
		e.Ended++
		for _, r := range w.reach {
			e.Reach[r]++
		}
	}
	e.Asserts += w.st.asserts
	e.AssertFold += w.st.assertFold
	e.AssertUnsat += w.st.assertUnsat
	e.Branches += w.st.branches
	e.BrDom += w.st.brDom
	e.Audits += w.st.audits
	e.BrSolver += w.st.brSolver
	e.Forks += w.st.forks
	e.Steps += w.steps
	e.mu.Unlock()
}

func (e *Engine) compiled(fn *ssa.Function) *cfn {
	c := e.cfnOf(fn)
	e.compile(c)
	return c
}

func (e *Engine) explore(fn *ssa.Function, workers int, deadline time.Time, tmoMS int) *Explorer {
	ex := NewExplorer(deadline)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *Worker
			for {
				n, ok := ex.next()
				if !ok {
					break
				}
				if w == nil {
					w = e.newWorker(ex, fn.Name(), tmoMS)
				}
				if e.sem != nil {
					e.sem <- struct{}{}
				}
				w.runPath(fn, n)
				if e.sem != nil {
					<-e.sem
				}
				ex.done()
				if w.ts.n > 1_500_000 {
					w.resetTerms(tmoMS)
				}
			}
			if w == nil {
				return
			}
			w.flushSolver()
			w.solver.Close()
			w.second.Close()
			ex.mu.Lock()
			for f := range w.funcs {
				ex.Funcs[f.name] = true
			}
			for k, v := range w.stubs {
				ex.Stubs[k] += v
			}
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
	return ex
}

func (e *Engine) harnessFns(filter string) []*ssa.Function {
	var r []*ssa.Function
	for name, m := range e.hpkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "H") || len(f.Params) != 0 || f.Signature.Results().Len() != 0 || !f.Object().Exported() {
			continue
		}
		if filter != "" && !strings.Contains(name, filter) {
			continue
		}
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

var _ = json.Marshal
var _ = filepath.Join
var _ = runtime.NumCPU
