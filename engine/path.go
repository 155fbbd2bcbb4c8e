package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// pathAbort ends the exploration of one path without a verdict on it.
type pathAbort struct{ reason string }

// pathEnd ends a path normally (assumption infeasible or property-neutral end).
type pathEnd struct{ reason string }

type decNode struct {
	parent *decNode
	depth  int
	val    uint64
	forced bool
	hasMod bool
}

func (n *decNode) expand() []*decNode {
	if n == nil {
		return nil
	}
	r := make([]*decNode, n.depth)
	for x := n; x != nil; x = x.parent {
		r[x.depth-1] = x
	}
	return r
}

type CEX struct {
	Harness string                 `json:"harness"`
	Kind    string                 `json:"kind"` // assert | panic | hang
	Msg     string                 `json:"msg"`
	Known   string                 `json:"known,omitempty"`
	Model   map[string]uint64      `json:"model"`
	Choices map[string]uint64      `json:"choices"`
	Obs     map[string]string      `json:"obs,omitempty"`
	Extra   map[string]interface{} `json:"extra,omitempty"`
}

// Explorer shares the work list of one harness among workers.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*decNode
	active   int
	stop     bool
	started  bool
	deadline time.Time
	hangs    int

	Paths, Ended, Aborted            int
	Abort                            map[string]int
	Asserts, AssertFold              int
	AssertUnsat                      int
	Branches, BrDom, BrSolver, Forks int
	Audits int
	Queries, QSat, QUnsat, QUnk      int
	BadModels, Confirmed             int // models that broke their constraints; verdicts confirmed by the second solver
	ConfTime                         time.Duration
	QTime                            time.Duration
	Steps                            int64
	Reach                            map[string]int
	Bounds                           map[string]bool
	Funcs                            map[string]bool
	CEXs                             []*CEX
	cexKeys                          map[string]int
	witTime                          time.Duration
	Witness                          []*CEX // sampled completed paths (model + observations)
	witSeen                          int
	TimedOut                         bool
	PathLimit                        int
	MapOrd                           bool
	Stubs                            map[string]int
}

func NewExplorer(deadline time.Time) *Explorer {
	e := &Explorer{deadline: deadline, Abort: map[string]int{}, Reach: map[string]int{}, Bounds: map[string]bool{}, Funcs: map[string]bool{}, cexKeys: map[string]int{}, Stubs: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	e.stack = []*decNode{nil}
	return e
}

func (e *Explorer) next() (*decNode, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) || e.PathLimit > 0 && e.Paths >= e.PathLimit {
			if len(e.stack) > 0 || e.active > 0 {
				e.TimedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil, false
		}
		if n := len(e.stack); n > 0 {
			x := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			e.Paths++
			return x, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) push(n *decNode) {
	e.mu.Lock()
	e.stack = append(e.stack, n)
	e.mu.Unlock()
	e.cond.Signal()
}

// ---- per path state, embedded in Worker

type pathState struct {
	pre        []*decNode
	cur        *decNode // last decision node
	pos        int
	dom        map[int32]*[4]uint64
	uncons     map[int32][]*Term // unary constraints per var
	multi      []*Term
	multiV     map[int32]bool
	wide       map[int32]bool
	lastM      map[int32]uint64 // a model of the path condition (valid if lastMok)
	lastOK     bool
	counters   map[string]int
	ufUsed     bool             // the path uses an abstraction whose values differ from the library's
	model      map[string]*Term // named symbolic inputs
	order      []string
	choices    map[string]uint64
	obs        []obsRec
	hadUnk     bool
	steps      int64
	reach      []string
	inited     map[string]bool
	cryptoApps map[string]*cryptoApp
	cryptoList []*cryptoApp
	cryptoInv  map[string][]sb
	top        *frame
	axOK       bool // lastM respects the axioms of all applications
	mapAll     int
	knownTag   string
	randMode   int
	randCtr    int
	nativeObjs map[any]any
	concDef    bool
}

type obsRec struct {
	name string
	v    []*Term
	kind byte
	c    string
	isC  bool
	raw  []sb
}

func fullDom(w uint8) *[4]uint64 {
	m := new([4]uint64)
	switch {
	case w >= 8:
		for i := range m {
			m[i] = ^uint64(0)
		}
	default:
		n := uint(1)
		if w > 0 {
			n = uint(w)
		}
		m[0] = (uint64(1) << (uint(1) << n)) - 1
		if (uint(1) << n) == 64 {
			m[0] = ^uint64(0)
		} else if (uint(1) << n) > 64 {
			for i := 0; i < (1<<n)/64; i++ {
				m[i] = ^uint64(0)
			}
		}
	}
	return m
}

func (w *Worker) domOf(v int32) *[4]uint64 {
	if d, ok := w.dom[v]; ok {
		return d
	}
	d := fullDom(w.ts.vars[v].w)
	w.dom[v] = d
	return d
}

func isEmpty(m *[4]uint64) bool { return m[0]|m[1]|m[2]|m[3] == 0 }

func inMask(m *[4]uint64, v uint64) bool { return m[(v>>6)&3]>>(v&63)&1 != 0 }

func lowest(m *[4]uint64) uint64 {
	for i := uint64(0); i < 256; i++ {
		if inMask(m, i) {
			return i
		}
	}
	return 0
}

// addConstraint records c (known feasible) in the path condition.
func (w *Worker) addConstraint(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OAnd {
		w.addConstraint(c.a)
		w.addConstraint(c.b)
		return
	}
	if w.lastOK && w.evalLast(c) == 0 {
		w.lastOK = false
	}
	if c.uv >= 0 {
		m := w.ts.Mask(c)
		old := w.domOf(c.uv)
		nd := new([4]uint64)
		for i := range nd {
			nd[i] = old[i] & m[i]
		}
		w.dom[c.uv] = nd
		w.uncons[c.uv] = append(w.uncons[c.uv], c)
		return
	}
	w.multi = append(w.multi, c)
	for _, v := range c.vs {
		w.multiV[v] = true
	}
}

func (w *Worker) evalLast(c *Term) uint64 {
	return w.ts.Eval(c, w.lastVal)
}

func (w *Worker) lastVal(v int32) uint64 {
	if x, ok := w.lastM[v]; ok {
		return x
	}
	if w.ts.vars[v].w <= 8 {
		if w.ts.vars[v].uf {
			return w.scatter(v)
		}
		if d, ok := w.dom[v]; ok {
			return lowest(d)
		}
	}
	return 0
}

// scatter is a default for outputs of uninterpreted functions that makes collisions unlikely.
func (w *Worker) scatter(v int32) uint64 {
	h := uint64(v)*0x9E3779B97F4A7C15 + 0x1234567
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	x := h >> 56
	if d, ok := w.dom[v]; ok {
		for i := uint64(0); i < 256; i++ {
			if y := (x + i) & 255; inMask(d, y) {
				return y
			}
		}
	}
	return x
}

// slice returns the path-condition constraints transitively sharing variables with c.
func (w *Worker) slice(c *Term) ([]*Term, []int32) {
	in := map[int32]bool{}
	for _, v := range c.varset() {
		in[v] = true
	}
	used := make([]bool, len(w.multi))
	var cs []*Term
	for ch := true; ch; {
		ch = false
		for i, m := range w.multi {
			if used[i] {
				continue
			}
			for _, v := range m.vs {
				if in[v] {
					used[i] = true
					ch = true
					cs = append(cs, m)
					for _, u := range m.vs {
						in[u] = true
					}
					break
				}
			}
		}
	}
	vs := make([]int32, 0, len(in))
	for v := range in {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, v := range vs {
		cs = append(cs, w.uncons[v]...)
	}
	return cs, vs
}

type qres struct {
	r SatRes
	m map[int32]uint64
}

// solve decides pc /\ c. On sat the model covers the sliced variables. The axioms of the
// uninterpreted functions are added on demand: those a model breaks.
func (w *Worker) solve(c *Term) (SatRes, map[int32]uint64) {
	for round := 0; ; round++ {
		r, m := w.solve1(c)
		if r != Sat || len(w.cryptoList) == 0 {
			return r, m
		}
		in := map[int32]bool{}
		for v := range m {
			in[v] = true
		}
		bad := w.violated(func(v int32) uint64 {
			if x, ok := m[v]; ok {
				return x
			}
			return w.lastVal(v)
		}, in)
		if len(bad) == 0 {
			return r, m
		}
		if round > 3000 || time.Now().After(w.ex.deadline) {
			return Unknown, nil
		}
		for _, b := range bad {
			w.addConstraint(b)
		}
	}
}

func (w *Worker) solve1(c *Term) (SatRes, map[int32]uint64) {
	cs, vs := w.slice(c)
	cs = append(cs, c)
	ids := make([]int, len(cs))
	for i, x := range cs {
		ids[i] = int(x.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	k := sb.String()
	if r, ok := w.qcache[k]; ok {
		return r.r, r.m
	}
	r, m := w.solver.Check(cs, vs)
	w.qcache[k] = qres{r, m}
	return r, m
}

func (w *Worker) updateModel(m map[int32]uint64) {
	nm := make(map[int32]uint64, len(w.lastM)+len(m))
	if w.lastOK {
		for k, v := range w.lastM {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		w.lastM = nm
		return
	}
	// rebuild is lazy: keep the pieces; validity unknown
	for k, v := range w.lastM {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	w.lastM = nm
	// check it against the path condition
	ok := true
	for v, d := range w.dom {
		if x, has := w.lastM[v]; has && !inMask(d, x) {
			delete(w.lastM, v)
		}
	}
	for _, c := range w.multi {
		if w.evalLast(c) == 0 {
			ok = false
			break
		}
	}
	w.lastOK = ok
	w.axOK = false
}

// feas reports which sides of c are feasible: (true side, false side, unknown).
func (w *Worker) feas(c *Term) (t, f, unk bool) {
	if c.uv >= 0 {
		m := w.ts.Mask(c)
		d := w.domOf(c.uv)
		for i := range m {
			if d[i]&m[i] != 0 {
				t = true
			}
			if d[i]&^m[i] != 0 {
				f = true
			}
		}
		if !t || !f || !w.multiV[c.uv] {
			w.st.brDom++
			w.audit(c, t, f)
			return t, f, false
		}
	}
	w.st.brSolver++
	t, f = false, false
	if w.lastOK && !w.axOK {
		w.axOK = true
		if len(w.violated(w.lastVal, nil)) > 0 {
			w.lastOK = false
		}
	}
	if w.lastOK {
		if w.evalLast(c) != 0 {
			t = true
		} else {
			f = true
		}
	}
	if !t {
		r, m := w.solve(c)
		switch r {
		case Sat:
			t = true
			if !w.lastOK {
				w.updateModel(m)
			}
		case Unknown:
			t, unk = true, true
		}
	}
	if !f {
		nc := w.ts.Not(c)
		if !t {
			return false, true, false // pc is satisfiable by invariant
		}
		r, _ := w.solve(nc)
		switch r {
		case Sat:
			f = true
		case Unknown:
			f, unk = true, true
		}
	}
	return
}

// audit puts a sample of the decisions made from the domain of one byte to the solver.
func (w *Worker) audit(c *Term, t, f bool) {
	every, budget := 512, 2*time.Second
	if w.eng.tier == "thorough" {
		every, budget = 64, 2*time.Minute
	}
	w.naudit++
	if w.naudit > 24 && w.naudit%every != 0 || w.auditTime > budget {
		return
	}
	t0 := time.Now()
	for i, want := range []bool{t, f} {
		x := c
		if i == 1 {
			x = w.ts.Not(c)
		}
		r, _ := w.solve1(x)
		if r == Unsat && want || r == Sat && !want {
			panic(pathAbort{"solver disagrees with a decision on the domain of one byte"})
		}
		if r != Unknown {
			w.st.audits++
		}
	}
	w.auditTime += time.Since(t0)
}

func (w *Worker) record(val uint64, forced bool) {
	n := &decNode{parent: w.cur, depth: 1, val: val, forced: forced}
	if w.cur != nil {
		n.depth = w.cur.depth + 1
	}
	w.cur = n
}

// branch decides a symbolic condition on this path, forking if both sides are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.c != 0
	}
	w.st.branches++
	if w.pos < len(w.pre) {
		n := w.pre[w.pos]
		w.pos++
		w.cur = n
		if !n.forced {
			if n.val != 0 {
				w.addConstraint(c)
			} else {
				w.addConstraint(w.ts.Not(c))
			}
		}
		return n.val != 0
	}
	w.checkTime()
	t, f, unk := w.feas(c)
	if unk {
		w.hadUnk = true
	}
	switch {
	case t && f:
		w.st.forks++
		w.noteFork()
		alt := &decNode{parent: w.cur, depth: 1, val: 0}
		if w.cur != nil {
			alt.depth = w.cur.depth + 1
		}
		w.ex.push(alt)
		w.record(1, false)
		w.addConstraint(c)
		return true
	case t:
		w.record(1, true)
		return true
	case f:
		w.record(0, true)
		return false
	}
	panic(pathEnd{"infeasible"})
}

// choose makes an n-way nondeterministic choice.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.pos < len(w.pre) {
		x := w.pre[w.pos]
		w.pos++
		w.cur = x
		return int(x.val)
	}
	w.st.forks += n - 1
	w.noteFork()
	for i := n - 1; i >= 1; i-- {
		alt := &decNode{parent: w.cur, depth: 1, val: uint64(i)}
		if w.cur != nil {
			alt.depth = w.cur.depth + 1
		}
		w.ex.push(alt)
	}
	w.record(0, false)
	return 0
}

const concLimit = 1100

// concretize enumerates (through the solver) every feasible value of t, forking one path per value.
func (w *Worker) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.c
	}
	if w.pos < len(w.pre) {
		x := w.pre[w.pos]
		w.pos++
		w.cur = x
		if !x.forced {
			w.addConstraint(w.eqc(t, x.val))
		}
		return x.val
	}
	w.checkTime()
	var vals []uint64
	if t.uv >= 0 && !w.multiV[t.uv] {
		d := w.domOf(t.uv)
		seen := map[uint64]bool{}
		for i := uint64(0); i < 256; i++ {
			if inMask(d, i) {
				v := w.ts.Eval(t, func(int32) uint64 { return i })
				if !seen[v] {
					seen[v] = true
					vals = append(vals, v)
				}
			}
		}
	} else {
		ex := w.ts.tt
		for {
			r, m := w.solve(ex)
			if r == Unknown {
				panic(pathAbort{"solver unknown while enumerating " + why})
			}
			if r == Unsat {
				break
			}
			v := w.ts.Eval(t, func(id int32) uint64 {
				if x, ok := m[id]; ok {
					return x
				}
				if x, ok := w.lastM[id]; ok {
					return x
				}
				if d, ok := w.dom[id]; ok {
					return lowest(d)
				}
				return 0
			})
			if ex == w.ts.tt {
				// model may not cover t's vars when ex is constant; take the checked route
				r2, m2 := w.solveVars(t)
				if r2 == Unknown {
					panic(pathAbort{"solver unknown while enumerating " + why})
				}
				if r2 == Unsat {
					panic(pathEnd{"infeasible"})
				}
				v = w.ts.Eval(t, func(id int32) uint64 { return m2[id] })
			}
			vals = append(vals, v)
			ex = w.ts.And(ex, w.ts.Not(w.eqc(t, v)))
			if len(vals) > concLimit {
				panic(pathAbort{"more than " + strconv.Itoa(concLimit) + " values for " + why})
			}
			if ex.isConst() {
				break
			}
		}
	}
	if len(vals) == 0 {
		panic(pathEnd{"infeasible"})
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	if len(vals) == 1 {
		w.record(vals[0], true)
		return vals[0]
	}
	w.st.forks += len(vals) - 1
	w.noteFork()
	for i := len(vals) - 1; i >= 1; i-- {
		alt := &decNode{parent: w.cur, depth: 1, val: vals[i]}
		if w.cur != nil {
			alt.depth = w.cur.depth + 1
		}
		w.ex.push(alt)
	}
	w.record(vals[0], false)
	w.addConstraint(w.eqc(t, vals[0]))
	return vals[0]
}

func (w *Worker) solveVars(t *Term) (SatRes, map[int32]uint64) {
	for {
		cs, vs := w.slice(t)
		r, m := w.solver.Check(cs, vs)
		if r != Sat || len(w.cryptoList) == 0 {
			return r, m
		}
		in := map[int32]bool{}
		for v := range m {
			in[v] = true
		}
		bad := w.violated(func(v int32) uint64 {
			if x, ok := m[v]; ok {
				return x
			}
			return w.lastVal(v)
		}, in)
		if len(bad) == 0 {
			return r, m
		}
		for _, b := range bad {
			w.addConstraint(b)
		}
	}
}

func (w *Worker) eqc(t *Term, v uint64) *Term { return w.ts.Eq(t, w.ts.Const(t.w, v)) }

// assume constrains the path; ends it when infeasible.
func (w *Worker) assume(c *Term) {
	if c.isConst() {
		if c.c == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if w.pos < len(w.pre) {
		n := w.pre[w.pos]
		w.pos++
		w.cur = n
		if !n.forced {
			w.addConstraint(c)
		}
		return
	}
	t, f, unk := w.feas(c)
	if unk {
		w.hadUnk = true
	}
	if !t {
		panic(pathEnd{"assume"})
	}
	w.record(1, !f)
	if f {
		w.addConstraint(c)
	}
}

func (w *Worker) checkTime() {
	if time.Now().After(w.ex.deadline) {
		panic(pathAbort{"deadline"})
	}
}

// fullModel produces values for every named input satisfying pc /\ extra.
func (w *Worker) fullModel(extra *Term) (map[string]uint64, func(*Term) uint64, SatRes) {
again:
	if time.Now().After(w.ex.deadline.Add(20 * time.Second)) {
		return nil, nil, Unknown
	}
	cs := append([]*Term{}, w.multi...)
	vset := map[int32]bool{}
	for _, c := range cs {
		for _, v := range c.vs {
			vset[v] = true
		}
	}
	if extra != nil && !extra.isConst() {
		cs = append(cs, extra)
		for _, v := range extra.varset() {
			vset[v] = true
		}
	} else if extra != nil && extra.c == 0 {
		return nil, nil, Unsat
	}
	var vs []int32
	for v := range vset {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	for _, v := range vs {
		cs = append(cs, w.uncons[v]...)
	}
	m := map[int32]uint64{}
	if len(cs) > 0 {
		r, mm := w.solver.Check(cs, vs)
		if r != Sat {
			return nil, nil, r
		}
		m = mm
	}
	get := func(v int32) uint64 {
		if x, ok := m[v]; ok {
			return x
		}
		if w.ts.vars[v].uf {
			return w.scatter(v)
		}
		if d, ok := w.dom[v]; ok {
			// prefer a printable representative for readability when allowed
			for _, p := range []uint64{'A', '1', 1} {
				if p < 256 && w.ts.vars[v].w == 8 && inMask(d, p) {
					return p
				}
			}
			return lowest(d)
		}
		if w.ts.vars[v].w == 8 {
			return 'A'
		}
		return 0
	}
	if len(w.cryptoList) > 0 {
		if bad := w.violated(get, nil); len(bad) > 0 {
			for _, b := range bad {
				w.addConstraint(b)
			}
			goto again
		}
	}
	res := map[string]uint64{}
	for name, t := range w.model {
		res[name] = w.ts.Eval(t, get)
	}
	return res, func(t *Term) uint64 { return w.ts.Eval(t, get) }, Sat
}

func (w *Worker) cex(kind, msg, known string, model map[string]uint64) {
	e := w.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + "|" + msg + "|" + known
	e.cexKeys[key]++
	if e.cexKeys[key] > 12 {
		return
	}
	ch := map[string]uint64{}
	for k, v := range w.choices {
		ch[k] = v
	}
	e.CEXs = append(e.CEXs, &CEX{Harness: w.harness, Kind: kind, Msg: msg, Known: known, Model: model, Choices: ch})
}

// assertion: pc => c must be valid.
func (w *Worker) assertT(c *Term, msg, known string) {
	w.st.asserts++
	inPrefix := w.pos < len(w.pre)
	if c.isConst() {
		if c.c != 0 {
			w.st.assertFold++
			return
		}
	}
	if inPrefix {
		// already decided when this prefix was first explored
		if c.isConst() {
			panic(pathEnd{"assert failed"})
		}
		n := w.pre[w.pos]
		w.pos++
		w.cur = n
		if !n.forced {
			w.addConstraint(c)
		}
		return
	}
	nc := w.ts.Not(c)
	var r SatRes
	if c.isConst() {
		r = Sat
	} else {
		r, _ = w.solve(nc)
	}
	switch r {
	case Unsat:
		w.st.assertUnsat++
		w.confirm(nc)
		w.record(1, true)
		return
	case Unknown:
		panic(pathAbort{"solver unknown on assertion"})
	}
	mod, _, rr := w.fullModel(nc)
	switch rr {
	case Sat:
		w.cex("assert", msg, known, mod)
	case Unsat:
		if c.isConst() {
			panic(pathEnd{"infeasible"})
		}
		w.st.assertUnsat++
		w.record(1, true)
		return
	default:
		panic(pathAbort{"assertion model not available"})
	}
	if c.isConst() {
		panic(pathEnd{"assert failed"})
	}
	r2, _ := w.solve(c)
	if r2 != Sat {
		panic(pathEnd{"assert failed"})
	}
	w.record(1, false)
	w.addConstraint(c)
}

// confirm puts a sample of the verdicts (thorough: all) that an assertion holds to a second solver.
func (w *Worker) confirm(nc *Term) {
	w.nconf++
	if w.second.bin == "" || w.eng.tier != "thorough" && w.nconf > 40 && w.nconf%16 != 0 || w.second.Time > w.eng.confBudget() {
		return
	}
	cs, vs := w.slice(nc)
	if r, _ := w.second.Check(append(cs, nc), vs); r == Sat {
		panic(pathAbort{"solvers disagree on an assertion"})
	}
}

func (e *Engine) confBudget() time.Duration {
	if e.tier == "thorough" {
		return time.Hour
	}
	return 10 * time.Second
}

func (w *Worker) finishPath(outcome string) {
	e := w.ex
	e.mu.Lock()
	e.Ended++
	for _, r := range w.reach {
		e.Reach[r]++
	}
	e.witSeen++
	n := e.witSeen
	take := len(e.Witness) < 24 || n&(n-1) == 0 || n%97 == 0 && len(e.Witness) < 200
	slow := e.witTime > 20*time.Second && len(e.Witness) > 0
	e.mu.Unlock()
	if !take || w.hadUnk || slow {
		return
	}
	t0 := time.Now()
	mod, ev, r := w.fullModel(nil)
	e.mu.Lock()
	e.witTime += time.Since(t0)
	e.mu.Unlock()
	if r != Sat {
		return
	}
	obs := map[string]string{}
	for _, o := range w.obs {
		obs[o.name] = w.renderObs(o, ev)
	}
	ch := map[string]uint64{}
	for k, v := range w.choices {
		ch[k] = v
	}
	c := &CEX{Harness: w.harness, Kind: outcome, Model: mod, Choices: ch, Obs: obs}
	if len(w.cryptoList) > 0 || w.ufUsed {
		c.Extra = map[string]interface{}{"uf": true}
	}
	e.mu.Lock()
	e.Witness = append(e.Witness, c)
	e.mu.Unlock()
}

func (w *Worker) renderObs(o obsRec, ev func(*Term) uint64) string {
	if o.isC {
		return o.c
	}
	switch o.kind {
	case 'b':
		bs := make([]byte, len(o.raw))
		for i, x := range o.raw {
			if x.t != nil {
				bs[i] = byte(ev(x.t))
			} else {
				bs[i] = x.c
			}
		}
		return fmt.Sprintf("%x", bs)
	default:
		return fmt.Sprint(ev(o.v[0]))
	}
}

// fork profile (developer aid, SYMX_FORKS=1)
var (
	forkProf = map[string]int{}
	forkMu   sync.Mutex
	forkOn   = os.Getenv("SYMX_FORKS") != ""
)

func (w *Worker) noteFork() {
	if !forkOn {
		return
	}
	k := ""
	for f, i := w.top, 0; f != nil && i < 5; f, i = f.caller, i+1 {
		n := f.f.name
		if j := strings.LastIndex(n, "/"); j >= 0 {
			n = n[j+1:]
		}
		k += n + " < "
	}
	forkMu.Lock()
	forkProf[k]++
	forkMu.Unlock()
}
