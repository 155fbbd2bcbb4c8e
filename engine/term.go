package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms are hash-consed quantifier-free bit-vector expressions. Width 0 is Bool.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd
	OOr
	OXorB
	OIteB
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // c = lo, w = width
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
)

type Term struct {
	op      Op
	w       uint8
	id      int32
	uv      int32 // >=0: depends on exactly that (<=8 bit) var; -1 const; -2 several/wide vars
	c       uint64
	a, b, d *Term
	vs      []int32 // sorted var ids (uv==-2)
	mask    *[4]uint64
	full    bool // mask computed
	lo, hi  uint64 // unsigned bounds valid in every environment
}

type tkey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d int32
}

type VarInfo struct {
	uf   bool // output of an uninterpreted function
	name string
	w    uint8
	t    *Term
}

type Terms struct {
	canonM map[int32]*Term
	tab   map[tkey]*Term
	n     int32
	vars  []*VarInfo
	vname map[string]int32
	cst   [65][]*Term
	tt    *Term
	ff    *Term
	memo  []memoEnt
	gen   uint32
}

type memoEnt struct {
	gen uint32
	v   uint64
}

func NewTerms() *Terms {
	ts := &Terms{canonM: map[int32]*Term{}, tab: map[tkey]*Term{}, vname: map[string]int32{}}
	ts.tt = ts.Const(0, 1)
	ts.ff = ts.Const(0, 0)
	return ts
}

func mskw(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (ts *Terms) Const(w uint8, v uint64) *Term {
	v &= mskw(w)
	return ts.mk(OConst, w, v, nil, nil, nil)
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tt
	}
	return ts.ff
}

func (ts *Terms) Var(name string, w uint8) *Term {
	if id, ok := ts.vname[name]; ok {
		if ts.vars[id].w != w {
			panic(pathAbort{"variable " + name + " redeclared with another width"})
		}
		return ts.vars[id].t
	}
	id := int32(len(ts.vars))
	vi := &VarInfo{name: name, w: w, uf: len(name) > 3 && name[:3] == "uf_"}
	ts.vars = append(ts.vars, vi)
	ts.vname[name] = id
	vi.t = ts.mk(OVar, w, uint64(id), nil, nil, nil)
	return vi.t
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset shortcuts
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

func (t *Term) varset() []int32 {
	if t.uv == -1 {
		return nil
	}
	if t.uv >= 0 {
		return []int32{t.uv}
	}
	return t.vs
}

func (ts *Terms) mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := tkey{op, w, c, tid(a), tid(b), tid(d)}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, a: a, b: b, d: d, id: ts.n}
	ts.n++
	switch op {
	case OConst:
		t.uv = -1
	case OVar:
		if w <= 8 {
			t.uv = int32(c)
		} else {
			t.uv = -2
			t.vs = []int32{int32(c)}
		}
	default:
		t.uv = -1
		first := true
		multi := false
		for _, x := range [3]*Term{a, b, d} {
			if x == nil || x.uv == -1 {
				continue
			}
			if x.uv == -2 {
				multi = true
				continue
			}
			if first {
				t.uv = x.uv
				first = false
			} else if t.uv != x.uv {
				multi = true
			}
		}
		if multi {
			t.uv = -2
			var vs []int32
			for _, x := range [3]*Term{a, b, d} {
				if x != nil {
					vs = mergeVars(vs, x.varset())
				}
			}
			t.vs = vs
		}
	}
	t.lo, t.hi = boundsOf(t)
	ts.tab[k] = t
	return t
}

func boundsOf(t *Term) (uint64, uint64) {
	m := mskw(t.w)
	a, b, d := t.a, t.b, t.d
	switch t.op {
	case OConst:
		return t.c, t.c
	case OAdd:
		if h := a.hi + b.hi; h >= a.hi && h <= m {
			return a.lo + b.lo, h
		}
		// adding a constant that wraps for every value: a subtraction
		if b.isConst() && t.w <= 64 {
			k := (-b.c) & m
			if a.lo >= k && k != 0 {
				return a.lo - k, a.hi - k
			}
		}
	case OSub:
		if a.lo >= b.hi {
			return a.lo - b.hi, a.hi - b.lo
		}
	case OMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OUDiv:
		if b.lo > 0 {
			return a.lo / b.hi, a.hi / b.lo
		}
	case OURem:
		if b.lo > 0 {
			h := b.hi - 1
			if a.hi < h {
				h = a.hi
			}
			return 0, h
		}
	case OBAnd:
		h := a.hi
		if b.hi < h {
			h = b.hi
		}
		return 0, h
	case OBOr, OBXor:
		n := bits.Len64(a.hi | b.hi)
		l := uint64(0)
		if t.op == OBOr {
			l = a.lo
			if b.lo > l {
				l = b.lo
			}
		}
		return l, mskN(n) & m
	case OLshr:
		if b.isConst() && b.c < 64 {
			return a.lo >> b.c, a.hi >> b.c
		}
		return 0, a.hi
	case OZext:
		return a.lo, a.hi
	case OConcat:
		return a.lo<<b.w | b.lo, a.hi<<b.w | b.hi
	case OExtract:
		if a.hi>>(t.c) <= m {
			return a.lo >> t.c, a.hi >> t.c
		}
	case OIte:
		l, h := b.lo, b.hi
		if d.lo < l {
			l = d.lo
		}
		if d.hi > h {
			h = d.hi
		}
		return l, h
	case OSext:
		if a.hi <= m>>1 && a.w > 0 && a.hi < uint64(1)<<(a.w-1) {
			return a.lo, a.hi
		}
	}
	return 0, m
}

func mskN(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---- concrete semantics of one operator
func evalOp(op Op, w uint8, c uint64, aw uint8, a, b, d uint64, bw uint8) uint64 {
	m := mskw(w)
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXorB:
		return a ^ b
	case OIteB, OIte:
		if a != 0 {
			return b
		}
		return d
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OConcat:
		return (a<<bw | b) & m
	case OExtract:
		return (a >> c) & m
	case OZext:
		return a
	case OSext:
		return uint64(sx(a, aw)) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, aw) < sx(b, aw))
	case OSle:
		return b2u(sx(a, aw) <= sx(b, aw))
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) fold(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	if a != nil && !a.isConst() || b != nil && !b.isConst() || d != nil && !d.isConst() {
		return nil
	}
	var av, bv, dv uint64
	var aw, bw uint8
	if a != nil {
		av, aw = a.c, a.w
	}
	if b != nil {
		bv, bw = b.c, b.w
	}
	if d != nil {
		dv = d.c
	}
	return ts.Const(w, evalOp(op, w, c, aw, av, bv, dv, bw))
}

func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return ts.mk(ONot, 0, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return ts.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OAnd, 0, 0, a, b, nil)
}

func (ts *Terms) Or(a, b *Term) *Term { return ts.Not(ts.And(ts.Not(a), ts.Not(b))) }

func (ts *Terms) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.c != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == ONot {
		return ts.Ite(c.a, y, x)
	}
	if x.w == 0 {
		if x.isConst() {
			if x.c != 0 {
				return ts.Or(c, y)
			}
			return ts.And(ts.Not(c), y)
		}
		if y.isConst() {
			if y.c != 0 {
				return ts.Or(ts.Not(c), x)
			}
			return ts.And(c, x)
		}
		return ts.mk(OIteB, 0, 0, c, x, y)
	}
	return ts.mk(OIte, x.w, 0, c, x, y)
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if r := ts.fold(op, w, 0, a, b, nil); r != nil {
		return r
	}
	m := mskw(w)
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return ts.Bin(OAdd, a.a, ts.Const(w, a.b.c+b.c))
			}
		} else {
			if r := ts.divMod(a, b); r != nil {
				return r
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OSub:
		if a == b {
			return ts.Const(w, 0)
		}
		if b.isConst() {
			return ts.Bin(OAdd, a, ts.Const(w, -b.c))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
			if a.op == OMul && a.b.isConst() {
				return ts.Bin(OMul, a.a, ts.Const(w, a.b.c*b.c))
			}
			if a.op == OUDiv && a.b == b {
				return ts.Bin(OSub, a.a, ts.Bin(OURem, a.a, b))
			}
			if bits.OnesCount64(b.c) == 1 {
				return ts.Bin(OShl, a, ts.Const(w, uint64(bits.TrailingZeros64(b.c))))
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == m {
				return a
			}
			if a.op == OBAnd && a.b.isConst() {
				return ts.Bin(OBAnd, a.a, ts.Const(w, a.b.c&b.c))
			}
			if a.op == OZext && b.c&mskw(a.a.w) == mskw(a.a.w) {
				return a
			}
			// low mask: zext(extract)
			if b.c&(b.c+1) == 0 {
				n := uint8(bits.Len64(b.c))
				return ts.Zext(ts.Extract(a, 0, n), w)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c == m {
				return b
			}
		}
		if r := ts.orConcat(a, b); r != nil {
			return r
		}
		if r := ts.orConcat(b, a); r != nil {
			return r
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return ts.Const(w, 0)
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OBXor && a.b.isConst() {
				return ts.Bin(OBXor, a.a, ts.Const(w, a.b.c^b.c))
			}
		} else {
			// (x^y)^y = x
			if a.op == OBXor {
				if a.a == b {
					return a.b
				}
				if a.b == b {
					return a.a
				}
			}
			if b.op == OBXor {
				if b.a == a {
					return b.b
				}
				if b.b == a {
					return b.a
				}
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OShl:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) {
				return ts.Const(w, 0)
			}
			k := uint8(b.c)
			return ts.Concat(ts.Extract(a, 0, w-k), ts.Const(k, 0))
		}
	case OLshr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) {
				return ts.Const(w, 0)
			}
			k := uint8(b.c)
			return ts.Zext(ts.Extract(a, k, w-k), w)
		}
	case OAshr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			k := b.c
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return ts.Sext(ts.Extract(a, uint8(k), w-uint8(k)), w)
		}
	case OUDiv:
		if b.isConst() && b.c != 0 && a.hi < b.c {
			return ts.Const(w, 0)
		}
		if a.op == OUDiv && a.b.isConst() && a.b.c != 0 && b.isConst() && b.c != 0 {
			if h, l := bits.Mul64(a.b.c, b.c); h == 0 && l <= m {
				return ts.Bin(OUDiv, a.a, ts.Const(w, l))
			}
		}
		if b.isConst() && b.c != 0 && bits.OnesCount64(b.c) == 1 {
			return ts.Bin(OLshr, a, ts.Const(w, uint64(bits.TrailingZeros64(b.c))))
		}
		if a.op == OZext && b.isConst() && b.c != 0 {
			if b.c > mskw(a.a.w) {
				return ts.Const(w, 0)
			}
			return ts.Zext(ts.Bin(OUDiv, a.a, ts.Const(a.a.w, b.c)), w)
		}
	case OURem:
		if b.isConst() && b.c != 0 && a.hi < b.c {
			return a
		}
		if b.isConst() && b.c != 0 && bits.OnesCount64(b.c) == 1 {
			return ts.Bin(OBAnd, a, ts.Const(w, b.c-1))
		}
		if a.op == OZext && b.isConst() && b.c != 0 {
			if b.c > mskw(a.a.w) {
				return a
			}
			return ts.Zext(ts.Bin(OURem, a.a, ts.Const(a.a.w, b.c)), w)
		}
	case OSDiv, OSRem:
		// a zero-extended value is non-negative: use the unsigned operator
		if (a.op == OZext || a.hi < uint64(1)<<(w-1)) && b.isConst() && sx(b.c, w) > 0 {
			if op == OSDiv {
				return ts.Bin(OUDiv, a, b)
			}
			return ts.Bin(OURem, a, b)
		}
	}
	return ts.mk(op, w, 0, a, b, nil)
}

// linear form of a sum: atoms with coefficients modulo 2^w
func (ts *Terms) linear(t *Term, k uint64, m map[*Term]uint64, c *uint64, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	switch {
	case t.isConst():
		*c += k * t.c
		return true
	case t.op == OAdd:
		return ts.linear(t.a, k, m, c, budget) && ts.linear(t.b, k, m, c, budget)
	case t.op == OSub && t.b.op == OURem && t.b.a == t.a && t.b.b.isConst():
		// x - x%c is c*(x/c)
		m[ts.Bin(OUDiv, t.a, t.b.b)] += k * t.b.b.c
		return true
	case t.op == OSub:
		return ts.linear(t.a, k, m, c, budget) && ts.linear(t.b, -k, m, c, budget)
	case t.op == OMul && t.b.isConst():
		return ts.linear(t.a, k*t.b.c, m, c, budget)
	case t.op == OConcat && t.b.isConst() && t.b.c == 0 && t.a.op == OExtract && t.a.c == 0 && t.a.a.w == t.w:
		return ts.linear(t.a.a, k<<t.b.w, m, c, budget) // x << n
	}
	m[t] += k
	return true
}

// divMod rewrites k*c*(x/c) + k*(x%c) to k*x inside a sum.
func (ts *Terms) divMod(a, b *Term) *Term {
	has := func(t *Term) bool {
		for i := 0; i < 8 && t != nil; i++ {
			switch t.op {
			case OURem, OUDiv:
				return true
			case OSub:
				return t.b.op == OURem
			case OAdd:
				if t.b.op == OURem || t.b.op == OUDiv || t.b.op == OMul && (t.b.a.op == OURem || t.b.a.op == OUDiv) {
					return true
				}
				t = t.a
			case OMul:
				t = t.a
			default:
				return false
			}
		}
		return false
	}
	if !has(a) || !has(b) {
		return nil
	}
	w := a.w
	m := map[*Term]uint64{}
	var c uint64
	budget := 24
	if !ts.linear(a, 1, m, &c, &budget) || !ts.linear(b, 1, m, &c, &budget) {
		return nil
	}
	msk := mskw(w)
	changed := false
	for again := true; again; {
		again = false
		for t, k := range m {
			if k&msk == 0 {
				delete(m, t)
				again, changed = true, true
				break
			}
			if t.op != OURem || !t.b.isConst() {
				continue
			}
			q := ts.Bin(OUDiv, t.a, t.b)
			if kq, ok := m[q]; ok && kq&msk == (k*t.b.c)&msk && q != t {
				delete(m, t)
				delete(m, q)
				m[t.a] += k
				again, changed = true, true
				break
			}
		}
	}
	if !changed {
		return nil
	}
	var ks []*Term
	for t := range m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	r := ts.Const(w, c)
	for _, t := range ks {
		r = ts.Bin(OAdd, r, ts.Bin(OMul, t, ts.Const(w, m[t])))
	}
	return r
}

// orConcat rewrites (x ++ 0^k) | zext(y) with |y|<=k into a concatenation.
func (ts *Terms) orConcat(a, b *Term) *Term {
	if a.op != OConcat || !a.b.isConst() || a.b.c != 0 {
		// zext(concat(x,0)) | zext(y)
		if a.op == OZext && a.a.op == OConcat && a.a.b.isConst() && a.a.b.c == 0 {
			k := a.a.b.w
			if b.op == OZext && b.a.w <= k {
				return ts.Zext(ts.Concat(a.a.a, ts.Zext(b.a, k)), a.w)
			}
			if b.isConst() && b.c <= mskw(k) {
				return ts.Zext(ts.Concat(a.a.a, ts.Const(k, b.c)), a.w)
			}
		}
		return nil
	}
	k := a.b.w
	if b.op == OZext && b.a.w <= k {
		return ts.Concat(a.a, ts.Zext(b.a, k))
	}
	if b.isConst() && b.c <= mskw(k) {
		return ts.Concat(a.a, ts.Const(k, b.c))
	}
	return nil
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return ts.Const(a.w, ^a.c)
	}
	if a.op == OBNot {
		return a.a
	}
	return ts.mk(OBNot, a.w, 0, a, nil, nil)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return ts.Extract(a, 0, w)
	}
	if a.isConst() {
		return ts.Const(w, a.c)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	if a.op == OExtract && a.c == 0 && a.a.hi <= mskw(a.w) {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OZext, w, 0, a, nil, nil)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return ts.Extract(a, 0, w)
	}
	if a.isConst() {
		return ts.Const(w, uint64(sx(a.c, a.w)))
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	if a.op == OSext {
		return ts.Sext(a.a, w)
	}
	return ts.mk(OSext, w, 0, a, nil, nil)
}

func (ts *Terms) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return ts.Const(w, a.c>>lo)
	}
	switch a.op {
	case OExtract:
		return ts.Extract(a.a, uint8(a.c)+lo, w)
	case OZext:
		iw := a.a.w
		if lo >= iw {
			return ts.Const(w, 0)
		}
		if lo+w <= iw {
			return ts.Extract(a.a, lo, w)
		}
		return ts.Zext(ts.Extract(a.a, lo, iw-lo), w)
	case OSext:
		iw := a.a.w
		if lo+w <= iw {
			return ts.Extract(a.a, lo, w)
		}
	case OConcat:
		bw := a.b.w
		if lo >= bw {
			return ts.Extract(a.a, lo-bw, w)
		}
		if lo+w <= bw {
			return ts.Extract(a.b, lo, w)
		}
		return ts.Concat(ts.Extract(a.a, 0, lo+w-bw), ts.Extract(a.b, lo, bw-lo))
	case OBAnd, OBOr, OBXor:
		return ts.Bin(a.op, ts.Extract(a.a, lo, w), ts.Extract(a.b, lo, w))
	case OBNot:
		return ts.BNot(ts.Extract(a.a, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return ts.Bin(a.op, ts.Extract(a.a, 0, w), ts.Extract(a.b, 0, w))
		}
		if lo+w < a.w {
			return ts.Extract(ts.Extract(a, 0, lo+w), lo, w)
		}
	case OIte:
		return ts.Ite(a.a, ts.Extract(a.b, lo, w), ts.Extract(a.d, lo, w))
	}
	return ts.mk(OExtract, w, uint64(lo), a, nil, nil)
}

func (ts *Terms) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return ts.Const(w, a.c<<b.w|b.c)
	}
	if a.isConst() && a.c == 0 {
		return ts.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.c == b.c+uint64(b.w) {
		return ts.Extract(a.a, uint8(b.c), w)
	}
	if a.op == OZext {
		return ts.Zext(ts.Concat(a.a, b), w)
	}
	return ts.mk(OConcat, w, 0, a, b, nil)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tt
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.c == b.c)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return ts.Not(a)
		}
		return ts.mk(OEq, 0, 0, a, b, nil)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.hi < b.lo || b.hi < a.lo {
		return ts.ff
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.c > mskw(a.a.w) {
				return ts.ff
			}
			return ts.Eq(a.a, ts.Const(a.a.w, b.c))
		case OSext:
			if uint64(sx(b.c&mskw(a.a.w), a.a.w))&mskw(a.w) != b.c {
				return ts.ff
			}
			return ts.Eq(a.a, ts.Const(a.a.w, b.c))
		case OAdd:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(a.w, b.c-a.b.c))
			}
		case OBXor:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(a.w, b.c^a.b.c))
			}
		case OBNot:
			return ts.Eq(a.a, ts.Const(a.w, ^b.c))
		case OConcat:
			return ts.And(ts.Eq(a.b, ts.Const(a.b.w, b.c)), ts.Eq(a.a, ts.Const(a.a.w, b.c>>a.b.w)))
		case OIte:
			if a.b.isConst() || a.d.isConst() {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.d, b))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return ts.And(ts.Eq(a.a, b.a), ts.Eq(a.b, b.b))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return ts.mk(OEq, 0, 0, a, b, nil)
}

func (ts *Terms) Cmp(op Op, a, b *Term) *Term {
	if r := ts.fold(op, 0, 0, a, b, nil); r != nil {
		return r
	}
	if a == b {
		return ts.Bool(op == OUle || op == OSle)
	}
	if op == OUlt {
		if a.hi < b.lo {
			return ts.tt
		}
		if a.lo >= b.hi {
			return ts.ff
		}
	} else if op == OUle {
		if a.hi <= b.lo {
			return ts.tt
		}
		if a.lo > b.hi {
			return ts.ff
		}
	}
	// signed comparison of non-negative values
	nonneg := func(t *Term) bool {
		return t.op == OZext || t.w > 0 && t.hi < uint64(1)<<(t.w-1)
	}
	if op == OSlt || op == OSle {
		if nonneg(a) && nonneg(b) {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
			return ts.Cmp(op, a, b)
		} else if a.op == OZext && b.isConst() { // b negative
			return ts.ff
		} else if b.op == OZext && a.isConst() {
			return ts.tt
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return ts.Cmp(op, a.a, b.a)
		}
		if a.op == OZext && b.isConst() {
			if b.c > mskw(a.a.w) {
				return ts.tt
			}
			return ts.Cmp(op, a.a, ts.Const(a.a.w, b.c))
		}
		if b.op == OZext && a.isConst() {
			if a.c > mskw(b.a.w) {
				return ts.ff
			}
			return ts.Cmp(op, ts.Const(b.a.w, a.c), b.a)
		}
		if b.isConst() && op == OUlt && b.c == 0 {
			return ts.ff
		}
		if b.isConst() && op == OUle && b.c == mskw(b.w) {
			return ts.tt
		}
		if a.isConst() && op == OUle && a.c == 0 {
			return ts.tt
		}
	}
	return ts.mk(op, 0, 0, a, b, nil)
}

// Eval evaluates t under env (indexed by var id).
func (ts *Terms) Eval(t *Term, env func(int32) uint64) uint64 {
	ts.gen++
	if int(ts.n) > len(ts.memo) {
		ts.memo = append(ts.memo, make([]memoEnt, int(ts.n)+1024-len(ts.memo))...)
	}
	return ts.eval(t, env)
}

func (ts *Terms) eval(t *Term, env func(int32) uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return env(int32(t.c)) & mskw(t.w)
	}
	e := &ts.memo[t.id]
	if e.gen == ts.gen {
		return e.v
	}
	var r uint64
	switch t.op {
	case OIte, OIteB:
		if ts.eval(t.a, env) != 0 {
			r = ts.eval(t.b, env)
		} else {
			r = ts.eval(t.d, env)
		}
	case OAnd:
		r = ts.eval(t.a, env)
		if r != 0 {
			r = ts.eval(t.b, env)
		}
	default:
		var a, b, d uint64
		var aw, bw uint8
		a = ts.eval(t.a, env)
		aw = t.a.w
		if t.b != nil {
			b = ts.eval(t.b, env)
			bw = t.b.w
		}
		if t.d != nil {
			d = ts.eval(t.d, env)
		}
		r = evalOp(t.op, t.w, t.c, aw, a, b, d, bw)
	}
	e = &ts.memo[t.id]
	e.gen = ts.gen
	e.v = r
	return r
}

// Mask returns, for a bool term depending on one <=8 bit variable, the set of values making it true.
func (ts *Terms) Mask(t *Term) *[4]uint64 {
	if t.mask != nil {
		return t.mask
	}
	m := new([4]uint64)
	n := 256
	w := ts.vars[t.uv].w
	if w == 0 {
		n = 2
	} else if w < 8 {
		n = 1 << w
	}
	var cur uint64
	env := func(int32) uint64 { return cur }
	for i := 0; i < n; i++ {
		cur = uint64(i)
		if ts.Eval(t, env) != 0 {
			m[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	t.mask = m
	return m
}

// ---- SMT-LIB printing

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func constSMT(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (ts *Terms) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t.w, t.c)
	case OVar:
		return fmt.Sprintf("v%d", t.c)
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OXorB: "xor", OIteB: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

func (ts *Terms) body(t *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int(t.c)+int(t.w)-1, t.c)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a.w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range [3]*Term{t.a, t.b, t.d} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(ts.ref(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
