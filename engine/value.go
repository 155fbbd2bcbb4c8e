package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sb is one byte: concrete (t==nil) or symbolic.
type sb struct {
	c byte
	t *Term
}

// SStr is a string with at least one symbolic byte.
type SStr struct {
	b []sb
}

// BArr backs byte arrays and byte slices.
type BArr struct {
	c []byte
	t []*Term // nil when fully concrete
}

type BSlice struct {
	a           *BArr
	off, n, cap int
}

type GArr struct{ e []any }

type GSlice struct {
	a           *GArr
	off, n, cap int
}

type SVal struct{ f []any }

type BPtr struct {
	a *BArr
	i int
}

type Iface struct {
	t types.Type
	v any
}

type Closure struct {
	fn  *ssa.Function
	env []any
	nat func(w *Worker, args []any) any
}

type Builtin struct{ name string }

type Tuple []any

type mapEnt struct {
	k, v any
	del  bool
}

type MapV struct {
	ents []mapEnt
	idx  map[any]int
	symK int // number of symbolic keys inserted
	n    int
}

type Native struct{ v any }

// RType is the engine's view of a runtime type value.
type RType struct{ t types.Type }

type nilIter struct{}

type mapIter struct {
	m    *MapV
	i    int
	perm []int
	all  bool
	used []bool
}

type strIter struct {
	s   any
	pos int
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func mkStr(b []sb) any {
	for i := range b {
		if b[i].t != nil {
			return &SStr{b}
		}
	}
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[i].c
	}
	return string(r)
}

func strBytes(v any) []sb {
	switch s := v.(type) {
	case string:
		r := make([]sb, len(s))
		for i := 0; i < len(s); i++ {
			r[i].c = s[i]
		}
		return r
	case *SStr:
		return s.b
	}
	panic(pathAbort{fmt.Sprintf("strBytes of %T", v)})
}

func strLen(v any) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(pathAbort{fmt.Sprintf("strLen of %T", v)})
}

func strAt(v any, i int) sb {
	switch s := v.(type) {
	case string:
		return sb{c: s[i]}
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v any, lo, hi int) any {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b any) any {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	xa, yb := strBytes(a), strBytes(b)
	r := make([]sb, 0, len(xa)+len(yb))
	r = append(r, xa...)
	r = append(r, yb...)
	return mkStr(r)
}

func newBArr(n int) *BArr { return &BArr{c: make([]byte, n)} }

func (a *BArr) get(i int) sb {
	if a.t != nil && a.t[i] != nil {
		return sb{t: a.t[i]}
	}
	return sb{c: a.c[i]}
}

func (a *BArr) set(i int, b sb) {
	if b.t != nil {
		if a.t == nil {
			a.t = make([]*Term, len(a.c))
		}
		a.t[i] = b.t
		a.c[i] = 0
		return
	}
	if a.t != nil {
		a.t[i] = nil
	}
	a.c[i] = b.c
}

func (a *BArr) clone() *BArr {
	r := &BArr{c: append([]byte(nil), a.c...)}
	if a.t != nil {
		r.t = append([]*Term(nil), a.t...)
	}
	return r
}

// symIn reports whether a[off:off+n] has a symbolic byte.
func (a *BArr) symIn(off, n int) bool {
	if a == nil || a.t == nil {
		return false
	}
	for _, t := range a.t[off : off+n] {
		if t != nil {
			return true
		}
	}
	return false
}

func (s BSlice) sym() bool { return s.a.symIn(s.off, s.n) }

func (s BSlice) conc() []byte {
	if s.a == nil {
		return nil
	}
	return s.a.c[s.off : s.off+s.n]
}

func (s BSlice) bytes() []sb {
	r := make([]sb, s.n)
	for i := 0; i < s.n; i++ {
		r[i] = s.a.get(s.off + i)
	}
	return r
}

func (s BSlice) str() any {
	if s.n == 0 {
		return ""
	}
	if !s.sym() {
		return string(s.conc())
	}
	return mkStr(s.bytes())
}

func bsFromConc(b []byte) BSlice {
	return BSlice{&BArr{c: append([]byte{}, b...)}, 0, len(b), len(b)}
}

func bsFromBytes(b []sb) BSlice {
	a := newBArr(len(b))
	for i, x := range b {
		a.set(i, x)
	}
	return BSlice{a, 0, len(b), len(b)}
}

func bsFromStr(v any) BSlice {
	if s, ok := v.(string); ok {
		return BSlice{&BArr{c: []byte(s)}, 0, len(s), len(s)}
	}
	return bsFromBytes(v.(*SStr).b)
}

// copyVal deep-copies struct and array values.
func copyVal(v any) any {
	switch x := v.(type) {
	case *SVal:
		f := make([]any, len(x.f))
		for i, y := range x.f {
			switch y.(type) {
			case *SVal, *GArr, *BArr:
				f[i] = copyVal(y)
			default:
				f[i] = y
			}
		}
		return &SVal{f}
	case *GArr:
		f := make([]any, len(x.e))
		for i, y := range x.e {
			switch y.(type) {
			case *SVal, *GArr, *BArr:
				f[i] = copyVal(y)
			default:
				f[i] = y
			}
		}
		return &GArr{f}
	case *BArr:
		return x.clone()
	}
	return v
}

// storeInto stores v into slot p, keeping the identity of aggregate storage.
func storeInto(p *any, v any) {
	switch x := v.(type) {
	case *SVal:
		if d, ok := (*p).(*SVal); ok {
			if d == x {
				return
			}
			for i := range x.f {
				storeInto(&d.f[i], x.f[i])
			}
			return
		}
		*p = copyVal(v)
	case *GArr:
		if d, ok := (*p).(*GArr); ok {
			if d == x {
				return
			}
			for i := range x.e {
				storeInto(&d.e[i], x.e[i])
			}
			return
		}
		*p = copyVal(v)
	case *BArr:
		if d, ok := (*p).(*BArr); ok {
			if d == x {
				return
			}
			for i := range x.c {
				d.set(i, x.get(i))
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func zeroOf(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String || u.Kind() == types.UntypedString:
			return ""
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Kind() == types.Float32:
			return float32(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return (*any)(nil)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*any)(nil)
	case *types.Slice:
		if isByteType(u.Elem()) {
			return BSlice{}
		}
		return GSlice{}
	case *types.Array:
		n := int(u.Len())
		if isByteType(u.Elem()) {
			return newBArr(n)
		}
		a := &GArr{make([]any, n)}
		for i := range a.e {
			a.e[i] = zeroOf(u.Elem())
		}
		return a
	case *types.Struct:
		s := &SVal{make([]any, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return nil
	case *types.Chan:
		return (*any)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zeroOf(u.At(i).Type())
		}
		return r
	}
	panic(pathAbort{"zeroOf " + t.String()})
}

func widthOf(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

// elemWidth is the width of the elements of a slice, array or pointer to an array, or 0 if they are not
// integers
func elemWidth(t types.Type) uint8 {
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	var e types.Type
	switch x := u.(type) {
	case *types.Slice:
		e = x.Elem()
	case *types.Array:
		e = x.Elem()
	default:
		return 0
	}
	w, _, _ := widthOf(e)
	return w
}

// ---- map keys

func (w *Worker) hasSym(v any) bool {
	switch x := v.(type) {
	case *Term:
		return true
	case *SStr:
		return true
	case *SVal:
		for _, f := range x.f {
			if w.hasSym(f) {
				return true
			}
		}
	case *GArr:
		for _, f := range x.e {
			if w.hasSym(f) {
				return true
			}
		}
	case *BArr:
		return x.symIn(0, len(x.c))
	case Iface:
		return w.hasSym(x.v)
	}
	return false
}

func (w *Worker) keyOf(v any) any {
	switch x := v.(type) {
	case uint64, string, bool, *any, BPtr:
		return x
	case float64:
		return math.Float64bits(x) ^ 0x8000000000000000
	case nil:
		return nilIter{}
	}
	var sb strings.Builder
	w.keyStr(&sb, v)
	return "\x00K" + sb.String()
}

func (w *Worker) keyStr(o *strings.Builder, v any) {
	switch x := v.(type) {
	case uint64:
		o.WriteString("i" + strconv.FormatUint(x, 10) + ";")
	case string:
		o.WriteString("s" + strconv.Itoa(len(x)) + ":" + x)
	case bool:
		fmt.Fprintf(o, "b%v;", x)
	case float64:
		fmt.Fprintf(o, "f%x;", math.Float64bits(x))
	case float32:
		fmt.Fprintf(o, "f%x;", math.Float32bits(x))
	case *any:
		fmt.Fprintf(o, "p%p;", x)
	case BPtr:
		fmt.Fprintf(o, "q%p.%d;", x.a, x.i)
	case *SVal:
		o.WriteByte('{')
		for _, f := range x.f {
			w.keyStr(o, f)
		}
		o.WriteByte('}')
	case *GArr:
		o.WriteByte('[')
		for _, f := range x.e {
			w.keyStr(o, f)
		}
		o.WriteByte(']')
	case *BArr:
		fmt.Fprintf(o, "a%x;", x.c)
	case Iface:
		o.WriteString("I" + x.t.String() + "=")
		w.keyStr(o, x.v)
	case nil:
		o.WriteByte('n')
	case RType:
		o.WriteString("T" + x.t.String())
	default:
		panic(pathAbort{fmt.Sprintf("map key of kind %T", v)})
	}
}

func (w *Worker) mapFind(m *MapV, k any) int {
	if m == nil {
		return -1
	}
	if m.symK == 0 && !w.hasSym(k) {
		if i, ok := m.idx[w.keyOf(k)]; ok {
			return i
		}
		return -1
	}
	for i := range m.ents {
		if m.ents[i].del {
			continue
		}
		if w.branch(w.eqVal(m.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapV, k, v any) {
	if m == nil {
		w.goPanicStr("assignment to entry in nil map")
	}
	i := w.mapFind(m, k)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	m.n++
	if w.hasSym(k) {
		m.symK++
	} else {
		m.idx[w.keyOf(k)] = len(m.ents) - 1
	}
}

func (w *Worker) mapDel(m *MapV, k any) {
	i := w.mapFind(m, k)
	if i < 0 {
		return
	}
	if w.hasSym(m.ents[i].k) {
		m.symK--
	} else {
		delete(m.idx, w.keyOf(m.ents[i].k))
	}
	m.ents[i].del = true
	m.n--
}

func newMap() *MapV { return &MapV{idx: map[any]int{}} }

// ---- equality as a term

func (w *Worker) byteT(b sb) *Term {
	if b.t != nil {
		return b.t
	}
	return w.ts.Const(8, uint64(b.c))
}

func (w *Worker) eqBytes(a, b []sb) *Term {
	if len(a) != len(b) {
		return w.ts.ff
	}
	for i := range a {
		if a[i].t == nil && b[i].t == nil && a[i].c != b[i].c {
			return w.ts.ff
		}
	}
	r := w.ts.tt
	for i := range a {
		if a[i].t == nil && b[i].t == nil {
			continue
		}
		r = w.ts.And(r, w.ts.Eq(w.byteT(a[i]), w.byteT(b[i])))
		if r == w.ts.ff {
			return r
		}
	}
	return r
}

func (w *Worker) toTerm(v any, width uint8) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case uint64:
		return w.ts.Const(width, x)
	case bool:
		return w.ts.Bool(x)
	}
	panic(pathAbort{fmt.Sprintf("toTerm of %T", v)})
}

func (w *Worker) eqVal(a, b any) *Term {
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			return w.ts.Bool(x == y)
		case *Term:
			return w.ts.Eq(w.ts.Const(y.w, x), y)
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return w.ts.Bool(x == y)
		case *Term:
			return w.ts.Eq(w.ts.Bool(x), y)
		}
	case *Term:
		return w.ts.Eq(x, w.toTerm(b, x.w))
	case string:
		switch y := b.(type) {
		case string:
			return w.ts.Bool(x == y)
		case *SStr:
			if len(x) != len(y.b) {
				return w.ts.ff
			}
			return w.eqBytes(strBytes(x), y.b)
		}
	case *SStr:
		if strLen(b) != len(x.b) {
			return w.ts.ff
		}
		return w.eqBytes(x.b, strBytes(b))
	case float64:
		if y, ok := b.(float64); ok {
			return w.ts.Bool(x == y)
		}
	case float32:
		if y, ok := b.(float32); ok {
			return w.ts.Bool(x == y)
		}
	case *SVal:
		y := b.(*SVal)
		r := w.ts.tt
		for i := range x.f {
			r = w.ts.And(r, w.eqVal(x.f[i], y.f[i]))
		}
		return r
	case *GArr:
		y := b.(*GArr)
		r := w.ts.tt
		for i := range x.e {
			r = w.ts.And(r, w.eqVal(x.e[i], y.e[i]))
		}
		return r
	case *BArr:
		y := b.(*BArr)
		return w.eqBytes(BSlice{x, 0, len(x.c), len(x.c)}.bytes(), BSlice{y, 0, len(y.c), len(y.c)}.bytes())
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return w.ts.ff
		}
		if !types.Identical(x.t, y.t) {
			return w.ts.ff
		}
		if !types.Comparable(x.t) {
			w.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.eqVal(x.v, y.v)
	case nil:
		return w.ts.Bool(b == nil)
	case *any:
		y, ok := b.(*any)
		return w.ts.Bool(ok && x == y)
	case BPtr:
		y, ok := b.(BPtr)
		return w.ts.Bool(ok && x == y)
	case *Native:
		y, ok := b.(*Native)
		return w.ts.Bool(ok && x == y)
	case *Closure:
		y, ok := b.(*Closure)
		return w.ts.Bool(ok && x == y)
	case *MapV:
		y, ok := b.(*MapV)
		return w.ts.Bool(ok && x == y)
	case BSlice:
		y := b.(BSlice)
		return w.ts.Bool(x.a == nil && y.a == nil)
	case GSlice:
		y := b.(GSlice)
		return w.ts.Bool(x.a == nil && y.a == nil)
	case RType:
		y, ok := b.(RType)
		return w.ts.Bool(ok && types.Identical(x.t, y.t))
	}
	panic(pathAbort{fmt.Sprintf("eq of %T and %T", a, b)})
}

// lexicographic < on byte strings as a term
func (w *Worker) ltBytes(a, b []sb) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := w.ts.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := w.byteT(a[i]), w.byteT(b[i])
		r = w.ts.Ite(w.ts.Cmp(OUlt, x, y), w.ts.tt, w.ts.Ite(w.ts.Eq(x, y), r, w.ts.ff))
	}
	return r
}

func sortedKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
