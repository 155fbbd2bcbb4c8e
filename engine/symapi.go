package main

import (
	"fmt"
	"strconv"
)

const symPkg = "verif/harness/sym."

var symIntrinsics map[string]intrinsic

func (w *Worker) uniq(name string) string {
	w.counters[name]++
	if n := w.counters[name]; n > 1 {
		return name + "#" + strconv.Itoa(n)
	}
	return name
}

func (w *Worker) symVar(name string, wd uint8) *Term {
	t := w.ts.Var(name, wd)
	w.model[name] = t
	return t
}

func (w *Worker) boolTerms(v any) []*Term {
	s := v.(GSlice)
	r := make([]*Term, s.n)
	for i := 0; i < s.n; i++ {
		r[i] = w.toTerm(s.a.e[s.off+i], 0)
	}
	return r
}

func initSym() {
	m := map[string]intrinsic{
		"Bytes": func(w *Worker, _ *frame, a []any) (any, bool) {
			name := w.uniq(a[0].(string))
			n := w.concInt(a[1], "length of "+name)
			b := newBArr(n)
			for i := 0; i < n; i++ {
				b.set(i, sb{t: w.symVar(fmt.Sprintf("%s[%d]", name, i), 8)})
			}
			return BSlice{b, 0, n, n}, true
		},
		"String": func(w *Worker, _ *frame, a []any) (any, bool) {
			name := w.uniq(a[0].(string))
			n := w.concInt(a[1], "length of "+name)
			b := make([]sb, n)
			for i := 0; i < n; i++ {
				b[i] = sb{t: w.symVar(fmt.Sprintf("%s[%d]", name, i), 8)}
			}
			return mkStr(b), true
		},
		"Byte": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.symVar(w.uniq(a[0].(string)), 8), true
		},
		"Uint16": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.symVar(w.uniq(a[0].(string)), 16), true
		},
		"Uint32": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.symVar(w.uniq(a[0].(string)), 32), true
		},
		"Bool": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.symVar(w.uniq(a[0].(string)), 0), true
		},
		"Int": func(w *Worker, _ *frame, a []any) (any, bool) {
			name := w.uniq(a[0].(string))
			lo, hi := int64(a[1].(uint64)), int64(a[2].(uint64))
			if lo > hi {
				panic(pathEnd{"empty range"})
			}
			if lo == hi {
				w.choices[name] = uint64(lo)
				return uint64(lo), true
			}
			if lo >= 0 && hi <= 255 {
				// one narrow variable: decided by exact domain reasoning
				t := w.symVar(name, 8)
				c := w.ts.And(w.ts.Cmp(OUle, w.ts.Const(8, uint64(lo)), t), w.ts.Cmp(OUle, t, w.ts.Const(8, uint64(hi))))
				w.assume(c)
				return w.ts.Zext(t, 64), true
			}
			t := w.symVar(name, 64)
			w.assume(w.ts.And(w.ts.Cmp(OSle, w.ts.Const(64, uint64(lo)), t), w.ts.Cmp(OSle, t, w.ts.Const(64, uint64(hi)))))
			return t, true
		},
		"Choice": func(w *Worker, _ *frame, a []any) (any, bool) {
			name := w.uniq(a[0].(string))
			n := w.concInt(a[1], "choices")
			if n <= 0 {
				panic(pathEnd{"empty choice"})
			}
			k := w.choose(n)
			w.choices[name] = uint64(k)
			return uint64(k), true
		},
		"Assume": func(w *Worker, _ *frame, a []any) (any, bool) {
			w.assume(w.toTerm(a[0], 0))
			return nil, true
		},
		"Assert": func(w *Worker, _ *frame, a []any) (any, bool) {
			w.assertT(w.toTerm(a[0], 0), w.msg(a[1]), "")
			return nil, true
		},
		"AssertKF": func(w *Worker, _ *frame, a []any) (any, bool) {
			c, k := w.toTerm(a[0], 0), w.toTerm(a[1], 0)
			msg := w.msg(a[3])
			w.assertT(w.ts.Or(c, k), msg, "")
			w.assertT(c, msg, w.msg(a[2]))
			return nil, true
		},
		"Fail": func(w *Worker, _ *frame, a []any) (any, bool) {
			w.assertT(w.ts.ff, w.msg(a[0]), "")
			return nil, true
		},
		"EqB": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.boolVal(w.eqBytes(a[0].(BSlice).bytes(), a[1].(BSlice).bytes())), true
		},
		"EqS": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.boolVal(w.eqBytes(strBytes(a[0]), strBytes(a[1]))), true
		},
		"And": func(w *Worker, _ *frame, a []any) (any, bool) {
			r := w.ts.tt
			for _, t := range w.boolTerms(a[0]) {
				r = w.ts.And(r, t)
			}
			return w.boolVal(r), true
		},
		"Or": func(w *Worker, _ *frame, a []any) (any, bool) {
			r := w.ts.ff
			for _, t := range w.boolTerms(a[0]) {
				r = w.ts.Or(r, t)
			}
			return w.boolVal(r), true
		},
		"Not": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.boolVal(w.ts.Not(w.toTerm(a[0], 0))), true
		},
		"Implies": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.boolVal(w.ts.Or(w.ts.Not(w.toTerm(a[0], 0)), w.toTerm(a[1], 0))), true
		},
		"IteInt": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.intVal(w.ts.Ite(w.toTerm(a[0], 0), w.toTerm(a[1], 64), w.toTerm(a[2], 64))), true
		},
		"IteByte": func(w *Worker, _ *frame, a []any) (any, bool) {
			return w.intVal(w.ts.Ite(w.toTerm(a[0], 0), w.toTerm(a[1], 8), w.toTerm(a[2], 8))), true
		},
		"Reach": func(w *Worker, _ *frame, a []any) (any, bool) {
			w.reach = append(w.reach, w.msg(a[0]))
			return nil, true
		},
		"Bound": func(w *Worker, _ *frame, a []any) (any, bool) {
			w.ex.mu.Lock()
			w.ex.Bounds[w.msg(a[0])] = true
			w.ex.mu.Unlock()
			return nil, true
		},
		"Thorough": func(w *Worker, _ *frame, a []any) (any, bool) { return w.eng.tier == "thorough", true },
		"MapOrders": func(w *Worker, _ *frame, a []any) (any, bool) {
			w.mapAll = w.concInt(a[0], "map orders")
			w.ex.mu.Lock()
			w.ex.MapOrd = true
			w.ex.mu.Unlock()
			return nil, true
		},
		"RandConcrete": func(w *Worker, _ *frame, a []any) (any, bool) { w.randMode = 1; return nil, true },
		"Symbolic": func(w *Worker, _ *frame, a []any) (any, bool) { // whether a byte depends on the inputs
			_, ok := a[0].(*Term)
			return ok, true
		},
		"Concrete": func(w *Worker, _ *frame, a []any) (any, bool) { // concretise an int by enumeration
			return uint64(int64(w.concInt(a[0], "harness"))), true
		},
		"Observe": func(w *Worker, _ *frame, a []any) (any, bool) {
			name := w.uniq("obs:" + a[0].(string))
			o := obsRec{name: name}
			var v any
			if f, ok := a[1].(Iface); ok {
				v = f.v
			}
			switch x := v.(type) {
			case BSlice:
				o.kind, o.raw = 'b', x.bytes()
			case string, *SStr:
				o.kind, o.raw = 'b', strBytes(x)
			case *Term:
				o.kind, o.v = 'i', []*Term{x}
			case uint64:
				o.isC, o.c = true, strconv.FormatUint(x, 10)
			case bool:
				o.isC, o.c = true, strconv.FormatUint(b2u(x), 10)
			default:
				o.isC, o.c = true, "?"
			}
			w.obs = append(w.obs, o)
			return nil, true
		},
	}
	symIntrinsics = map[string]intrinsic{}
	for k, v := range m {
		symIntrinsics[symPkg+k] = v
	}
}

func (w *Worker) msg(v any) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "<symbolic message>"
}
