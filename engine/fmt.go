package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func asIfaceStr(v any) (any, bool) {
	switch v.(type) {
	case string, *SStr:
		return v, true
	}
	return nil, false
}

// native converts a fully concrete scalar to a Go value for the fmt package.
func nativeScalar(t types.Type, v any) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case uint64:
		w, sg, _ := widthOf(b)
		if sg {
			switch w {
			case 8:
				return int8(x), true
			case 16:
				return int16(x), true
			case 32:
				return int32(x), true
			}
			return int64(x), true
		}
		switch w {
		case 8:
			return uint8(x), true
		case 16:
			return uint16(x), true
		case 32:
			return uint32(x), true
		}
		return x, true
	case string, bool, float64, float32:
		return x, true
	}
	return nil, false
}

// stringOf renders v under %v / %s (plus = %+v); lenient renders symbolic parts opaquely (error texts).
func (w *Worker) stringOf(fr *frame, v any, verb byte, plus, lenient bool, depth int) any {
	if v == nil {
		return "<nil>"
	}
	f, ok := v.(Iface)
	if !ok {
		panic(pathAbort{fmt.Sprintf("format of %T", v)})
	}
	return w.stringOfT(fr, f.t, f.v, verb, plus, lenient, depth)
}

func (w *Worker) stringOfT(fr *frame, t types.Type, v any, verb byte, plus, lenient bool, depth int) any {
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			fn := w.eng.methodByName(t, m)
			if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					if p, isP := v.(*any); isP && p == nil {
						return "<nil>"
					}
					return w.callFn(fr, w.eng.cfnOf(fn), []any{v}, nil)
				}
			}
		}
	}
	switch x := v.(type) {
	case string:
		return x
	case *SStr:
		return x
	case *Term:
		if lenient {
			return "<symbolic>"
		}
		if x.w == 0 {
			if w.branch(x) {
				return "true"
			}
			return "false"
		}
		wd, sg, _ := widthOf(t)
		return w.itoa(x, wd, sg, 10)
	case uint64, bool, float64, float32:
		n, _ := nativeScalar(t, v)
		return fmt.Sprint(n)
	case nil:
		return "<nil>"
	case Iface:
		return w.stringOfT(fr, x.t, x.v, verb, plus, lenient, depth)
	case BSlice:
		if verb == 's' {
			return x.str()
		}
		var parts []any
		for _, b := range x.bytes() {
			parts = append(parts, w.stringOfT(fr, types.Typ[types.Uint8], w.byteVal(b), verb, plus, lenient, depth+1))
		}
		return joinStr("[", parts, " ", "]")
	case GSlice:
		et := t.Underlying().(*types.Slice).Elem()
		var parts []any
		for i := 0; i < x.n; i++ {
			parts = append(parts, w.elemStr(fr, et, x.a.e[x.off+i], verb, plus, lenient, depth+1))
		}
		return joinStr("[", parts, " ", "]")
	case *GArr:
		et := t.Underlying().(*types.Array).Elem()
		var parts []any
		for i := range x.e {
			parts = append(parts, w.elemStr(fr, et, x.e[i], verb, plus, lenient, depth+1))
		}
		return joinStr("[", parts, " ", "]")
	case *BArr:
		var parts []any
		for i := range x.c {
			parts = append(parts, w.stringOfT(fr, types.Typ[types.Uint8], w.byteVal(x.get(i)), verb, plus, lenient, depth+1))
		}
		return joinStr("[", parts, " ", "]")
	case *SVal:
		st := t.Underlying().(*types.Struct)
		var parts []any
		for i := range x.f {
			p := w.elemStr(fr, st.Field(i).Type(), x.f[i], verb, plus, lenient, depth+1)
			if plus {
				p = strConcat(st.Field(i).Name()+":", p)
			}
			parts = append(parts, p)
		}
		return joinStr("{", parts, " ", "}")
	case *MapV:
		mt := t.Underlying().(*types.Map)
		type kv struct{ k, v any }
		var es []kv
		if x != nil {
			for _, e := range x.ents {
				if !e.del {
					es = append(es, kv{w.elemStr(fr, mt.Key(), e.k, verb, plus, lenient, depth+1), w.elemStr(fr, mt.Elem(), e.v, verb, plus, lenient, depth+1)})
				}
			}
		}
		sort.SliceStable(es, func(i, j int) bool {
			a, ok1 := es[i].k.(string)
			b, ok2 := es[j].k.(string)
			if ok1 && ok2 {
				if p, e1 := strconv.Atoi(a); e1 == nil {
					if q, e2 := strconv.Atoi(b); e2 == nil {
						return p < q
					}
				}
				return a < b
			}
			return false
		})
		var parts []any
		for _, e := range es {
			parts = append(parts, strConcat(strConcat(e.k, ":"), e.v))
		}
		return joinStr("map[", parts, " ", "]")
	case *any:
		if x == nil {
			return "<nil>"
		}
		if depth == 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if _, isS := (*x).(*SVal); isS {
					return strConcat("&", w.stringOfT(fr, pt.Elem(), *x, verb, plus, lenient, depth+1))
				}
			}
		}
		return "0xc000010000"
	}
	return "<opaque>"
}

func (w *Worker) elemStr(fr *frame, t types.Type, v any, verb byte, plus, lenient bool, depth int) any {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.stringOf(fr, v, verb, plus, lenient, depth)
	}
	return w.stringOfT(fr, t, v, verb, plus, lenient, depth)
}

func joinStr(pre string, parts []any, sep, post string) any {
	var out []sb
	out = append(out, strBytes(pre)...)
	for i, p := range parts {
		if i > 0 {
			out = append(out, strBytes(sep)...)
		}
		out = append(out, strBytes(p)...)
	}
	out = append(out, strBytes(post)...)
	return mkStr(out)
}

func (w *Worker) sprint(fr *frame, args GSlice, ln bool) any {
	var out []sb
	prevStr := true
	for i := 0; i < args.n; i++ {
		a := args.a.e[args.off+i]
		isS := false
		if f, ok := a.(Iface); ok {
			b, okb := f.t.Underlying().(*types.Basic)
			isS = okb && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || !isS && !prevStr) {
			out = append(out, sb{c: ' '})
		}
		out = append(out, strBytes(w.stringOf(fr, a, 'v', false, false, 0))...)
		prevStr = isS
	}
	return mkStr(out)
}

func (w *Worker) sprintf(fr *frame, fv any, args GSlice, lenient bool) any {
	format, ok := fv.(string)
	if !ok {
		format = w.concStr(fv, "format string")
	}
	var out []sb
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, sb{c: s[i]})
		}
	}
	ai := 0
	arg := func() any {
		if ai < args.n {
			a := args.a.e[args.off+ai]
			ai++
			return a
		}
		ai++
		return nil
	}
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(format[i:])
			break
		}
		lit(format[i : i+j])
		i += j + 1
		st := i
		plus, minus, zero, sharp, space := false, false, false, false, false
		for ; i < len(format); i++ {
			switch format[i] {
			case '+':
				plus = true
				continue
			case '-':
				minus = true
				continue
			case '0':
				zero = true
				continue
			case '#':
				sharp = true
				continue
			case ' ':
				space = true
				continue
			}
			break
		}
		width, prec := -1, -1
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				f, _ := arg().(Iface)
				return w.concInt(f.v, "format width")
			}
			n := -1
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				if n < 0 {
					n = 0
				}
				n = n*10 + int(format[i]-'0')
				i++
			}
			return n
		}
		width = num()
		if i < len(format) && format[i] == '.' {
			i++
			prec = num()
			if prec < 0 {
				prec = 0
			}
		}
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= args.n {
			lit("%!" + string(verb) + "(MISSING)")
			ai++
			continue
		}
		spec := "%" + format[st:i]
		a := arg()
		if strings.Contains(spec, "*") {
			spec = "%"
			if minus {
				spec += "-"
			}
			if zero {
				spec += "0"
			}
			if width >= 0 {
				spec += strconv.Itoa(width)
			}
			if prec >= 0 {
				spec += "." + strconv.Itoa(prec)
			}
			spec += string(verb)
		}
		_ = sharp
		_ = space
		out = append(out, strBytes(w.fmtOne(fr, spec, verb, a, plus, minus, zero, width, prec, lenient))...)
	}
	if ai < args.n {
		lit("%!(EXTRA ...)")
	}
	return mkStr(out)
}

func (w *Worker) pad(s any, width int, minus bool, c byte) any {
	n := strLen(s)
	if width <= n {
		return s
	}
	p := strings.Repeat(string(c), width-n)
	if minus {
		return strConcat(s, strings.Repeat(" ", width-n))
	}
	return strConcat(p, s)
}

func (w *Worker) fmtOne(fr *frame, spec string, verb byte, a any, plus, minus, zero bool, width, prec int, lenient bool) any {
	if verb == 'w' {
		verb = 'v'
		spec = spec[:len(spec)-1] + "v"
	}
	if a == nil {
		return w.pad(fmt.Sprintf("%"+string(verb), nil), width, minus, ' ')
	}
	f := a.(Iface)
	if verb == 'T' {
		return types.TypeString(f.t, func(p *types.Package) string { return p.Name() })
	}
	hasM := false
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		for _, m := range []string{"Error", "String"} {
			if fn := w.eng.methodByName(f.t, m); fn != nil && fn.Signature.Params().Len() == 0 {
				hasM = true
			}
		}
	}
	if !hasM {
		if n, ok := nativeScalar(f.t, f.v); ok {
			return fmt.Sprintf(spec, n)
		}
	}
	if b, ok := concB(f.v); ok && !hasM && verb != 'd' {
		return fmt.Sprintf(spec, b)
	}
	switch verb {
	case 'v', 's':
		s := w.stringOf(fr, a, verb, plus, lenient, 0)
		if prec >= 0 && verb == 's' && strLen(s) > prec {
			s = strSlice(s, 0, prec)
		}
		return w.pad(s, width, minus, ' ')
	case 'q':
		s := w.stringOf(fr, a, 's', plus, lenient, 0)
		if cs, ok := s.(string); ok {
			return fmt.Sprintf(spec, cs)
		}
		if lenient {
			return "<symbolic>"
		}
		return strconv.Quote(w.concStr(s, "%q"))
	case 'd':
		if t, ok := f.v.(*Term); ok {
			if lenient {
				return "<symbolic>"
			}
			wd, sg, _ := widthOf(f.t)
			s := w.itoa(t, wd, sg, 10)
			if plus {
				if b := strAt(s, 0); b.t != nil || b.c != '-' {
					s = strConcat("+", s)
				}
			}
			if zero && !minus {
				if b := strAt(s, 0); b.t == nil && b.c == '-' {
					return strConcat("-", w.pad(strSlice(s, 1, strLen(s)), width-1, false, '0'))
				}
				return w.pad(s, width, false, '0')
			}
			return w.pad(s, width, minus, ' ')
		}
		return w.pad(w.stringOf(fr, a, 'v', plus, lenient, 0), width, minus, ' ')
	case 'x', 'X':
		if lenient {
			return "<symbolic>"
		}
		hexd := func(b sb, hi bool) sb {
			t := w.byteT(b)
			var nib *Term
			if hi {
				nib = w.ts.Extract(t, 4, 4)
			} else {
				nib = w.ts.Extract(t, 0, 4)
			}
			n8 := w.ts.Zext(nib, 8)
			base := byte('a')
			if verb == 'X' {
				base = 'A'
			}
			r := w.ts.Ite(w.ts.Cmp(OUlt, n8, w.ts.Const(8, 10)), w.ts.Bin(OAdd, n8, w.ts.Const(8, '0')), w.ts.Bin(OAdd, n8, w.ts.Const(8, uint64(base-10))))
			if r.isConst() {
				return sb{c: byte(r.c)}
			}
			return sb{t: r}
		}
		switch x := f.v.(type) {
		case BSlice, *SStr:
			var o []sb
			for _, b := range anyBytes(x) {
				o = append(o, hexd(b, true), hexd(b, false))
			}
			return w.pad(mkStr(o), width, minus, ' ')
		case *BArr:
			var o []sb
			for i := range x.c {
				o = append(o, hexd(x.get(i), true), hexd(x.get(i), false))
			}
			return w.pad(mkStr(o), width, minus, ' ')
		case *Term:
			wd, sg, _ := widthOf(f.t)
			// fixed-width zero padded hex of an unsigned value that fits: exact nibbles
			if zero && !minus && width > 0 && (!sg || x.op == OZext) {
				t := x
				fits := int(wd) <= 4*width
				if !fits {
					fits = w.branch(w.ts.Cmp(OUlt, t, w.ts.Const(t.w, uint64(1)<<(4*uint(width)))))
				}
				if fits {
					var o []sb
					t64 := w.ts.Zext(t, 64)
					for k := width - 1; k >= 0; k-- {
						if 4*k >= 64 {
							o = append(o, sb{c: '0'})
							continue
						}
						nib := w.ts.Zext(w.ts.Extract(t64, uint8(4*k), 4), 8)
						b := sb{t: nib}
						if nib.isConst() {
							b = sb{c: byte(nib.c)}
						}
						o = append(o, hexd(b, false))
					}
					return mkStr(o)
				}
			}
			s := w.itoa(x, wd, sg, 16)
			if verb == 'X' {
				bs := strBytes(s)
				for i, b := range bs {
					if b.t != nil {
						u := w.ts.Ite(w.ts.Cmp(OUlt, b.t, w.ts.Const(8, 'a')), b.t, w.ts.Bin(OSub, b.t, w.ts.Const(8, 32)))
						bs[i] = sb{t: u}
					} else if b.c >= 'a' {
						bs[i].c -= 32
					}
				}
				s = mkStr(bs)
			}
			if zero && !minus {
				return w.pad(s, width, false, '0')
			}
			return w.pad(s, width, minus, ' ')
		}
	case 'o':
		if x, ok := f.v.(*Term); ok {
			if lenient {
				return "<symbolic>"
			}
			wd, sg, _ := widthOf(f.t)
			if wd == 8 && !sg && zero && width == 3 {
				var o []sb
				for _, p := range [][2]uint8{{6, 2}, {3, 3}, {0, 3}} {
					d := w.ts.Bin(OAdd, w.ts.Zext(w.ts.Extract(x, p[0], p[1]), 8), w.ts.Const(8, '0'))
					o = append(o, sb{t: d})
				}
				return mkStr(o)
			}
			s := w.itoa(x, wd, sg, 8)
			if zero && !minus {
				return w.pad(s, width, false, '0')
			}
			return w.pad(s, width, minus, ' ')
		}
	case 'c':
		if x, ok := f.v.(*Term); ok {
			if lenient {
				return "<symbolic>"
			}
			wd, sg, _ := widthOf(f.t)
			t := w.ts.Zext(x, 32)
			if sg && wd < 32 {
				t = w.ts.Sext(x, 32)
			}
			if wd > 32 {
				t = w.ts.Extract(x, 0, 32)
			}
			return mkStr(w.encodeRune(t))
		}
	case 'U':
		if x, ok := f.v.(*Term); ok {
			if lenient {
				return "<symbolic>"
			}
			n, _ := nativeScalar(f.t, w.concretize(x, "%U argument"))
			return fmt.Sprintf(spec, n)
		}
	case 't':
		if x, ok := f.v.(*Term); ok {
			if w.branch(x) {
				return "true"
			}
			return "false"
		}
	case 'f', 'e', 'g':
		if x, ok := f.v.(*Term); ok {
			if lenient {
				return "<symbolic>"
			}
			c := w.concretize(x, "%f argument")
			n, _ := nativeScalar(f.t, c)
			return fmt.Sprintf(spec, n)
		}
	case 'p':
		return "0xc000010000"
	}
	if lenient {
		return "<value>"
	}
	panic(pathAbort{"format verb " + spec + " for " + f.t.String()})
}

func errorfIntr(w *Worker, fr *frame, a []any) (any, bool) {
	args := a[1].(GSlice)
	format, _ := a[0].(string)
	msg := w.sprintf(fr, a[0], args, true)
	// operands of %w
	var wrapped []any
	ai := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < args.n {
			if v, ok := args.a.e[args.off+ai].(Iface); ok {
				wrapped = append(wrapped, v)
			}
		}
		ai++
	}
	var name string
	var av []any
	switch len(wrapped) {
	case 0:
		name = "NewErr"
		av = []any{msg}
	case 1:
		name = "NewWrap"
		av = []any{msg, wrapped[0]}
	default:
		name = "NewWraps"
		av = []any{msg, GSlice{&GArr{wrapped}, 0, len(wrapped), len(wrapped)}}
	}
	var fn *ssa.Function = w.eng.modelFn(name)
	return w.callFn(fr, w.eng.cfnOf(fn), av, nil), true
}

// sscanf supports the integer forms the repository uses; symbolic text is enumerated.
func sscanfIntr(w *Worker, fr *frame, a []any) (any, bool) {
	s := w.concStr(a[0], "Sscanf text")
	format := w.concStr(a[1], "Sscanf format")
	args := a[2].(GSlice)
	ptrs := make([]any, args.n)
	ints := make([]int, args.n)
	strsv := make([]string, args.n)
	isStr := make([]bool, args.n)
	for i := 0; i < args.n; i++ {
		f := args.a.e[args.off+i].(Iface)
		et := f.t.Underlying().(*types.Pointer).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			ptrs[i] = &strsv[i]
			isStr[i] = true
			continue
		}
		if _, _, ok := widthOf(et); !ok {
			panic(pathAbort{"Sscanf target"})
		}
		if v, ok := w.load(f.v).(uint64); ok {
			ints[i] = int(v)
		}
		ptrs[i] = &ints[i]
	}
	n, err := fmt.Sscanf(s, format, ptrs...)
	for i := 0; i < args.n; i++ {
		f := args.a.e[args.off+i].(Iface)
		if isStr[i] {
			w.store(f.v, strsv[i])
		} else {
			wd, _, _ := widthOf(f.t.Underlying().(*types.Pointer).Elem())
			w.store(f.v, uint64(ints[i])&mskw(wd))
		}
	}
	var e any
	if err != nil {
		e = w.mkErr(err.Error())
	}
	return Tuple{uint64(n), e}, true
}
