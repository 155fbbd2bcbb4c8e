package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"
)

// Regular expressions: native package regexp on concrete text; on text with symbolic bytes a
// bit-state backtracker over the same compiled program, forking on symbolic character tests.

type reNative struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	src  string
	ncap int
	lit  string // required literal prefix
}

func (w *Worker) compileRe(src string) (*Native, error) {
	if n := w.reCache[src]; n != nil {
		return n, nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	sx, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(sx.Simplify())
	if err != nil {
		return nil, err
	}
	pre, _ := re.LiteralPrefix()
	n := &Native{&reNative{re: re, prog: prog, src: src, ncap: 2 * (re.NumSubexp() + 1), lit: pre}}
	w.reCache[src] = n
	return n, nil
}

type symText struct {
	b   []sb
	str any
	dec map[int][2]any // decoded runes
}

func (w *Worker) runeAtText(t *symText, pos int) (any, int) {
	if pos >= len(t.b) {
		return uint64(0xFFFFFFFF), 0
	}
	if b := t.b[pos]; b.t == nil && b.c < 0x80 {
		return uint64(b.c), 1
	}
	if d, ok := t.dec[pos]; ok {
		return d[0], d[1].(int)
	}
	r, n := w.decodeRune(t.str, pos)
	t.dec[pos] = [2]any{r, n}
	return r, n
}

func (w *Worker) runeMatch(in *syntax.Inst, r any) bool {
	switch x := r.(type) {
	case uint64:
		if int32(x) < 0 {
			return false
		}
		switch in.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return x != '\n'
		}
		return in.MatchRune(rune(int32(x)))
	case *Term:
		switch in.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return !w.branch(w.eqc(x, '\n'))
		}
		ts := w.ts
		c := ts.ff
		rs := in.Rune
		if len(rs) == 1 {
			r0 := rs[0]
			c = w.eqc(x, uint64(uint32(r0)))
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for k := rune(0); k < 0x250; k++ {
					if k != r0 && in.MatchRune(k) {
						c = ts.Or(c, w.eqc(x, uint64(uint32(k))))
					}
				}
			}
		} else {
			for i := 0; i+1 < len(rs); i += 2 {
				lo := ts.Cmp(OUle, ts.Const(x.w, uint64(uint32(rs[i]))), x)
				hi := ts.Cmp(OUle, x, ts.Const(x.w, uint64(uint32(rs[i+1]))))
				c = ts.Or(c, ts.And(lo, hi))
			}
		}
		return w.branch(c)
	}
	panic("runeMatch")
}

func (w *Worker) isWord(t *symText, pos int) bool {
	if pos < 0 || pos >= len(t.b) {
		return false
	}
	b := t.b[pos]
	if b.t == nil {
		return syntax.IsWordChar(rune(b.c))
	}
	ts := w.ts
	c := ts.ff
	for _, p := range [][2]byte{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}} {
		c = ts.Or(c, ts.And(ts.Cmp(OUle, ts.Const(8, uint64(p[0])), b.t), ts.Cmp(OUle, b.t, ts.Const(8, uint64(p[1])))))
	}
	return w.branch(c)
}

func (w *Worker) emptyOK(op syntax.EmptyOp, t *symText, pos int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(t.b) {
		return false
	}
	isNL := func(p int) bool {
		if p < 0 || p >= len(t.b) {
			return true
		}
		if t.b[p].t == nil {
			return t.b[p].c == '\n'
		}
		return w.branch(w.eqc(t.b[p].t, '\n'))
	}
	if op&syntax.EmptyBeginLine != 0 && !isNL(pos-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && !isNL(pos) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := w.isWord(t, pos-1) != w.isWord(t, pos)
		if op&syntax.EmptyWordBoundary != 0 && !b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

// matchAt tries to match with the leftmost-first (Perl) preference at exactly position p0.
func (w *Worker) matchAt(r *reNative, t *symText, p0 int, visited map[uint64]bool) []int {
	prog := r.prog
	cap := make([]int, r.ncap)
	for i := range cap {
		cap[i] = -1
	}
	type job struct {
		pc  uint32
		pos int
		// restore capture when ci >= 0
		ci, old int
	}
	stack := []job{{uint32(prog.Start), p0, -1, 0}}
	steps := 0
	for len(stack) > 0 {
		j := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if j.ci >= 0 {
			cap[j.ci] = j.old
			continue
		}
		pc, pos := j.pc, j.pos
	run:
		for {
			steps++
			if steps&0xfff == 0 {
				w.checkTime()
			}
			k := uint64(pc)<<40 | uint64(pos)
			if visited[k] {
				break
			}
			in := &prog.Inst[pc]
			if in.Op == syntax.InstAlt || in.Op == syntax.InstAltMatch || in.Op == syntax.InstRune1 || in.Op == syntax.InstRune || in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL {
				visited[k] = true
			}
			switch in.Op {
			case syntax.InstFail:
				break run
			case syntax.InstAlt, syntax.InstAltMatch:
				stack = append(stack, job{in.Arg, pos, -1, 0})
				pc = in.Out
			case syntax.InstCapture:
				if int(in.Arg) < len(cap) {
					stack = append(stack, job{0, 0, int(in.Arg), cap[in.Arg]})
					cap[in.Arg] = pos
				}
				pc = in.Out
			case syntax.InstEmptyWidth:
				if !w.emptyOK(syntax.EmptyOp(in.Arg), t, pos) {
					break run
				}
				pc = in.Out
			case syntax.InstNop:
				pc = in.Out
			case syntax.InstMatch:
				cap[0], cap[1] = p0, pos
				return cap
			default:
				if pos >= len(t.b) {
					break run
				}
				rr, n := w.runeAtText(t, pos)
				if !w.runeMatch(in, rr) {
					break run
				}
				pos += n
				pc = in.Out
			}
		}
	}
	return nil
}

func (w *Worker) reMatch(r *reNative, t *symText, from int) []int {
	lit := r.lit
	visited := map[uint64]bool{}
	anchored := r.prog.StartCond()&syntax.EmptyBeginText != 0
	for p := from; p <= len(t.b); p++ {
		if anchored && p > 0 {
			return nil
		}
		if len(lit) > 0 {
			if p+len(lit) > len(t.b) {
				return nil
			}
			ok := true
			for i := 0; i < len(lit); i++ {
				if x := t.b[p+i]; x.t == nil && x.c != lit[i] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
		}
		if p > 0 && t.b[p-1].t == nil && p < len(t.b) && t.b[p].t == nil && !utf8.RuneStart(t.b[p].c) {
			// inside a multi-byte rune: only start where decoding would start
			if w.midRune(t, p) {
				continue
			}
		}
		// a failed start at p visits states that stay failed for later starts
		if m := w.matchAt(r, t, p, visited); m != nil {
			return m
		}
	}
	return nil
}

func (w *Worker) midRune(t *symText, p int) bool {
	for q := p - 1; q >= 0 && q >= p-3; q-- {
		if t.b[q].t != nil {
			return false
		}
		if utf8.RuneStart(t.b[q].c) {
			if t.b[q].c < 0x80 {
				return false
			}
			_, n := w.runeAtText(t, q)
			return q+n > p
		}
	}
	return false
}

func (w *Worker) reFind(n *Native, text any, from int, t *symText) []int {
	return w.reMatch(n.v.(*reNative), t, from)
}

func mkText(v any) *symText {
	var b []sb
	var s any
	switch x := v.(type) {
	case BSlice:
		b = x.bytes()
		s = mkStr(b)
	default:
		b = strBytes(x)
		s = x
	}
	return &symText{b: b, str: s, dec: map[int][2]any{}}
}

func concText(v any) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case BSlice:
		if x.n == 0 {
			return "", true
		}
		if !x.sym() {
			return string(x.conc()), true
		}
	}
	return "", false
}

func (w *Worker) findIdx(rv any, text any) []int {
	r := w.reOf(rv)
	if s, ok := concText(text); ok {
		return r.re.FindStringSubmatchIndex(s)
	}
	return w.reMatch(r, mkText(text), 0)
}

func (w *Worker) findAllIdx(rv any, text any, n int) [][]int {
	r := w.reOf(rv)
	if s, ok := concText(text); ok {
		return r.re.FindAllStringSubmatchIndex(s, n)
	}
	t := mkText(text)
	if n < 0 {
		n = len(t.b) + 1
	}
	var out [][]int
	prev := -1
	for pos := 0; len(out) < n && pos <= len(t.b); {
		m := w.reMatch(r, t, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			if pos < len(t.b) {
				_, k := w.runeAtText(t, pos)
				pos += k
			} else {
				pos = len(t.b) + 1
			}
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			out = append(out, m)
		}
	}
	return out
}

func (w *Worker) reOf(v any) *reNative {
	switch x := v.(type) {
	case *Native:
		return x.v.(*reNative)
	case *any:
		if x == nil {
			w.nilDeref()
		}
	}
	panic(pathAbort{fmt.Sprintf("regexp receiver %T", v)})
}

func sub(v any, a, b int) any {
	switch x := v.(type) {
	case BSlice:
		return BSlice{x.a, x.off + a, b - a, b - a}
	}
	return strSlice(v, a, b)
}

func intSlice(m []int) any {
	if m == nil {
		return GSlice{}
	}
	e := make([]any, len(m))
	for i, x := range m {
		e[i] = uint64(int64(x))
	}
	return GSlice{&GArr{e}, 0, len(e), len(e)}
}

func strGroups(text any, m []int) any {
	if m == nil {
		return GSlice{}
	}
	e := make([]any, len(m)/2)
	for i := range e {
		if m[2*i] >= 0 {
			e[i] = sub(text, m[2*i], m[2*i+1])
		} else if _, ok := text.(BSlice); ok {
			e[i] = BSlice{}
		} else {
			e[i] = ""
		}
	}
	return GSlice{&GArr{e}, 0, len(e), len(e)}
}

func gslice(e []any) any {
	if e == nil {
		return GSlice{}
	}
	return GSlice{&GArr{e}, 0, len(e), len(e)}
}

// expand implements Regexp.Expand for a concrete or symbolic template.
func (w *Worker) expand(r *reNative, tmpl any, src any, m []int) []sb {
	ts, ok := tmpl.(string)
	if !ok {
		// a symbolic template: decide '$' per byte
		var out []sb
		b := strBytes(tmpl)
		for _, x := range b {
			if x.t != nil {
				if w.branch(w.eqc(x.t, '$')) {
					ts = w.concStr(tmpl, "regexp replacement template")
					return w.expand(r, ts, src, m)
				}
			} else if x.c == '$' {
				ts = w.concStr(tmpl, "regexp replacement template")
				return w.expand(r, ts, src, m)
			}
			out = append(out, x)
		}
		return out
	}
	if !strings.Contains(ts, "$") {
		return strBytes(ts)
	}
	// parse with the real expander using placeholder text per group
	var out []sb
	rest := ts
	for len(rest) > 0 {
		i := strings.IndexByte(rest, '$')
		if i < 0 {
			out = append(out, strBytes(rest)...)
			break
		}
		out = append(out, strBytes(rest[:i])...)
		rest = rest[i:]
		if len(rest) > 1 && rest[1] == '$' {
			out = append(out, sb{c: '$'})
			rest = rest[2:]
			continue
		}
		name, num, rem, ok := extract(rest)
		if !ok {
			out = append(out, sb{c: '$'})
			rest = rest[1:]
			continue
		}
		rest = rem
		if num >= 0 {
			if 2*num+1 < len(m) && m[2*num] >= 0 {
				out = append(out, anyBytes(sub(src, m[2*num], m[2*num+1]))...)
			}
		} else {
			for k, nm := range r.re.SubexpNames() {
				if nm == name && 2*k+1 < len(m) && m[2*k] >= 0 {
					out = append(out, anyBytes(sub(src, m[2*k], m[2*k+1]))...)
					break
				}
			}
		}
	}
	return out
}

// extract mirrors package regexp's parsing of $name and ${name}.
func extract(str string) (name string, num int, rest string, ok bool) {
	if str == "" || str[0] != '$' {
		return
	}
	str = str[1:]
	brace := false
	if str != "" && str[0] == '{' {
		brace = true
		str = str[1:]
	}
	i := 0
	for i < len(str) {
		c, size := utf8.DecodeRuneInString(str[i:])
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127 && c != utf8.RuneError) {
			break
		}
		i += size
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for k := 0; k < len(name); k++ {
		if name[k] < '0' || '9' < name[k] || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[k]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}

func (w *Worker) replaceAll(rv any, src any, repl func(m []int) []sb) []sb {
	b := anyBytes(src)
	var out []sb
	last := 0
	for _, m := range w.findAllIdxReplace(rv, src) {
		out = append(out, b[last:m[0]]...)
		out = append(out, repl(m)...)
		last = m[1]
	}
	return append(out, b[last:]...)
}

// ReplaceAll uses slightly different empty-match rules than FindAll.
func (w *Worker) findAllIdxReplace(rv any, src any) [][]int {
	r := w.reOf(rv)
	if s, ok := concText(src); ok {
		var ms [][]int
		r.re.ReplaceAllStringFunc(s, func(x string) string { return x })
		// collect with the package's own loop
		lastEnd, pos := 0, 0
		for pos <= len(s) {
			m := r.re.FindStringSubmatchIndex(s[pos:])
			if m != nil && pos > 0 && needsContext(r) {
				ms = nil
				return w.replLoop(r, mkText(src))
			}
			if m == nil {
				break
			}
			mm := make([]int, len(m))
			for i := range m {
				if m[i] >= 0 {
					mm[i] = m[i] + pos
				} else {
					mm[i] = -1
				}
			}
			if mm[1] > lastEnd || mm[0] == 0 {
				ms = append(ms, mm)
			}
			lastEnd = mm[1]
			var wd int
			if pos < len(s) {
				_, wd = utf8.DecodeRuneInString(s[pos:])
			}
			if pos+wd > mm[1] {
				pos += wd
			} else if pos+1 > mm[1] {
				pos++
			} else {
				pos = mm[1]
			}
		}
		return ms
	}
	return w.replLoop(r, mkText(src))
}

func needsContext(r *reNative) bool {
	for _, in := range r.prog.Inst {
		if in.Op == syntax.InstEmptyWidth {
			return true
		}
	}
	return false
}

func (w *Worker) replLoop(r *reNative, t *symText) [][]int {
	var ms [][]int
	lastEnd, pos := 0, 0
	for pos <= len(t.b) {
		m := w.reMatch(r, t, pos)
		if m == nil {
			break
		}
		if m[1] > lastEnd || m[0] == 0 {
			ms = append(ms, m)
		}
		lastEnd = m[1]
		wd := 0
		if pos < len(t.b) {
			_, wd = w.runeAtText(t, pos)
		}
		if pos+wd > m[1] {
			pos += wd
		} else if pos+1 > m[1] {
			pos++
		} else {
			pos = m[1]
		}
	}
	return ms
}

var regexIntrinsics = map[string]intrinsic{
	"regexp.MustCompile": func(w *Worker, fr *frame, a []any) (any, bool) {
		n, err := w.compileRe(w.concStr(a[0], "regexp pattern"))
		if err != nil {
			w.goPanicStr("regexp: Compile: " + err.Error())
		}
		return n, true
	},
	"regexp.Compile": func(w *Worker, fr *frame, a []any) (any, bool) {
		n, err := w.compileRe(w.concStr(a[0], "regexp pattern"))
		if err != nil {
			return Tuple{(*any)(nil), w.mkErr(err.Error())}, true
		}
		return Tuple{n, nil}, true
	},
	"regexp.MatchString": func(w *Worker, fr *frame, a []any) (any, bool) {
		n, err := w.compileRe(w.concStr(a[0], "regexp pattern"))
		if err != nil {
			return Tuple{false, w.mkErr(err.Error())}, true
		}
		return Tuple{w.findIdx(n, a[1]) != nil, nil}, true
	},
	"regexp.QuoteMeta": func(w *Worker, fr *frame, a []any) (any, bool) {
		if s, ok := a[0].(string); ok {
			return regexp.QuoteMeta(s), true
		}
		return regexp.QuoteMeta(w.concStr(a[0], "QuoteMeta")), true
	},
	"(*regexp.Regexp).String": func(w *Worker, fr *frame, a []any) (any, bool) { return w.reOf(a[0]).src, true },
	"(*regexp.Regexp).MatchString": func(w *Worker, fr *frame, a []any) (any, bool) { return w.findIdx(a[0], a[1]) != nil, true },
	"(*regexp.Regexp).Match":       func(w *Worker, fr *frame, a []any) (any, bool) { return w.findIdx(a[0], a[1]) != nil, true },
	"(*regexp.Regexp).FindStringSubmatchIndex": func(w *Worker, fr *frame, a []any) (any, bool) { return intSlice(w.findIdx(a[0], a[1])), true },
	"(*regexp.Regexp).FindSubmatchIndex":       func(w *Worker, fr *frame, a []any) (any, bool) { return intSlice(w.findIdx(a[0], a[1])), true },
	"(*regexp.Regexp).FindStringIndex":         findIndexIntr,
	"(*regexp.Regexp).FindIndex":               findIndexIntr,
	"(*regexp.Regexp).FindStringSubmatch":      func(w *Worker, fr *frame, a []any) (any, bool) { return strGroups(a[1], w.findIdx(a[0], a[1])), true },
	"(*regexp.Regexp).FindSubmatch":            func(w *Worker, fr *frame, a []any) (any, bool) { return strGroups(a[1], w.findIdx(a[0], a[1])), true },
	"(*regexp.Regexp).FindString": func(w *Worker, fr *frame, a []any) (any, bool) {
		m := w.findIdx(a[0], a[1])
		if m == nil {
			return "", true
		}
		return sub(a[1], m[0], m[1]), true
	},
	"(*regexp.Regexp).Find": func(w *Worker, fr *frame, a []any) (any, bool) {
		m := w.findIdx(a[0], a[1])
		if m == nil {
			return BSlice{}, true
		}
		return sub(a[1], m[0], m[1]), true
	},
	"(*regexp.Regexp).FindAllStringSubmatch":      findAllSub,
	"(*regexp.Regexp).FindAllSubmatch":            findAllSub,
	"(*regexp.Regexp).FindAllStringSubmatchIndex": findAllSubIdx,
	"(*regexp.Regexp).FindAllSubmatchIndex":       findAllSubIdx,
	"(*regexp.Regexp).FindAllStringIndex":         findAllIdxI,
	"(*regexp.Regexp).FindAllIndex":               findAllIdxI,
	"(*regexp.Regexp).FindAllString":              findAllS,
	"(*regexp.Regexp).FindAll":                    findAllS,
	"(*regexp.Regexp).NumSubexp": func(w *Worker, fr *frame, a []any) (any, bool) { return ival(w.reOf(a[0]).re.NumSubexp()), true },
	"(*regexp.Regexp).ReplaceAllString": func(w *Worker, fr *frame, a []any) (any, bool) {
		r := w.reOf(a[0])
		if s, ok := strs(a[1:]); ok {
			return r.re.ReplaceAllString(s[0], s[1]), true
		}
		return mkStr(w.replaceAll(a[0], a[1], func(m []int) []sb { return w.expand(r, a[2], a[1], m) })), true
	},
	"(*regexp.Regexp).ReplaceAll": func(w *Worker, fr *frame, a []any) (any, bool) {
		r := w.reOf(a[0])
		if s, ok := concB(a[1]); ok {
			if t, ok := concB(a[2]); ok {
				return bsFromConc(r.re.ReplaceAll(s, t)), true
			}
		}
		tm := a[2].(BSlice).str()
		return bsFromBytes(w.replaceAll(a[0], a[1], func(m []int) []sb { return w.expand(r, tm, a[1], m) })), true
	},
	"(*regexp.Regexp).ReplaceAllLiteralString": func(w *Worker, fr *frame, a []any) (any, bool) {
		return mkStr(w.replaceAll(a[0], a[1], func(m []int) []sb { return strBytes(a[2]) })), true
	},
	"(*regexp.Regexp).ReplaceAllLiteral": func(w *Worker, fr *frame, a []any) (any, bool) {
		return bsFromBytes(w.replaceAll(a[0], a[1], func(m []int) []sb { return anyBytes(a[2]) })), true
	},
	"(*regexp.Regexp).ReplaceAllStringFunc": func(w *Worker, fr *frame, a []any) (any, bool) {
		return mkStr(w.replaceAll(a[0], a[1], func(m []int) []sb {
			return strBytes(w.callVal(fr, a[2], []any{sub(a[1], m[0], m[1])}))
		})), true
	},
	"(*regexp.Regexp).ReplaceAllFunc": func(w *Worker, fr *frame, a []any) (any, bool) {
		return bsFromBytes(w.replaceAll(a[0], a[1], func(m []int) []sb {
			return anyBytes(w.callVal(fr, a[2], []any{sub(a[1], m[0], m[1])}))
		})), true
	},
	"(*regexp.Regexp).Split": func(w *Worker, fr *frame, a []any) (any, bool) {
		n := w.concInt(a[2], "Split count")
		if n == 0 {
			return GSlice{}, true
		}
		r := w.reOf(a[0])
		if s, ok := a[1].(string); ok {
			return strSliceVal(r.re.Split(s, n)), true
		}
		ms := w.findAllIdx(a[0], a[1], n)
		var out []any
		beg, end := 0, 0
		for _, m := range ms {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, strSlice(a[1], beg, end))
			}
			beg = m[1]
		}
		if end != strLen(a[1]) {
			out = append(out, strSlice(a[1], beg, strLen(a[1])))
		}
		return gslice(out), true
	},
}

func findIndexIntr(w *Worker, fr *frame, a []any) (any, bool) {
	m := w.findIdx(a[0], a[1])
	if m == nil {
		return GSlice{}, true
	}
	return intSlice(m[:2]), true
}

func findAllSub(w *Worker, fr *frame, a []any) (any, bool) {
	var e []any
	for _, m := range w.findAllIdx(a[0], a[1], w.concInt(a[2], "count")) {
		e = append(e, strGroups(a[1], m))
	}
	return gslice(e), true
}

func findAllSubIdx(w *Worker, fr *frame, a []any) (any, bool) {
	var e []any
	for _, m := range w.findAllIdx(a[0], a[1], w.concInt(a[2], "count")) {
		e = append(e, intSlice(m))
	}
	return gslice(e), true
}

func findAllIdxI(w *Worker, fr *frame, a []any) (any, bool) {
	var e []any
	for _, m := range w.findAllIdx(a[0], a[1], w.concInt(a[2], "count")) {
		e = append(e, intSlice(m[:2]))
	}
	return gslice(e), true
}

func findAllS(w *Worker, fr *frame, a []any) (any, bool) {
	var e []any
	for _, m := range w.findAllIdx(a[0], a[1], w.concInt(a[2], "count")) {
		e = append(e, sub(a[1], m[0], m[1]))
	}
	return gslice(e), true
}
