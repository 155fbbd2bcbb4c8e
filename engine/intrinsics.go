package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"crypto/aes"
	"crypto/md5"
	"crypto/rc4"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"io"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"time"
	"unicode"
)

type intrinsic func(w *Worker, fr *frame, args []any) (any, bool)

var intrinsics map[string]intrinsic

// redirects maps library functions to model functions written in Go (package verif/harness/model).
var redirects = map[string]string{}

func strs(args []any) ([]string, bool) {
	r := make([]string, len(args))
	for i, a := range args {
		s, ok := a.(string)
		if !ok {
			return nil, false
		}
		r[i] = s
	}
	return r, true
}

func concB(a any) ([]byte, bool) {
	s, ok := a.(BSlice)
	if !ok || s.sym() {
		return nil, false
	}
	return s.conc(), true
}

func anyBytes(a any) []sb {
	switch x := a.(type) {
	case BSlice:
		return x.bytes()
	case string, *SStr:
		return strBytes(x)
	}
	panic(pathAbort{fmt.Sprintf("anyBytes %T", a)})
}

func strSliceVal(ss []string) GSlice {
	e := make([]any, len(ss))
	for i, s := range ss {
		e[i] = s
	}
	return GSlice{&GArr{e}, 0, len(e), len(e)}
}

func ival(n int) any { return uint64(int64(n)) }

// indexOf: first occurrence of needle, forking on symbolic bytes.
func (w *Worker) indexOf(hay, needle any, from int) int {
	var hn, nn int
	var hget, nget func(int) sb
	switch h := hay.(type) {
	case BSlice:
		hn = h.n
		hget = func(i int) sb { return h.a.get(h.off + i) }
	default:
		hn = strLen(h)
		hget = func(i int) sb { return strAt(h, i) }
	}
	switch h := needle.(type) {
	case BSlice:
		nn = h.n
		nget = func(i int) sb { return h.a.get(h.off + i) }
	default:
		nn = strLen(h)
		nget = func(i int) sb { return strAt(h, i) }
	}
	if nn == 0 {
		return from
	}
	for i := from; i+nn <= hn; i++ {
		ok := true
		sym := false
		for j := 0; j < nn; j++ {
			a, b := hget(i+j), nget(j)
			if a.t == nil && b.t == nil {
				if a.c != b.c {
					ok = false
					break
				}
			} else {
				sym = true
			}
		}
		if !ok {
			continue
		}
		if !sym {
			return i
		}
		c := w.ts.tt
		for j := 0; j < nn && c != w.ts.ff; j++ {
			a, b := hget(i+j), nget(j)
			if a.t != nil || b.t != nil {
				c = w.ts.And(c, w.ts.Eq(w.byteT(a), w.byteT(b)))
			}
		}
		if w.branch(c) {
			return i
		}
	}
	return -1
}

func (w *Worker) lastIndexOf(hay, needle any) int {
	h, n := anyBytes(hay), anyBytes(needle)
	if len(n) == 0 {
		return len(h)
	}
	for i := len(h) - len(n); i >= 0; i-- {
		if w.branch(w.eqBytes(h[i:i+len(n)], n)) {
			return i
		}
	}
	return -1
}

func indexIntr(w *Worker, _ *frame, a []any) (any, bool) {
	if x, ok := a[0].(string); ok {
		if y, ok := a[1].(string); ok {
			return ival(strings.Index(x, y)), true
		}
	}
	if x, ok := concB(a[0]); ok {
		if y, ok := concB(a[1]); ok {
			return ival(bytes.Index(x, y)), true
		}
	}
	return ival(w.indexOf(a[0], a[1], 0)), true
}

func (w *Worker) byteIdx(h any, c any, last bool) int {
	b := w.byteOf(c)
	n := 0
	var get func(int) sb
	switch x := h.(type) {
	case BSlice:
		n = x.n
		get = func(i int) sb { return x.a.get(x.off + i) }
	default:
		n = strLen(x)
		get = func(i int) sb { return strAt(x, i) }
	}
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		y := get(i)
		if y.t == nil && b.t == nil {
			if y.c == b.c {
				return i
			}
			continue
		}
		if w.branch(w.ts.Eq(w.byteT(y), w.byteT(b))) {
			return i
		}
	}
	return -1
}

func nat1(f func(string) any) intrinsic {
	return func(w *Worker, _ *frame, a []any) (any, bool) {
		if s, ok := a[0].(string); ok {
			return f(s), true
		}
		return nil, false
	}
}

func nat2(f func(a, b string) any) intrinsic {
	return func(w *Worker, _ *frame, a []any) (any, bool) {
		if s, ok := strs(a[:2]); ok {
			return f(s[0], s[1]), true
		}
		return nil, false
	}
}

func noop(ret any) intrinsic {
	return func(*Worker, *frame, []any) (any, bool) { return ret, true }
}

func fl1(f func(float64) float64) intrinsic {
	return func(w *Worker, _ *frame, a []any) (any, bool) { return f(a[0].(float64)), true }
}

func (w *Worker) nilErr() any { return nil }

func (w *Worker) mkErr(msg string) any {
	f := w.eng.stdFn("errors", "New")
	return w.callFn(nil, w.eng.cfnOf(f), []any{msg}, nil)
}

func (w *Worker) numErr(fn string, s any, kind string) any {
	// *strconv.NumError
	f := w.eng.stdFn("strconv", kind)
	cs, _ := s.(string)
	e := w.callFn(nil, w.eng.cfnOf(f), []any{fn, cs}, nil)
	return Iface{w.eng.canon(f.Signature.Results().At(0).Type()), e}
}

// initAtomics adds sync/atomic: paths run one thread at a time.
func initAtomics() {
	load := func(w *Worker, _ *frame, a []any) (any, bool) { return w.load(a[0]), true }
	store := func(w *Worker, _ *frame, a []any) (any, bool) {
		w.store(a[0], a[1])
		return nil, true
	}
	swap := func(w *Worker, _ *frame, a []any) (any, bool) {
		old := w.load(a[0])
		w.store(a[0], a[1])
		return old, true
	}
	cas := func(w *Worker, _ *frame, a []any) (any, bool) {
		if !w.branch(w.eqVal(w.load(a[0]), a[1])) {
			return false, true
		}
		w.store(a[0], a[2])
		return true, true
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+t] = load
		intrinsics["sync/atomic.Store"+t] = store
		intrinsics["sync/atomic.Swap"+t] = swap
		intrinsics["sync/atomic.CompareAndSwap"+t] = cas
	}
}

func initIntrinsics() {
	initSym()
	intrinsics = map[string]intrinsic{
		// ---- search and comparison
		"bytes.Index":   indexIntr,
		"strings.Index": indexIntr,
		"bytes.Contains": func(w *Worker, fr *frame, a []any) (any, bool) {
			r, _ := indexIntr(w, fr, a)
			return int64(r.(uint64)) >= 0, true
		},
		"strings.Contains": func(w *Worker, fr *frame, a []any) (any, bool) {
			r, _ := indexIntr(w, fr, a)
			return int64(r.(uint64)) >= 0, true
		},
		"strings.LastIndex": func(w *Worker, _ *frame, a []any) (any, bool) {
			if s, ok := strs(a); ok {
				return ival(strings.LastIndex(s[0], s[1])), true
			}
			return ival(w.lastIndexOf(a[0], a[1])), true
		},
		"bytes.LastIndex": func(w *Worker, _ *frame, a []any) (any, bool) {
			return ival(w.lastIndexOf(a[0], a[1])), true
		},
		"bytes.IndexByte":                         func(w *Worker, _ *frame, a []any) (any, bool) { return ival(w.byteIdx(a[0], a[1], false)), true },
		"strings.IndexByte":                       func(w *Worker, _ *frame, a []any) (any, bool) { return ival(w.byteIdx(a[0], a[1], false)), true },
		"internal/bytealg.IndexByte":              func(w *Worker, _ *frame, a []any) (any, bool) { return ival(w.byteIdx(a[0], a[1], false)), true },
		"internal/bytealg.IndexByteString":        func(w *Worker, _ *frame, a []any) (any, bool) { return ival(w.byteIdx(a[0], a[1], false)), true },
		"internal/bytealg.LastIndexByte":          func(w *Worker, _ *frame, a []any) (any, bool) { return ival(w.byteIdx(a[0], a[1], true)), true },
		"internal/bytealg.LastIndexByteString":    func(w *Worker, _ *frame, a []any) (any, bool) { return ival(w.byteIdx(a[0], a[1], true)), true },
		"internal/bytealg.Index":                  indexIntr,
		"internal/bytealg.IndexString":            indexIntr,
		"internal/stringslite.Index":              indexIntr,
		"internal/bytealg.Count":                  countIntr,
		"internal/bytealg.CountString":            countIntr,
		"internal/bytealg.Equal":                  eqIntr,
		"internal/bytealg.Compare":                cmpIntr,
		"internal/bytealg.CompareString":          cmpIntr,
		"bytes.Compare":                           cmpIntr,
		"strings.Compare":                         cmpIntr,
		"internal/bytealg.MakeNoZero":             func(w *Worker, _ *frame, a []any) (any, bool) { n := w.concInt(a[0], "make"); return BSlice{newBArr(n), 0, n, n}, true },
		"bytes.Equal":                             eqIntr,
		"strings.Repeat": func(w *Worker, _ *frame, a []any) (any, bool) {
			s, ok := a[0].(string)
			if !ok {
				return nil, false
			}
			n := w.concInt(a[1], "repeat count")
			if n < 0 {
				w.goPanicStr("strings: negative Repeat count")
			}
			if len(s)*n > 1<<24 {
				panic(pathAbort{"allocation above engine limit"})
			}
			return strings.Repeat(s, n), true
		},
		"strings.TrimSpace":  nat1(func(s string) any { return strings.TrimSpace(s) }),
		"strings.ToLower":    nat1(func(s string) any { return strings.ToLower(s) }),
		"strings.ToUpper":    nat1(func(s string) any { return strings.ToUpper(s) }),
		"strings.Fields":     nat1(func(s string) any { return strSliceVal(strings.Fields(s)) }),
		"strings.Split":      nat2(func(a, b string) any { return strSliceVal(strings.Split(a, b)) }),
		"strings.HasPrefix":  nat2(func(a, b string) any { return strings.HasPrefix(a, b) }),
		"strings.HasSuffix":  nat2(func(a, b string) any { return strings.HasSuffix(a, b) }),
		"strings.TrimPrefix": nat2(func(a, b string) any { return strings.TrimPrefix(a, b) }),
		"strings.TrimSuffix": nat2(func(a, b string) any { return strings.TrimSuffix(a, b) }),
		"strings.Count":      nat2(func(a, b string) any { return ival(strings.Count(a, b)) }),
		"strings.Trim":       nat2(func(a, b string) any { return strings.Trim(a, b) }),
		"strings.TrimLeft":   nat2(func(a, b string) any { return strings.TrimLeft(a, b) }),
		"strings.TrimRight":  nat2(func(a, b string) any { return strings.TrimRight(a, b) }),
		"strings.EqualFold":  nat2(func(a, b string) any { return strings.EqualFold(a, b) }),
		"strings.ReplaceAll": func(w *Worker, _ *frame, a []any) (any, bool) {
			if s, ok := strs(a); ok {
				return strings.ReplaceAll(s[0], s[1], s[2]), true
			}
			return nil, false
		},
		"(*strings.Builder).copyCheck": noop(nil),
		"internal/abi.NoEscape":        func(w *Worker, _ *frame, a []any) (any, bool) { return a[0], true },
		"internal/abi.Escape":          func(w *Worker, _ *frame, a []any) (any, bool) { return a[0], true },
		"internal/race.Enabled":        noop(nil),

		// ---- numbers
		"strconv.Itoa":        func(w *Worker, _ *frame, a []any) (any, bool) { return w.itoa(a[0], 64, true, 10), true },
		"strconv.FormatInt":   func(w *Worker, _ *frame, a []any) (any, bool) { return w.itoa(a[0], 64, true, w.concInt(a[1], "base")), true },
		"strconv.FormatUint":  func(w *Worker, _ *frame, a []any) (any, bool) { return w.itoa(a[0], 64, false, w.concInt(a[1], "base")), true },
		"strconv.FormatFloat": func(w *Worker, _ *frame, a []any) (any, bool) {
			return strconv.FormatFloat(a[0].(float64), byte(a[1].(uint64)), w.concInt(a[2], "prec"), w.concInt(a[3], "bits")), true
		},
		"strconv.ParseFloat": func(w *Worker, fr *frame, a []any) (any, bool) {
			s := w.concStr(a[0], "ParseFloat argument")
			f, err := strconv.ParseFloat(s, w.concInt(a[1], "bits"))
			if err != nil {
				return Tuple{f, w.numErr("ParseFloat", s, "syntaxError")}, true
			}
			return Tuple{f, nil}, true
		},
		"strconv.ParseUint": parseHex,
		"strconv.Quote": func(w *Worker, _ *frame, a []any) (any, bool) {
			return strconv.Quote(w.concStr(a[0], "Quote")), true
		},
		"math/bits.TrailingZeros64": bitsIntr(64, bits.TrailingZeros64),
		"math/bits.TrailingZeros":   bitsIntr(64, bits.TrailingZeros64),
		"math/bits.TrailingZeros32": bitsIntr(32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) }),
		"math/bits.Len64":           bitsIntr(64, bits.Len64),
		"math/bits.Len":             bitsIntr(64, bits.Len64),
		"math/bits.Len32":           bitsIntr(32, bits.Len64),
		"math/bits.LeadingZeros64":  bitsIntr(64, bits.LeadingZeros64),
		"math.Float64bits":          func(w *Worker, _ *frame, a []any) (any, bool) { return math.Float64bits(a[0].(float64)), true },
		"math.Float64frombits":      func(w *Worker, _ *frame, a []any) (any, bool) { return math.Float64frombits(a[0].(uint64)), true },
		"math.Float32bits":          func(w *Worker, _ *frame, a []any) (any, bool) { return uint64(math.Float32bits(a[0].(float32))), true },
		"math.Float32frombits":      func(w *Worker, _ *frame, a []any) (any, bool) { return math.Float32frombits(uint32(a[0].(uint64))), true },
		"math.Sqrt":                 fl1(math.Sqrt), "math.Floor": fl1(math.Floor), "math.Ceil": fl1(math.Ceil), "math.Abs": fl1(math.Abs), "math.Trunc": fl1(math.Trunc), "math.Round": fl1(math.Round),
		"math.Sin": fl1(math.Sin), "math.Cos": fl1(math.Cos), "math.Tan": fl1(math.Tan), "math.Log": fl1(math.Log), "math.Exp": fl1(math.Exp),
		"math.Pow": func(w *Worker, _ *frame, a []any) (any, bool) { return math.Pow(a[0].(float64), a[1].(float64)), true },
		"math.Mod": func(w *Worker, _ *frame, a []any) (any, bool) { return math.Mod(a[0].(float64), a[1].(float64)), true },
		"math.Max": func(w *Worker, _ *frame, a []any) (any, bool) { return math.Max(a[0].(float64), a[1].(float64)), true },
		"math.Min": func(w *Worker, _ *frame, a []any) (any, bool) { return math.Min(a[0].(float64), a[1].(float64)), true },
		"unicode.IsPrint":  runeIntr(unicode.IsPrint),
		"unicode.IsLetter": runeIntr(unicode.IsLetter),
		"unicode.IsDigit":  runeIntr(unicode.IsDigit),
		"unicode.IsUpper":  runeIntr(unicode.IsUpper),
		"unicode.IsSpace":  runeIntr(unicode.IsSpace),
		"unicode.IsControl": runeIntr(unicode.IsControl),
		"unicode.ToLower": func(w *Worker, _ *frame, a []any) (any, bool) {
			if x, ok := a[0].(uint64); ok {
				return uint64(uint32(unicode.ToLower(rune(int32(x))))), true
			}
			return nil, false
		},

		// ---- output, logging, locks: no effect
		"fmt.Printf": noop(Tuple{uint64(0), nil}), "fmt.Println": noop(Tuple{uint64(0), nil}), "fmt.Print": noop(Tuple{uint64(0), nil}),
		"log.Printf": noop(nil), "log.Println": noop(nil), "log.Print": noop(nil),
		"(*sync.Mutex).Lock": noop(nil), "(*sync.Mutex).Unlock": noop(nil),
		"(*sync.RWMutex).Lock": noop(nil), "(*sync.RWMutex).Unlock": noop(nil), "(*sync.RWMutex).RLock": noop(nil), "(*sync.RWMutex).RUnlock": noop(nil),
		"(*sync.Once).Do": func(w *Worker, fr *frame, a []any) (any, bool) {
			p := a[0].(*any)
			if w.nativeObjs[p] == nil {
				w.nativeObjs[p] = true
				w.callVal(fr, a[1], nil)
			}
			return nil, true
		},
		"(*sync.Pool).Get": func(w *Worker, fr *frame, a []any) (any, bool) {
			s := (*(a[0].(*any))).(*SVal)
			for i := len(s.f) - 1; i >= 0; i-- {
				if c, ok := s.f[i].(*Closure); ok && c != nil {
					return w.callVal(fr, c, nil), true
				}
			}
			return nil, true
		},
		"(*sync.Pool).Put": noop(nil),
		"(*sync/atomic.Value).Load": func(w *Worker, _ *frame, a []any) (any, bool) {
			return (*(a[0].(*any))).(*SVal).f[0], true
		},
		"(*sync/atomic.Value).Store": func(w *Worker, _ *frame, a []any) (any, bool) {
			(*(a[0].(*any))).(*SVal).f[0] = a[1]
			return nil, true
		},

		// ---- formatting
		"fmt.Sprintf": func(w *Worker, fr *frame, a []any) (any, bool) {
			return w.sprintf(fr, a[0], a[1].(GSlice), false), true
		},
		"fmt.Fprintf": func(w *Worker, fr *frame, a []any) (any, bool) {
			s := w.sprintf(fr, a[1], a[2].(GSlice), false)
			return w.ifaceWrite(fr, a[0], s), true
		},
		"fmt.Sprint": func(w *Worker, fr *frame, a []any) (any, bool) {
			return w.sprint(fr, a[0].(GSlice), false), true
		},
		"fmt.Sprintln": func(w *Worker, fr *frame, a []any) (any, bool) {
			return strConcat(w.sprint(fr, a[0].(GSlice), true), "\n"), true
		},
		"fmt.Fprint": func(w *Worker, fr *frame, a []any) (any, bool) {
			return w.ifaceWrite(fr, a[0], w.sprint(fr, a[1].(GSlice), false)), true
		},
		"fmt.Fprintln": func(w *Worker, fr *frame, a []any) (any, bool) {
			return w.ifaceWrite(fr, a[0], strConcat(w.sprint(fr, a[1].(GSlice), true), "\n")), true
		},
		"fmt.Errorf":  errorfIntr,
		"fmt.Sscanf":  sscanfIntr,

		// ---- errors / reflection
		"errors.Is": func(w *Worker, fr *frame, a []any) (any, bool) { return w.errorsIs(fr, a[0], a[1]), true },
		"errors.As": func(w *Worker, fr *frame, a []any) (any, bool) { return w.errorsAs(fr, a[0], a[1]), true },
		"reflect.DeepEqual": func(w *Worker, fr *frame, a []any) (any, bool) {
			return w.boolVal(w.deepEq(a[0], a[1], 0)), true
		},
		"internal/reflectlite.TypeOf": rtypeOf, "reflect.TypeOf": rtypeOf,
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSliceStable,

		// ---- time: a fixed instant (stub)
		"time.Now": func(w *Worker, fr *frame, a []any) (any, bool) {
			w.stubs["time.Now (fixed instant)"]++
			f := w.eng.stdFn("time", "Unix")
			r := w.callFn(fr, w.eng.cfnOf(f), []any{uint64(1700000000), uint64(0)}, nil)
			g := w.eng.stdMethod("time", "Time", "UTC")
			return w.callFn(fr, w.eng.cfnOf(g), []any{r}, nil), true
		},
		// the local time zone is UTC (stub)
		"time.initLocal": func(w *Worker, fr *frame, a []any) (any, bool) {
			w.stubs["time.Local (UTC)"]++
			return nil, true
		},
		"time.runtimeNano": noop(uint64(1)), "time.runtimeNow": noop(Tuple{uint64(1700000000), uint64(0), uint64(1)}),

		// CRC-32 byte by byte, by the linearity of its table
		"hash/crc32.update": func(w *Worker, fr *frame, a []any) (any, bool) {
			tab, ok := a[1].(*any)
			if !ok || tab == nil {
				return nil, false
			}
			g, ok := (*tab).(*GArr)
			if !ok {
				return nil, false
			}
			poly, ok := g.e[128].(uint64) // the entry of the highest bit is the polynomial
			if !ok {
				return nil, false
			}
			var lin [8]uint64
			for i := range lin {
				c := uint64(1) << i
				for k := 0; k < 8; k++ {
					if c&1 == 1 {
						c = c>>1 ^ poly
					} else {
						c >>= 1
					}
				}
				lin[i] = c
			}
			ts := w.ts
			crc := ts.Bin(OXorB, w.toTerm(a[0], 32), ts.Const(32, 0xffffffff))
			for _, x := range a[2].(BSlice).bytes() {
				v := ts.Bin(OXorB, ts.Extract(crc, 0, 8), w.byteT(x))
				crc = ts.Bin(OLshr, crc, ts.Const(32, 8))
				for i, l := range lin {
					crc = ts.Bin(OXorB, crc, ts.Ite(ts.Eq(ts.Extract(v, uint8(i), 1), ts.Const(1, 1)), ts.Const(32, l), ts.Const(32, 0)))
				}
			}
			return w.intVal(ts.Bin(OXorB, crc, ts.Const(32, 0xffffffff))), true
		},

		// ---- randomness: arbitrary bytes
		"crypto/rand.Read": func(w *Worker, fr *frame, a []any) (any, bool) {
			s := a[0].(BSlice)
			w.fillRand(s)
			return Tuple{uint64(s.n), nil}, true
		},

		// ---- primitives of the model package
		"verif/harness/model.hashConc":   hashPrim,
		"verif/harness/model.aesEncrypt": func(w *Worker, fr *frame, a []any) (any, bool) { return w.aesBlock(a, true), true },
		"verif/harness/model.aesDecrypt": func(w *Worker, fr *frame, a []any) (any, bool) { return w.aesBlock(a, false), true },
		"verif/harness/model.rc4Stream":  rc4Prim,
		"verif/harness/model.deflate":    deflatePrim,
		"verif/harness/model.inflate":    inflatePrim,
	}
	for k, v := range regexIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range symIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range map[string]string{
		"crypto/md5.New": "MD5New", "crypto/md5.Sum": "MD5Sum", "crypto/sha256.New": "SHA256New", "crypto/sha256.Sum256": "SHA256Sum256",
		"crypto/sha512.New": "SHA512New", "crypto/sha512.New384": "SHA384New", "crypto/sha512.Sum512": "SHA512Sum512", "crypto/sha512.Sum384": "SHA512Sum384",
		"crypto/sha1.New": "SHA1New", "crypto/sha1.Sum": "SHA1Sum",
		"crypto/aes.NewCipher": "AESNewCipher", "crypto/cipher.NewCBCEncrypter": "NewCBCEncrypter", "crypto/cipher.NewCBCDecrypter": "NewCBCDecrypter",
		"crypto/rc4.NewCipher": "RC4NewCipher", "(*crypto/rc4.Cipher).XORKeyStream": "RC4XORKeyStream",
		"compress/zlib.NewReader": "ZlibNewReader", "compress/zlib.NewWriter": "ZlibNewWriter", "compress/zlib.NewWriterLevel": "ZlibNewWriterLevel",
		"(*compress/zlib.Writer).Write": "ZlibWriterWrite", "(*compress/zlib.Writer).Close": "ZlibWriterClose", "(*compress/zlib.Writer).Flush": "ZlibWriterFlush",
		"compress/flate.NewReader": "FlateNewReader", "compress/flate.NewWriter": "FlateNewWriter",
		"(*compress/flate.Writer).Write": "FlateWriterWrite", "(*compress/flate.Writer).Close": "FlateWriterClose", "(*compress/flate.Writer).Flush": "FlateWriterFlush",
	} {
		redirects[k] = v
	}
}

func bitsIntr(wd uint8, f func(uint64) int) intrinsic {
	return func(w *Worker, _ *frame, a []any) (any, bool) {
		if x, ok := a[0].(uint64); ok {
			return ival(f(x)), true
		}
		return nil, false
	}
}

func runeIntr(f func(rune) bool) intrinsic {
	return func(w *Worker, _ *frame, a []any) (any, bool) {
		switch x := a[0].(type) {
		case uint64:
			return f(rune(int32(x))), true
		case *Term:
			// ASCII part as a term; the rest through the library code
			if w.branch(w.ts.Cmp(OUlt, x, w.ts.Const(x.w, 0x80))) {
				r := w.ts.ff
				for i := 0; i < 128; i++ {
					if f(rune(i)) {
						j := i
						for j+1 < 128 && f(rune(j+1)) {
							j++
						}
						lo := w.ts.Cmp(OUle, w.ts.Const(x.w, uint64(i)), x)
						hi := w.ts.Cmp(OUle, x, w.ts.Const(x.w, uint64(j)))
						r = w.ts.Or(r, w.ts.And(lo, hi))
						i = j
					}
				}
				return w.boolVal(r), true
			}
			return nil, false
		}
		return nil, false
	}
}

func countIntr(w *Worker, _ *frame, a []any) (any, bool) {
	b := anyBytes(a[0])
	c := w.byteOf(a[1])
	n := 0
	for _, x := range b {
		if w.branch(w.ts.Eq(w.byteT(x), w.byteT(c))) {
			n++
		}
	}
	return ival(n), true
}

func eqIntr(w *Worker, _ *frame, a []any) (any, bool) {
	x, y := a[0].(BSlice), a[1].(BSlice)
	if x.n != y.n {
		return false, true
	}
	if !x.sym() && !y.sym() {
		return bytes.Equal(x.conc(), y.conc()), true
	}
	return w.boolVal(w.eqBytes(x.bytes(), y.bytes())), true
}

func cmpIntr(w *Worker, _ *frame, a []any) (any, bool) {
	x, y := anyBytes(a[0]), anyBytes(a[1])
	lt := w.ltBytes(x, y)
	eq := w.eqBytes(x, y)
	return w.intVal(w.ts.Ite(eq, w.ts.Const(64, 0), w.ts.Ite(lt, w.ts.Const(64, ^uint64(0)), w.ts.Const(64, 1)))), true
}

// concStr enumerates the feasible values of a symbolic string.
func (w *Worker) concStr(v any, why string) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		r := make([]byte, len(s.b))
		for i, b := range s.b {
			if b.t != nil {
				r[i] = byte(w.concretize(b.t, why))
			} else {
				r[i] = b.c
			}
		}
		return string(r)
	}
	panic(pathAbort{fmt.Sprintf("concStr of %T", v)})
}

// itoa renders an integer; a symbolic one forks on its digit count and gets constrained digit variables.
// parseHex decides hexadecimal numbers without forking per digit; other cases run the real code.
func parseHex(w *Worker, _ *frame, a []any) (any, bool) {
	s, ok := a[0].(*SStr)
	if base, isC := a[1].(uint64); !ok || !isC || base != 16 {
		return nil, false
	}
	if bits, isC := a[2].(uint64); !isC || len(s.b) == 0 || uint64(4*len(s.b)) > bits && bits != 0 || len(s.b) > 16 {
		return nil, false
	}
	ts := w.ts
	valid := ts.tt
	in := func(t *Term, lo, hi byte) *Term {
		return ts.And(ts.Cmp(OUle, ts.Const(8, uint64(lo)), t), ts.Cmp(OUle, t, ts.Const(8, uint64(hi))))
	}
	v := ts.Const(64, 0)
	for _, b := range s.b {
		t := w.byteT(b)
		valid = ts.And(valid, ts.Or(in(t, '0', '9'), ts.Or(in(t, 'a', 'f'), in(t, 'A', 'F'))))
		d := ts.Ite(ts.Cmp(OUle, t, ts.Const(8, '9')), ts.Bin(OSub, t, ts.Const(8, '0')),
			ts.Ite(ts.Cmp(OUle, t, ts.Const(8, 'F')), ts.Bin(OSub, t, ts.Const(8, 'A'-10)), ts.Bin(OSub, t, ts.Const(8, 'a'-10))))
		v = ts.Bin(OBOr, ts.Bin(OShl, v, ts.Const(64, 4)), ts.Zext(d, 64))
	}
	if !w.branch(valid) {
		return nil, false
	}
	if len(s.b) <= 2 {
		v = ts.Zext(w.canon(ts.Extract(v, 0, 8)), 64)
	}
	if v.isConst() {
		return Tuple{v.c, nil}, true
	}
	return Tuple{v, nil}, true
}

// canon returns the variable a byte term is equal to in every environment, if there is one.
func (w *Worker) canon(t *Term) *Term {
	if t.uv < 0 || t.op == OVar || t.w != 8 || w.ts.vars[t.uv].w != 8 {
		return t
	}
	if c, ok := w.ts.canonM[t.id]; ok {
		return c
	}
	r := w.ts.vars[t.uv].t
	for i := uint64(0); i < 256 && r != t; i++ {
		if w.ts.Eval(t, func(int32) uint64 { return i }) != i {
			r = t
		}
	}
	w.ts.canonM[t.id] = r
	return r
}

func (w *Worker) canonAll(bs []sb) []sb {
	out := make([]sb, len(bs))
	for i, b := range bs {
		if b.t != nil {
			b.t = w.canon(b.t)
		}
		out[i] = b
	}
	return out
}

func (w *Worker) itoa(v any, wd uint8, signed bool, base int) any {
	if x, ok := v.(uint64); ok {
		if signed {
			return strconv.FormatInt(sx(x, wd), base)
		}
		return strconv.FormatUint(x, base)
	}
	t := v.(*Term)
	ts := w.ts
	t0 := t
	neg := false
	if signed {
		t = ts.Sext(t, 64)
		if w.branch(ts.Cmp(OSlt, t, ts.Const(64, 0))) {
			neg = true
			t = ts.Bin(OSub, ts.Const(64, 0), t)
		}
	} else {
		t = ts.Zext(t, 64)
	}
	if t.isConst() {
		s := strconv.FormatUint(t.c, base)
		if neg {
			s = "-" + s
		}
		return s
	}
	_ = t0
	var out []sb
	if neg {
		out = append(out, sb{c: '-'})
	}
	lim := uint64(base)
	nd := 1
	for {
		if w.branch(ts.Cmp(OUlt, t, ts.Const(64, lim))) {
			break
		}
		nd++
		if lim > math.MaxUint64/uint64(base) {
			break
		}
		lim *= uint64(base)
	}
	if nd == 1 {
		return mkStr(append(out, w.digit(ts.Extract(t, 0, 8), base)))
	}
	if t.uv >= 0 {
		// single narrow variable: exact digits by division
		p := uint64(1)
		for i := 1; i < nd; i++ {
			p *= uint64(base)
		}
		for i := 0; i < nd; i++ {
			q := ts.Bin(OURem, ts.Bin(OUDiv, t, ts.Const(64, p)), ts.Const(64, uint64(base)))
			out = append(out, w.digit(ts.Extract(q, 0, 8), base))
			p /= uint64(base)
		}
		return mkStr(out)
	}
	// fresh digits d_i with sum d_i*base^i = t
	key := fmt.Sprintf("dig%d_%d_%d", t.id, nd, base)
	sum := ts.Const(64, 0)
	p := uint64(1)
	digs := make([]*Term, nd)
	for i := 0; i < nd; i++ {
		d := ts.Var(fmt.Sprintf("%s_%d", key, i), 8)
		w.addConstraint(ts.Cmp(OUlt, d, ts.Const(8, uint64(base))))
		digs[nd-1-i] = d
		sum = ts.Bin(OAdd, sum, ts.Bin(OMul, ts.Zext(d, 64), ts.Const(64, p)))
		p *= uint64(base)
	}
	c := ts.Eq(sum, t)
	w.lastOK = false
	w.addConstraint(c)
	w.addConstraint(ts.Not(w.eqc(digs[0], 0)))
	for _, d := range digs {
		out = append(out, w.digit(d, base))
	}
	return mkStr(out)
}

func (w *Worker) digit(d *Term, base int) sb {
	if d.isConst() {
		return sb{c: "0123456789abcdefghijklmnopqrstuvwxyz"[d.c]}
	}
	ts := w.ts
	r := ts.Bin(OAdd, d, ts.Const(8, '0'))
	if base > 10 {
		r = ts.Ite(ts.Cmp(OUlt, d, ts.Const(8, 10)), r, ts.Bin(OAdd, d, ts.Const(8, 'a'-10)))
	}
	if r.isConst() {
		return sb{c: byte(r.c)}
	}
	return sb{t: r}
}

func (w *Worker) ifaceWrite(fr *frame, wr any, s any) any {
	f, ok := wr.(Iface)
	if !ok {
		w.nilDeref()
	}
	fn := w.eng.methodByName(f.t, "Write")
	if fn == nil {
		panic(pathAbort{"Fprintf to " + f.t.String()})
	}
	return w.callFn(fr, w.eng.cfnOf(fn), []any{f.v, bsFromStr(s)}, nil)
}

// ---- errors

func (w *Worker) callMethod(fr *frame, v any, name string, args ...any) (any, bool) {
	f, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	fn := w.eng.methodByName(f.t, name)
	if fn == nil {
		return nil, false
	}
	return w.callFn(fr, w.eng.cfnOf(fn), append([]any{f.v}, args...), nil), true
}

func (w *Worker) errorsIs(fr *frame, err, target any) any {
	if err == nil || target == nil {
		return w.boolVal(w.eqVal(err, target))
	}
	tf := target.(Iface)
	cmp := types.Comparable(tf.t)
	return w.is(fr, err, target, cmp)
}

func (w *Worker) is(fr *frame, err, target any, cmp bool) bool {
	for {
		if cmp && w.branch(w.eqVal(err, target)) {
			return true
		}
		ef := err.(Iface)
		if fn := w.eng.methodByName(ef.t, "Is"); fn != nil && fn.Signature.Params().Len() >= 1 {
			if w.truth(w.callFn(fr, w.eng.cfnOf(fn), []any{ef.v, target}, nil)) {
				return true
			}
		}
		fn := w.eng.methodByName(ef.t, "Unwrap")
		if fn == nil {
			return false
		}
		r := w.callFn(fr, w.eng.cfnOf(fn), []any{ef.v}, nil)
		switch x := r.(type) {
		case nil:
			return false
		case Iface:
			err = x
		case GSlice:
			for i := 0; i < x.n; i++ {
				if e := x.a.e[x.off+i]; e != nil && w.is(fr, e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (w *Worker) errorsAs(fr *frame, err, target any) any {
	tf := target.(Iface)
	tt := tf.t.Underlying().(*types.Pointer).Elem()
	var rec func(err any) bool
	rec = func(err any) bool {
		for {
			if err == nil {
				return false
			}
			ef := err.(Iface)
			ok := false
			if ifc, isI := tt.Underlying().(*types.Interface); isI {
				if w.eng.implements(ef.t, ifc) {
					ok = true
					w.store(tf.v, ef)
				}
			} else if types.Identical(ef.t, tt) {
				ok = true
				w.store(tf.v, ef.v)
			}
			if ok {
				return true
			}
			if fn := w.eng.methodByName(ef.t, "As"); fn != nil {
				if w.truth(w.callFn(fr, w.eng.cfnOf(fn), []any{ef.v, target}, nil)) {
					return true
				}
			}
			fn := w.eng.methodByName(ef.t, "Unwrap")
			if fn == nil {
				return false
			}
			r := w.callFn(fr, w.eng.cfnOf(fn), []any{ef.v}, nil)
			if s, ok := r.(GSlice); ok {
				for i := 0; i < s.n; i++ {
					if rec(s.a.e[s.off+i]) {
						return true
					}
				}
				return false
			}
			err = r
		}
	}
	return rec(err)
}

func (w *Worker) deepEq(a, b any, depth int) *Term {
	if depth > 100 {
		panic(pathAbort{"DeepEqual depth"})
	}
	ts := w.ts
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || !types.Identical(x.t, y.t) {
			return ts.ff
		}
		return w.deepEq(x.v, y.v, depth+1)
	case *any:
		y, ok := b.(*any)
		if !ok {
			return ts.ff
		}
		if x == y {
			return ts.tt
		}
		if x == nil || y == nil {
			return ts.ff
		}
		return w.deepEq(*x, *y, depth+1)
	case *SVal:
		y := b.(*SVal)
		r := ts.tt
		for i := range x.f {
			r = ts.And(r, w.deepEq(x.f[i], y.f[i], depth+1))
		}
		return r
	case GSlice:
		y := b.(GSlice)
		if (x.a == nil) != (y.a == nil) || x.n != y.n {
			return ts.ff
		}
		r := ts.tt
		for i := 0; i < x.n; i++ {
			r = ts.And(r, w.deepEq(x.a.e[x.off+i], y.a.e[y.off+i], depth+1))
		}
		return r
	case BSlice:
		y := b.(BSlice)
		if (x.a == nil) != (y.a == nil) || x.n != y.n {
			return ts.ff
		}
		return w.eqBytes(x.bytes(), y.bytes())
	case *MapV:
		y := b.(*MapV)
		if (x == nil) != (y == nil) {
			return ts.ff
		}
		if x == nil || x == y {
			return ts.tt
		}
		if x.n != y.n {
			return ts.ff
		}
		r := ts.tt
		for _, e := range x.ents {
			if e.del {
				continue
			}
			j := w.mapFind(y, e.k)
			if j < 0 {
				return ts.ff
			}
			r = ts.And(r, w.deepEq(e.v, y.ents[j].v, depth+1))
		}
		return r
	case *GArr:
		y := b.(*GArr)
		r := ts.tt
		for i := range x.e {
			r = ts.And(r, w.deepEq(x.e[i], y.e[i], depth+1))
		}
		return r
	case *Closure:
		y, _ := b.(*Closure)
		return ts.Bool(x == nil && y == nil)
	}
	return w.eqVal(a, b)
}

func rtypeOf(w *Worker, fr *frame, a []any) (any, bool) {
	f, ok := a[0].(Iface)
	if !ok {
		return nil, true
	}
	return Iface{w.eng.rtErrType, RType{f.t}}, true
}

func (w *Worker) rtypeMethod(rt RType, name string, args []any) any {
	switch name {
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return Iface{w.eng.rtErrType, RType{u.Elem()}}
		case *types.Slice:
			return Iface{w.eng.rtErrType, RType{u.Elem()}}
		}
	case "String":
		return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
	case "Comparable":
		return types.Comparable(rt.t)
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	panic(pathAbort{"reflect type method " + name})
}

func sortSlice(w *Worker, fr *frame, a []any) (any, bool) {
	f := a[0].(Iface)
	s := f.v.(GSlice)
	less := a[1]
	// same algorithm as package sort, swapping elements directly
	swap := &Closure{nat: func(w *Worker, args []any) any {
		i, j := w.concInt(args[0], "swap"), w.concInt(args[1], "swap")
		x, y := copyVal(s.a.e[s.off+i]), copyVal(s.a.e[s.off+j])
		storeInto(&s.a.e[s.off+i], y)
		storeInto(&s.a.e[s.off+j], x)
		return nil
	}}
	fn := w.eng.stdFn("sort", "pdqsort_func")
	w.callFn(fr, w.eng.cfnOf(fn), []any{&SVal{[]any{less, swap}}, uint64(0), uint64(s.n), uint64(bits.Len(uint(s.n)))}, nil)
	return nil, true
}

func sortSliceStable(w *Worker, fr *frame, a []any) (any, bool) {
	f := a[0].(Iface)
	s := f.v.(GSlice)
	for i := 1; i < s.n; i++ {
		for j := i; j > 0 && w.truth(w.callVal(fr, a[1], []any{uint64(j), uint64(j - 1)})); j-- {
			x, y := copyVal(s.a.e[s.off+j]), copyVal(s.a.e[s.off+j-1])
			storeInto(&s.a.e[s.off+j], y)
			storeInto(&s.a.e[s.off+j-1], x)
		}
	}
	return nil, true
}

// ---- randomness and crypto primitives

func (w *Worker) fillRand(s BSlice) {
	for i := 0; i < s.n; i++ {
		name := fmt.Sprintf("rand#%d", w.randCtr)
		k := w.randCtr
		w.randCtr++
		if w.randMode == 1 {
			// concrete pseudo-random stream shared with the native replay
			s.a.set(s.off+i, sb{c: RandByte(k)})
			continue
		}
		t := w.ts.Var(name, 8)
		w.model[name] = t
		s.a.set(s.off+i, sb{t: t})
	}
}

// RandByte is the concrete stream used when a harness fixes randomness.
func RandByte(k int) byte {
	x := uint64(k)*0x9E3779B97F4A7C15 + 0x1234567
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	return byte(x >> 33)
}

type cryptoApp struct {
	kind string
	in   []sb
	out  []sb
	conc bool
}

// violated lists the axioms (function and injective: no collisions inside the bound) that the
// valuation breaks, as terms. Only applications with a symbolic byte on either side matter. When
// within is given, pairs that touch none of its variables are passed over.
func (w *Worker) violated(get func(int32) uint64, within map[int32]bool) []*Term {
	type key struct{ kind, val string }
	byIn, byOut := map[key]int{}, map[key]int{}
	val := func(bs []sb) string {
		r := make([]byte, len(bs))
		for i, b := range bs {
			if b.t == nil {
				r[i] = b.c
			} else {
				r[i] = byte(w.ts.Eval(b.t, get))
			}
		}
		return string(r)
	}
	touches := func(a *cryptoApp) bool {
		if within == nil {
			return true
		}
		for _, b := range a.out {
			if b.t != nil && within[b.t.varset()[0]] {
				return true
			}
		}
		return false
	}
	type rel struct {
		a       *cryptoApp
		kind    string
		in, out []sb
	}
	var rels []rel
	for _, a := range w.cryptoList {
		rels = append(rels, rel{a, a.kind, a.in, a.out})
		// both directions of AES are one relation between (key, plain) and (key, cipher)
		if strings.HasPrefix(a.kind, "aes") {
			kl, _ := strconv.Atoi(a.kind[4:])
			x := a.in
			y := append(append([]sb{}, a.in[:kl]...), a.out...)
			if a.kind[3] == 'D' {
				x, y = y, x
			}
			rels = append(rels, rel{a, "aes", x, y})
		}
	}
	var out []*Term
	add := func(x, y rel) {
		if x.a.conc && y.a.conc || x.a == y.a || !touches(x.a) && !touches(y.a) {
			return
		}
		ei, eo := w.eqBytes(x.in, y.in), w.eqBytes(x.out, y.out)
		if c := w.ts.Eq(ei, eo); !c.isConst() {
			out = append(out, c)
		}
	}
	for i, a := range rels {
		vi, vo := val(a.in), val(a.out)
		ki, ko := key{a.kind, vi}, key{a.kind, vo}
		ji, hi := byIn[ki]
		jo, ho := byOut[ko]
		if hi && (!ho || ji != jo) {
			if b := rels[ji]; val(b.out) != vo {
				add(a, b)
			}
		}
		if ho && (!hi || ji != jo) {
			if b := rels[jo]; val(b.in) != vi {
				add(a, b)
			}
		}
		if !hi {
			byIn[ki] = i
		}
		if !ho {
			byOut[ko] = i
		}
	}
	return out
}

// uf applies an uninterpreted function: concrete results when concrete, otherwise fresh bytes
// constrained to be a function (and injective) relative to the other applications on this path.
func (w *Worker) uf(kind string, in []sb, nOut int, conc func([]byte) []byte) []sb {
	in = w.canonAll(in)
	cb := make([]byte, len(in))
	isC := true
	var key strings.Builder
	key.WriteString(kind)
	for i, b := range in {
		if b.t != nil {
			isC = false
			fmt.Fprintf(&key, "t%d,", b.t.id)
		} else {
			cb[i] = b.c
			fmt.Fprintf(&key, "%x,", b.c)
		}
	}
	ks := key.String()
	if a := w.cryptoApps[ks]; a != nil {
		return a.out
	}
	app := &cryptoApp{kind: kind, in: append([]sb(nil), in...)}
	if isC {
		for _, x := range conc(cb) {
			app.out = append(app.out, sb{c: x})
		}
	} else {
		w.stubs["uninterpreted "+kind]++
		for i := 0; i < nOut; i++ {
			app.out = append(app.out, sb{t: w.ts.Var(fmt.Sprintf("uf_%s_%d_%d", kind, len(w.cryptoList), i), 8)})
		}
	}
	app.conc = isC
	if !isC || len(w.cryptoList) > 0 {
		w.axOK = false
	}
	w.cryptoApps[ks] = app
	w.cryptoList = append(w.cryptoList, app)
	return app.out
}

func hashPrim(w *Worker, fr *frame, a []any) (any, bool) {
	kind := a[0].(string)
	in := a[1].(BSlice).bytes()
	var f func([]byte) []byte
	n := 0
	switch kind {
	case "md5":
		f = func(b []byte) []byte { s := md5.Sum(b); return s[:] }
		n = 16
	case "sha256":
		f = func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
		n = 32
	case "sha512":
		f = func(b []byte) []byte { s := sha512.Sum512(b); return s[:] }
		n = 64
	case "sha384":
		f = func(b []byte) []byte { s := sha512.Sum384(b); return s[:] }
		n = 48
	case "sha1":
		f = func(b []byte) []byte { s := sha1.Sum(b); return s[:] }
		n = 20
	}
	return bsFromBytes(w.uf(kind, in, n, f)), true
}

func bytesKey(kind string, bs ...[]sb) string {
	var key strings.Builder
	key.WriteString(kind)
	for _, in := range bs {
		key.WriteByte('|')
		for _, b := range in {
			if b.t != nil {
				fmt.Fprintf(&key, "t%d,", b.t.id)
			} else {
				fmt.Fprintf(&key, "%x,", b.c)
			}
		}
	}
	return key.String()
}

func (w *Worker) aesBlock(a []any, enc bool) any {
	key, blk := w.canonAll(a[0].(BSlice).bytes()), w.canonAll(a[1].(BSlice).bytes())
	kind, inv := "aesE", "aesD"
	if !enc {
		kind, inv = "aesD", "aesE"
	}
	// D(k,E(k,x)) = x and E(k,D(k,x)) = x
	if r, ok := w.cryptoInv[bytesKey(inv, key, blk)]; ok {
		return bsFromBytes(r)
	}
	in := append(append([]sb{}, key...), blk...)
	kl := len(key)
	out := w.uf(kind+strconv.Itoa(kl), in, 16, func(b []byte) []byte {
		c, err := aes.NewCipher(b[:kl])
		if err != nil {
			panic(pathAbort{"aes key"})
		}
		o := make([]byte, 16)
		if enc {
			c.Encrypt(o, b[kl:])
		} else {
			c.Decrypt(o, b[kl:])
		}
		return o
	})
	w.cryptoInv[bytesKey(kind, key, out)] = blk
	return bsFromBytes(out)
}

// rc4Stream(key, n): first n keystream bytes
func rc4Prim(w *Worker, fr *frame, a []any) (any, bool) {
	key := a[0].(BSlice).bytes()
	n := w.concInt(a[1], "rc4 length")
	if n == 0 {
		return BSlice{newBArr(0), 0, 0, 0}, true
	}
	// chunked so that a longer request extends a shorter one
	var out []sb
	for i := 0; len(out) < n; i++ {
		idx := i
		o := w.uf("rc4_"+strconv.Itoa(len(key))+"_"+strconv.Itoa(i), key, 32, func(b []byte) []byte {
			c, err := rc4.NewCipher(b)
			if err != nil {
				panic(pathAbort{"rc4 key"})
			}
			o := make([]byte, 32*(idx+1))
			c.XORKeyStream(o, o)
			return o[32*idx:]
		})
		out = append(out, o...)
	}
	return bsFromBytes(out[:n]), true
}

// deflate(data, zlibWrap) []byte
// adler computes the Adler-32 checksum as four bytes, reducing every 5552 bytes as zlib does.
func (w *Worker) adler(in []sb) [4]*Term {
	ts := w.ts
	a, b := ts.Const(32, 1), ts.Const(32, 0)
	for i, x := range in {
		if i > 0 && i%5552 == 0 {
			a = ts.Bin(OURem, a, ts.Const(32, 65521))
			b = ts.Bin(OURem, b, ts.Const(32, 65521))
		}
		if x.t != nil {
			a = ts.Bin(OAdd, a, ts.Zext(x.t, 32))
		} else {
			a = ts.Bin(OAdd, a, ts.Const(32, uint64(x.c)))
		}
		b = ts.Bin(OAdd, b, a)
	}
	a = ts.Bin(OURem, a, ts.Const(32, 65521))
	b = ts.Bin(OURem, b, ts.Const(32, 65521))
	return [4]*Term{ts.Extract(b, 8, 8), ts.Extract(b, 0, 8), ts.Extract(a, 8, 8), ts.Extract(a, 0, 8)}
}

func deflatePrim(w *Worker, fr *frame, a []any) (any, bool) {
	s := a[0].(BSlice)
	zl := w.truth(a[1])
	if !s.sym() {
		var buf bytes.Buffer
		if zl {
			z := zlib.NewWriter(&buf)
			z.Write(s.conc())
			z.Close()
		} else {
			z, _ := flate.NewWriter(&buf, flate.DefaultCompression)
			z.Write(s.conc())
			z.Close()
		}
		return bsFromConc(buf.Bytes()), true
	}
	w.ufUsed = true
	w.stubs["deflate of symbolic data modelled as stored blocks"]++
	in := s.bytes()
	var out []sb
	put := func(bs ...byte) {
		for _, b := range bs {
			out = append(out, sb{c: b})
		}
	}
	if zl {
		put(0x78, 0x9c)
	}
	for len(in) > 0 {
		n := len(in)
		if n > 65535 {
			n = 65535
		}
		put(0, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
		out = append(out, in[:n]...)
		in = in[n:]
	}
	put(1, 0, 0, 0xff, 0xff)
	if zl {
		for _, t := range w.adler(s.bytes()) {
			if t.isConst() {
				put(byte(t.c))
			} else {
				out = append(out, sb{t: t})
			}
		}
	}
	return bsFromBytes(out), true
}

// inflate(data, zlibWrap) (out []byte, hdrErr bool, dataErr bool, used int)
func inflatePrim(w *Worker, fr *frame, a []any) (any, bool) {
	s := a[0].(BSlice)
	zl := w.truth(a[1])
	empty := BSlice{newBArr(0), 0, 0, 0}
	if !s.sym() {
		rd := bytes.NewReader(s.conc())
		var r io.Reader
		var err error
		if zl {
			r, err = zlib.NewReader(rd)
			if err != nil {
				return Tuple{empty, true, false, err == io.EOF || err == io.ErrUnexpectedEOF}, true
			}
		} else {
			r = flate.NewReader(rd)
		}
		out, err := io.ReadAll(io.LimitReader(r, 1<<24))
		return Tuple{bsFromConc(out), false, err != nil, err == io.ErrUnexpectedEOF}, true
	}
	in := s.bytes()
	p := 0
	ts := w.ts
	tb := func(i int) *Term {
		if in[i].t != nil {
			return in[i].t
		}
		return ts.Const(8, uint64(in[i].c))
	}
	cut := func(out []sb) (any, bool) { return Tuple{bsFromBytes(out), false, true, true}, true }
	if zl {
		if len(in) < 2 {
			return Tuple{empty, true, false, true}, true
		}
		h := ts.Concat(tb(0), tb(1))
		c16 := func(v uint64) *Term { return ts.Const(16, v) }
		ok := ts.And(ts.Eq(ts.Bin(OBAnd, h, c16(0x0f00)), c16(0x0800)), ts.Cmp(OUle, h, c16(0x7fff)))
		ok = ts.And(ok, ts.Eq(ts.Bin(OURem, h, c16(31)), c16(0)))
		ok = ts.And(ok, ts.Eq(ts.Bin(OBAnd, h, c16(0x20)), c16(0)))
		if !w.branch(ok) {
			return Tuple{empty, true, false, false}, true
		}
		p = 2
	}
	var out []sb
	for {
		if p >= len(in) {
			return cut(out)
		}
		hd := tb(p)
		if !w.branch(ts.Eq(ts.Bin(OBAnd, hd, ts.Const(8, 6)), ts.Const(8, 0))) {
			// a compressed block: decoded for each value of the bytes, if they are few
			syms := 0
			for i := range in {
				if in[i].t != nil {
					syms++
				}
			}
			if syms > 2 {
				panic(pathAbort{"compressed block with symbolic data"})
			}
			conc := make([]byte, len(in))
			for i := range in {
				conc[i] = in[i].c
				if in[i].t != nil {
					conc[i] = byte(w.concretize(in[i].t, "compressed data"))
				}
			}
			return inflatePrim(w, fr, []any{bsFromConc(conc), a[1]})
		}
		last := w.branch(ts.Eq(ts.Extract(hd, 0, 1), ts.Const(1, 1)))
		if p+5 > len(in) {
			return cut(out)
		}
		nt := ts.Concat(tb(p+2), tb(p+1))
		if !w.branch(ts.Eq(ts.Concat(tb(p+4), tb(p+3)), ts.BNot(nt))) {
			return Tuple{bsFromBytes(out), false, true, false}, true
		}
		p += 5
		if !w.branch(ts.Cmp(OUle, nt, ts.Const(16, uint64(min(len(in)-p, 65535))))) {
			return cut(append(out, in[p:]...))
		}
		n := int(w.concretize(nt, "length of a stored block"))
		out = append(out, in[p:p+n]...)
		p += n
		if last {
			break
		}
	}
	if zl {
		if p+4 > len(in) {
			return cut(out)
		}
		sum := w.adler(out)
		ok := ts.tt
		for i := 0; i < 4; i++ {
			ok = ts.And(ok, ts.Eq(tb(p+i), sum[i]))
		}
		if !w.branch(ok) {
			return Tuple{bsFromBytes(out), false, true, false}, true
		}
	}
	return Tuple{bsFromBytes(out), false, false, false}, true
}

var _ = time.Now
