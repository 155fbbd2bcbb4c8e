// Package c01: encode/decode round trips of the stream filters.
package c01

import (
	"bytes"
	"compress/zlib"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/sym"
)

func max(q, t int) int {
	if sym.Thorough() {
		return t
	}
	return q
}

// back checks that every way of asking for the decoder returns the original bytes.
func back(name string, enc, d []byte) {
	for _, n := range []string{name, "/" + name} {
		r, err := parse.DecodeFilter(enc, n)
		sym.Assert(err == nil, name+": decoding an encoder's output fails")
		sym.Assert(sym.EqB(r, d), name+": decode(encode(d)) differs from d")
	}
}

func HRunLengthAny() {
	sym.Bound("all data of 0..8 (quick) or 0..11 (thorough) arbitrary bytes")
	n := sym.Choice("n", max(9, 12))
	d := sym.Bytes("d", n)
	e := parse.EncodeRunLength(d)
	sym.Observe("enc", e)
	sym.Assert(len(e) > 0, "no end-of-data marker")
	sym.Assert(sym.EqB(e[len(e)-1:], []byte{128}), "RunLength output not terminated by 128")
	r, err := parse.DecodeRunLength(e)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.EqB(r, d), "decode(encode(d)) differs from d")
	back("RunLengthDecode", e, d)
	// bytes after the end marker are not data
	r, err = parse.DecodeRunLength(append(append([]byte{}, e...), 3, 1, 2))
	sym.Assert(err == nil && len(r) == n, "data after EOD is decoded")
	sym.Reach("decoded")
}

// HRunLengthBlocks covers the 127/128/129-byte limits of runs and literals: a literal, a run, a
// literal and a run with arbitrary byte values.
func HRunLengthBlocks() {
	sym.Bound("literal(L1) run(R1) literal(L2) run(R2) with lengths around 0, 127..130 and 254..258 and arbitrary byte values")
	lens := []int{0, 1, 2, 3, 126, 127, 128, 129, 130, 131, 253, 254, 255, 256, 257, 258, 259}
	small := []int{0, 1, 2, 3, 127, 128, 129}
	if sym.Thorough() {
		small = append(small, 126, 130, 255, 256, 257)
	}
	l1 := lens[sym.Choice("l1", len(lens))]
	r1 := lens[sym.Choice("r1", len(lens))]
	l2 := small[sym.Choice("l2", len(small))]
	x, y := sym.Byte("x"), sym.Byte("y")
	a, b := sym.Byte("a"), sym.Byte("b")
	sym.Assume(x != y)
	var d []byte
	lit := func(n int) {
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				d = append(d, x)
			} else {
				d = append(d, y)
			}
		}
	}
	run := func(c byte, n int) {
		for i := 0; i < n; i++ {
			d = append(d, c)
		}
	}
	lit(l1)
	run(a, r1)
	lit(l2)
	run(b, 2)
	e := parse.EncodeRunLength(d)
	r, err := parse.DecodeRunLength(e)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.EqB(r, d), "decode(encode(d)) differs from d")
	sym.Reach("decoded")
}

func HHex() {
	sym.Bound("all data of 0..4 (quick) or 0..5 (thorough) arbitrary bytes")
	n := sym.Choice("n", max(5, 6))
	d := sym.Bytes("d", n)
	e := parse.EncodeASCIIHex(d)
	sym.Observe("enc", e)
	sym.Assert(len(e) == 2*n+1 && e[2*n] == '>', "ASCIIHex output is not two digits per byte and '>'")
	for _, c := range e[:2*n] {
		sym.Assert(sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'A', c <= 'F'), sym.And(c >= 'a', c <= 'f')), "not a hex digit")
	}
	r, err := parse.DecodeASCIIHex(e)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.EqB(r, d), "decode(encode(d)) differs from d")
	sym.Reach("decoded")
}

func HHexNames() {
	sym.Bound("2 arbitrary bytes through every filter name")
	d := sym.Bytes("d", 2)
	back("ASCIIHexDecode", parse.EncodeASCIIHex(d), d)
	sym.Reach("decoded")
}

func H85() {
	sym.Bound("all data of 0..9 (quick) or 0..13 (thorough) arbitrary bytes")
	n := sym.Choice("n", max(10, 14))
	d := sym.Bytes("d", n)
	e := parse.EncodeASCII85(d)
	sym.Observe("enc", e)
	sym.Assert(len(e) >= 4 && sym.EqB(e[len(e)-2:], []byte("~>")), "ASCII85 output not terminated by ~>")
	for _, c := range e[2 : len(e)-2] {
		sym.Assert(sym.Or(c == 'z', sym.And(c >= '!', c <= 'u')), "not an ASCII85 character")
	}
	r, err := parse.DecodeASCII85(e)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.EqB(r, d), "decode(encode(d)) differs from d")
	if n <= 5 {
		back("ASCII85Decode", e, d)
	}
	sym.Reach("decoded")
}

// H85Zero: groups of zero bytes next to non-zero groups.
func H85Zero() {
	sym.Bound("up to three 4-byte groups, each zero or arbitrary, and a 0..3 byte tail, zero or arbitrary")
	k := sym.Choice("groups", 4)
	var d []byte
	for i := 0; i < k; i++ {
		if sym.Choice("zero", 2) == 1 {
			d = append(d, 0, 0, 0, 0)
		} else {
			d = append(d, sym.Bytes("g", 4)...)
		}
	}
	t := sym.Choice("tail", 4)
	if sym.Choice("tz", 2) == 1 {
		d = append(d, make([]byte, t)...)
	} else {
		d = append(d, sym.Bytes("t", t)...)
	}
	e := parse.EncodeASCII85(d)
	r, err := parse.DecodeASCII85(e)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.EqB(r, d), "decode(encode(d)) differs from d")
	sym.Reach("decoded")
}

// HFlate: a zlib stream with one or two stored blocks, with a correct checksum computed here.
func HFlate() {
	sym.Bound("stored deflate blocks with 0..6 arbitrary bytes split at any point, and zlib compression of concrete data up to 70000 bytes")
	n := sym.Choice("n", 7)
	k := sym.Choice("split", n+1)
	d := sym.Bytes("d", n)
	s1, s2 := uint32(1), uint32(0)
	for _, b := range d {
		s1 += uint32(b)
		s2 += s1
	}
	z := []byte{0x78, 0x9c, 0, byte(k), 0, byte(^k), 255}
	z = append(z, d[:k]...)
	z = append(z, 1, byte(n-k), 0, byte(^(n - k)), 255)
	z = append(z, d[k:]...)
	z = append(z, byte(s2>>8), byte(s2), byte(s1>>8), byte(s1))
	r, err := parse.DecodeFlateDecode(z)
	sym.Assert(err == nil, "decode error")
	sym.Assert(sym.EqB(r, d), "FlateDecode differs from the stored data")
	back("FlateDecode", z, d)
	sym.Reach("stored")
}

func HFlateBig() {
	sym.Bound("zlib compression of concrete data of 0..70000 bytes")
	sizes := []int{0, 1, 511, 512, 513, 4096, 32768, 65535, 65536, 70000}
	n := sizes[sym.Choice("size", len(sizes))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i * i >> 3)
	}
	var buf bytes.Buffer
	w := zlib.NewWriter(&buf)
	w.Write(d)
	w.Close()
	back("FlateDecode", buf.Bytes(), d)
	sym.Reach("compressed")
}

func HDCT() {
	sym.Bound("all data of 0..4 bytes")
	n := sym.Choice("n", 5)
	d := sym.Bytes("d", n)
	e, err := parse.EncodeDCTDecode(d)
	if err != nil {
		sym.Assert(n < 2 || d[0] != 0xff || d[1] != 0xd8, "a JPEG stream is refused")
		_, err := parse.DecodeDCTDecode(d)
		sym.Assert(err != nil, "decoder accepts what the encoder refuses")
		sym.Reach("refused")
		return
	}
	sym.Assert(n >= 2 && d[0] == 0xff && d[1] == 0xd8, "data without SOI accepted")
	back("DCTDecode", e, d)
	sym.Reach("passed")
}

func HUnknown() {
	sym.Bound("filter names of 0..3 arbitrary bytes and near misses of the known names")
	name := ""
	if k := sym.Choice("kind", 6); k < 4 {
		name = sym.String("name", k)
	} else if k == 4 {
		name = "FlateDecode" + sym.String("suffix", 1)
	} else {
		name = "flateDecode"
	}
	_, err := parse.DecodeFilter([]byte("00>"), name)
	sym.Assert(err != nil, "an unknown filter name is accepted")
	sym.Reach("refused")
}
