// Package c02: the filter decoders against reference decoders written from ISO 32000-1, 7.4.
package c02

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/sym"
)

func max(q, t int) int {
	if sym.Thorough() {
		return t
	}
	return q
}

func space(b byte) bool {
	return sym.Or(b == ' ', b == '\t', b == '\r', b == '\n', b == '\f')
}

func HHexRef() {
	sym.Bound("every input of 0..5 (quick) or 0..6 (thorough) bytes")
	n := sym.Choice("n", max(6, 7))
	d := sym.Bytes("d", n)
	got, err := parse.DecodeASCIIHex(d)
	// reference
	var want []byte
	bad := false
	half := -1
	for i := 0; i < n; i++ {
		c := d[i]
		if c == '>' {
			break
		}
		if space(c) {
			continue
		}
		if c == 0 { // white space in the standard, not accepted by every reader: unspecified here
			return
		}
		var v int
		if sym.And(c >= '0', c <= '9') {
			v = int(c) - '0'
		} else if sym.And(c >= 'a', c <= 'f') {
			v = int(c) - 'a' + 10
		} else if sym.And(c >= 'A', c <= 'F') {
			v = int(c) - 'A' + 10
		} else {
			bad = true
			break
		}
		if half < 0 {
			half = 0
			want = append(want, byte(v*16))
		} else {
			half = -1
			want[len(want)-1] += byte(v)
		}
	}
	if bad {
		sym.Assert(err != nil, "an invalid character is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "valid ASCIIHex data rejected")
	sym.Observe("got", got)
	sym.Assert(sym.EqB(got, want), "ASCIIHex decoded wrongly")
	sym.Reach("decoded")
}

func H85Ref() {
	sym.Bound("every input of 0..6 (quick) or 0..7 (thorough) bytes from the classes white space, z, ~, >, <, digit range, other; all byte values")
	n := sym.Choice("n", max(7, 8))
	d := sym.Bytes("d", n)
	ref85(d)
}

// H85Long: two groups and a tail of valid characters, optional white space and prefix.
func H85Long() {
	sym.Bound("optional <~ prefix, 5..12 characters of the alphabet, one optional white space anywhere, optional ~> and trailing bytes")
	var d []byte
	if sym.Choice("prefix", 2) == 1 {
		d = append(d, "<~"...)
	}
	n := 5 + sym.Choice("n", 8)
	ws := sym.Choice("ws", 4)
	for i := 0; i < n; i++ {
		if i == ws*2 && ws > 0 {
			w := sym.Byte("w")
			sym.Assume(space(w))
			d = append(d, w)
		}
		c := sym.Byte("c")
		sym.Assume(sym.And(c >= '!', c <= 'u'))
		d = append(d, c)
	}
	if sym.Choice("eod", 2) == 1 {
		d = append(d, "~>"...)
		d = append(d, sym.Bytes("trail", 2)...)
	}
	ref85(d)
}

func ref85(d []byte) {
	got, err := parse.DecodeASCII85(d)
	var want []byte
	var grp [5]uint32
	k := 0
	bad := false
	i := 0
	if len(d) >= 2 && sym.And(d[0] == '<', d[1] == '~') {
		i = 2
	}
	for ; i < len(d); i++ {
		c := d[i]
		if space(c) {
			continue
		}
		if c == 0 {
			return
		}
		if c == '~' {
			if i+1 < len(d) && d[i+1] == '>' {
				break
			}
			return // a lone ~: malformed, reaction unspecified
		}
		if c == 'z' {
			if k != 0 {
				bad = true
				break
			}
			want = append(want, 0, 0, 0, 0)
			continue
		}
		if sym.Or(c < '!', c > 'u') {
			bad = true
			break
		}
		grp[k] = uint32(c - '!')
		k++
		if k == 5 {
			k = 0
			v := uint64(grp[0])*52200625 + uint64(grp[1])*614125 + uint64(grp[2])*7225 + uint64(grp[3])*85 + uint64(grp[4])
			if v > 0xffffffff {
				return // not a valid group
			}
			want = append(want, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		}
	}
	if bad {
		sym.Assert(err != nil, "invalid ASCII85 data accepted")
		sym.Reach("rejected")
		return
	}
	if k == 1 {
		return // a final group of one character is malformed
	}
	if k > 1 {
		for j := k; j < 5; j++ {
			grp[j] = 84
		}
		v := uint64(grp[0])*52200625 + uint64(grp[1])*614125 + uint64(grp[2])*7225 + uint64(grp[3])*85 + uint64(grp[4])
		if v > 0xffffffff {
			return
		}
		for j := 0; j < k-1; j++ {
			want = append(want, byte(v>>(24-8*uint(j))))
		}
	}
	sym.Assert(err == nil, "valid ASCII85 data rejected")
	sym.Observe("got", got)
	sym.Assert(sym.EqB(got, want), "ASCII85 decoded wrongly")
	sym.Reach("decoded")
}

func HRunLengthRef() {
	sym.Bound("every input of 0..4 (quick) or 0..6 (thorough) bytes")
	n := sym.Choice("n", max(5, 7))
	d := sym.Bytes("d", n)
	refRL(d)
}

// HRunLengthLong: one length byte of any value followed by exactly, one more or one fewer byte than it asks for.
func HRunLengthLong() {
	sym.Bound("any first length byte with a body up to 2 bytes shorter or (for lengths 0..2, 126..129, 254, 255) one byte longer than it asks for, then an optional second record")
	l := sym.Int("len", 0, 255)
	slack := sym.Choice("slack", 4) - 2
	if slack > 0 {
		sym.Assume(sym.Or(l < 3, l == 126, l == 127, l == 128, l == 129, l > 253))
	}
	L := sym.Concrete(l)
	need := 1
	if L < 128 {
		need = L + 1
	}
	n := need + slack
	if n < 0 {
		return
	}
	d := []byte{byte(L)}
	d = append(d, sym.Bytes("b", n)...)
	then := 0
	if slack == 0 {
		then = sym.Choice("then", 3)
	}
	switch then {
	case 1:
		d = append(d, 128, 5)
	case 2:
		d = append(d, 255, sym.Byte("rep"), 0, sym.Byte("lit"), 128)
	}
	refRL(d)
}

func refRL(d []byte) {
	got, err := parse.DecodeRunLength(d)
	var want []byte
	bad := false
	for p := 0; p < len(d); {
		l := sym.Concrete(int(d[p]))
		p++
		if l == 128 {
			break
		}
		if l < 128 {
			if p+l+1 > len(d) {
				bad = true
				break
			}
			for j := 0; j <= l; j++ {
				want = append(want, d[p+j])
			}
			p += l + 1
		} else {
			if p >= len(d) {
				bad = true
				break
			}
			for j := 0; j < 257-l; j++ {
				want = append(want, d[p])
			}
			p++
		}
	}
	if bad {
		sym.Assert(err != nil, "truncated RunLength data accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "valid RunLength data rejected")
	sym.Assert(sym.EqB(got, want), "RunLength decoded wrongly")
	sym.Reach("decoded")
}

// HNames: asking by filter name gives exactly what the decoder gives.
func HNames() {
	sym.Bound("every input of 0..3 bytes under each filter name with and without slash")
	d := sym.Bytes("d", sym.Choice("n", 4))
	type f struct {
		n string
		g func([]byte) ([]byte, error)
	}
	fs := []f{{"ASCIIHexDecode", parse.DecodeASCIIHex}, {"ASCII85Decode", parse.DecodeASCII85}, {"RunLengthDecode", parse.DecodeRunLength}, {"DCTDecode", parse.DecodeDCTDecode}, {"FlateDecode", parse.DecodeFlateDecode}}
	x := fs[sym.Choice("f", len(fs))]
	if x.n == "FlateDecode" && len(d) > 2 {
		return // compressed data proper: HFlateRef
	}
	name := x.n
	if sym.Choice("slash", 2) == 1 {
		name = "/" + name
	}
	a, e1 := x.g(d)
	b, e2 := parse.DecodeFilter(d, name)
	sym.Assert((e1 == nil) == (e2 == nil), "DecodeFilter and the decoder disagree on acceptance")
	if e1 == nil {
		sym.Assert(sym.EqB(a, b), "DecodeFilter and the decoder disagree")
		sym.Reach("same")
	}
}

// HFlateRef: damaged zlib data is an error.
func HFlateRef() {
	sym.Bound("zlib stream with one stored block of 3 arbitrary bytes: any two header bytes, any length field, truncated anywhere")
	z := sym.Bytes("hdr", 2)
	fl := sym.Bytes("len", 4)
	z = append(z, 1)
	z = append(z, fl...)
	d := []byte("abc")
	z = append(z, d...)
	z = append(z, 0x02, 0x4d, 0x01, 0x27)
	full := len(z)
	z = z[:sym.Choice("cut", full+1)]
	r, err := parse.DecodeFlateDecode(z)
	if len(z) < 2 {
		sym.Assert(err != nil, "a stream without header is accepted")
		sym.Reach("short")
		return
	}
	h := int(z[0])<<8 | int(z[1])
	bad := sym.Or(z[0]&15 != 8, z[0]>>4 > 7, h%31 != 0, z[1]&32 != 0)
	badLen := sym.Or(fl[0] != ^fl[2], fl[1] != ^fl[3], fl[0] != 3, fl[1] != 0)
	if len(z) < full {
		sym.Assert(err != nil, "truncated zlib data accepted")
		sym.Reach("truncated")
		return
	}
	if err == nil {
		sym.Assert(sym.Not(sym.Or(bad, badLen)), "damaged zlib data accepted")
		sym.Assert(sym.EqB(r, d), "wrong data")
		sym.Reach("ok")
	} else {
		sym.Assert(sym.Or(bad, badLen), "valid zlib data rejected")
		sym.Reach("bad")
	}
}
