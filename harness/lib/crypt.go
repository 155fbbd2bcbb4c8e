package lib

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"

	"verif/harness/sym"
)

// Pad is the padding string of the standard security handler.
var Pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// Std is the standard security handler for revisions 2 to 4, written from ISO 32000-1, 7.6.
type Std struct {
	V, R, Len int // Len in bytes
	P         uint32
	ID        []byte
	Meta      bool
	RC4       bool // V4 only: /CFM /V2
	O, U, Key []byte
}

func md(parts ...[]byte) []byte {
	h := md5.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func pad32(pw []byte) []byte {
	if len(pw) > 32 {
		pw = pw[:32]
	}
	r := append([]byte{}, pw...)
	return append(r, Pad[:32-len(pw)]...)
}

// RC4Crypt applies RC4.
func RC4Crypt(key, data []byte) []byte {
	out := make([]byte, len(data))
	c, _ := rc4.NewCipher(key)
	c.XORKeyStream(out, data)
	return out
}

func xorKey(key []byte, x byte) []byte {
	r := make([]byte, len(key))
	for i := range key {
		r[i] = key[i] ^ x
	}
	return r
}

// OwnerKey is the RC4 key of algorithm 3, steps a to d.
func (s *Std) OwnerKey(owner []byte) []byte {
	k := md(pad32(owner))
	if s.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md(k[:s.Len]) // "only as many bytes as the key has" (see erratum)
		}
	}
	return k[:s.Len]
}

// FileKey is algorithm 2.
func (s *Std) FileKey(pw []byte) []byte {
	p := []byte{byte(s.P), byte(s.P >> 8), byte(s.P >> 16), byte(s.P >> 24)}
	parts := [][]byte{pad32(pw), s.O, p, s.ID}
	if s.R >= 4 && !s.Meta {
		parts = append(parts, []byte{255, 255, 255, 255})
	}
	k := md(parts...)
	if s.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md(k[:s.Len])
		}
	}
	return k[:s.Len]
}

// UOf is algorithm 4 or 5 for a given file key.
func (s *Std) UOf(key []byte) []byte {
	if s.R == 2 {
		return RC4Crypt(key, Pad)
	}
	u := md(Pad, s.ID)
	for i := 0; i < 20; i++ {
		u = RC4Crypt(xorKey(key, byte(i)), u)
	}
	return append(u, make([]byte, 16)...)
}

// Setup computes O, U and the file key from the two passwords.
func (s *Std) Setup(user, owner []byte) {
	ok := s.OwnerKey(owner)
	o := RC4Crypt(ok, pad32(user))
	if s.R >= 3 {
		for i := 1; i < 20; i++ {
			o = RC4Crypt(xorKey(ok, byte(i)), o)
		}
	}
	s.O = o
	s.Key = s.FileKey(user)
	s.U = s.UOf(s.Key)
}

// Accepts is algorithms 6 and 7.
func (s *Std) Accepts(pw []byte) bool {
	ok := string(s.UOf(s.FileKey(pw))[:16]) == string(s.U[:16])
	k := s.OwnerKey(pw)
	u := s.O
	if s.R == 2 {
		u = RC4Crypt(k, u)
	} else {
		for i := 19; i >= 0; i-- {
			u = RC4Crypt(xorKey(k, byte(i)), u)
		}
	}
	return ok || string(s.UOf(s.FileKey(u))[:16]) == string(s.U[:16])
}

// ObjKey is the key of algorithm 1 for one object.
func (s *Std) ObjKey(n, g int, aesKey bool) []byte {
	parts := [][]byte{s.Key, {byte(n), byte(n >> 8), byte(n >> 16), byte(g), byte(g >> 8)}}
	if aesKey {
		parts = append(parts, []byte("sAlT"))
	}
	k := md(parts...)
	if l := len(s.Key) + 5; l < 16 {
		k = k[:l]
	}
	return k
}

// Encrypt encrypts a string or stream of object n g.
func (s *Std) Encrypt(n, g int, iv, data []byte) []byte {
	if s.V < 4 || s.RC4 {
		return RC4Crypt(s.ObjKey(n, g, false), data)
	}
	return AESCBC(s.ObjKey(n, g, true), iv, data)
}

// AESCBC encrypts with PKCS#7 padding and puts the IV in front.
func AESCBC(key, iv, data []byte) []byte {
	p := 16 - len(data)%16
	in := append([]byte{}, data...)
	for i := 0; i < p; i++ {
		in = append(in, byte(p))
	}
	out := make([]byte, len(in))
	blk, _ := aes.NewCipher(key)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(out, in)
	return append(append([]byte{}, iv...), out...)
}

// Hex writes b as a hexadecimal string.
func Hex(b []byte) string {
	const d = "0123456789ABCDEF"
	r := []byte{'<'}
	for _, c := range b {
		r = append(r, d[c>>4], d[c&15])
	}
	return string(append(r, '>'))
}

// Lit writes b as a literal string, with escapes (esc 0), octal escapes for everything that is not
// a letter (esc 1), or leaving balanced parentheses unescaped where that is possible (esc 2).
func Lit(b []byte, esc int) string {
	r := []byte{'('}
	for _, c := range b {
		letter := c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
		switch {
		case esc == 1 && !letter:
			r = append(r, '\\', '0'+c>>6, '0'+(c>>3)&7, '0'+c&7)
		case c == '(' || c == ')' || c == '\\':
			r = append(r, '\\', c)
		case c == '\r':
			r = append(r, '\\', 'r')
		case c == '\n' && esc == 2:
			r = append(r, '\\', 'n')
		default:
			r = append(r, c)
		}
	}
	return string(append(r, ')'))
}

// Calm restricts the bytes of stream data that depend on inputs (cipher text) to capital letters,
// none of which takes part in a keyword: searches for keywords stay concrete.
func Calm(b []byte) {
	in := false
	for i, c := range b {
		if sym.Symbolic(c) {
			if in {
				sym.Assume(sym.And(c >= 'A', c <= 'Z'))
			}
			continue
		}
		if c == 'm' && i >= 6 && i+1 < len(b) && !sym.Symbolic(b[i-6]) && !sym.Symbolic(b[i-1]) && !sym.Symbolic(b[i-2]) &&
			!sym.Symbolic(b[i-3]) && !sym.Symbolic(b[i-4]) && !sym.Symbolic(b[i-5]) && string(b[i-5:i]) == "strea" {
			in = b[i-6] != 'd'
		}
	}
}
