// Package model holds the stand-ins the symbolic engine runs in place of library code that is
// written in assembly or is cryptographic or compression code. Concrete data goes through the real
// library (via the engine's primitives); symbolic data goes through the documented abstraction.
package model

import (
	"bytes"
	"crypto/cipher"
	"errors"
	"hash"
	"io"
	"strings"
)

type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// primitives implemented by the engine
func hashConc(kind string, data []byte) []byte
func aesEncrypt(key, block []byte) []byte
func aesDecrypt(key, block []byte) []byte
func rc4Stream(key []byte, n int) []byte
func deflate(data []byte, zlib bool) []byte
func inflate(data []byte, zlib bool) (out []byte, hdrErr, dataErr, unexpectedEOF bool)

// ---- errors made by fmt.Errorf
type errorString struct{ s string }

func (e *errorString) Error() string { return e.s }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

func NewErr(msg string) error                  { return &errorString{msg} }
func NewWrap(msg string, err error) error      { return &wrapError{msg, err} }
func NewWraps(msg string, errs []error) error  { return &wrapErrors{msg, errs} }

// ---- hashes
type digest struct {
	kind      string
	size, blk int
	buf       []byte
}

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Sum(b []byte) []byte         { return append(b, hashConc(d.kind, d.buf)...) }
func (d *digest) Reset()                      { d.buf = nil }
func (d *digest) Size() int                   { return d.size }
func (d *digest) BlockSize() int              { return d.blk }

func MD5New() hash.Hash    { return &digest{kind: "md5", size: 16, blk: 64} }
func SHA1New() hash.Hash   { return &digest{kind: "sha1", size: 20, blk: 64} }
func SHA256New() hash.Hash { return &digest{kind: "sha256", size: 32, blk: 64} }
func SHA384New() hash.Hash { return &digest{kind: "sha384", size: 48, blk: 128} }
func SHA512New() hash.Hash { return &digest{kind: "sha512", size: 64, blk: 128} }
func MD5Sum(b []byte) (r [16]byte) {
	copy(r[:], hashConc("md5", b))
	return
}
func SHA1Sum(b []byte) (r [20]byte) {
	copy(r[:], hashConc("sha1", b))
	return
}
func SHA256Sum256(b []byte) (r [32]byte) {
	copy(r[:], hashConc("sha256", b))
	return
}
func SHA512Sum384(b []byte) (r [48]byte) {
	copy(r[:], hashConc("sha384", b))
	return
}
func SHA512Sum512(b []byte) (r [64]byte) {
	copy(r[:], hashConc("sha512", b))
	return
}

// ---- AES
type aesBlock struct{ key []byte }

func (a *aesBlock) BlockSize() int { return 16 }
func (a *aesBlock) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst[:16], aesEncrypt(a.key, src[:16]))
}
func (a *aesBlock) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst[:16], aesDecrypt(a.key, src[:16]))
}

func AESNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &aesBlock{append([]byte(nil), key...)}, nil
	}
	return nil, errors.New("crypto/aes: invalid key size")
}

type cbcEnc struct {
	b  cipher.Block
	iv []byte
}
type cbcDec struct {
	b  cipher.Block
	iv []byte
}

func NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCEncrypter: IV length must equal block size")
	}
	return &cbcEnc{b, append([]byte(nil), iv...)}
}
func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBCDecrypter: IV length must equal block size")
	}
	return &cbcDec{b, append([]byte(nil), iv...)}
}
func (c *cbcEnc) BlockSize() int { return c.b.BlockSize() }
func (c *cbcDec) BlockSize() int { return c.b.BlockSize() }
func (c *cbcEnc) CryptBlocks(dst, src []byte) {
	n := c.b.BlockSize()
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := 0; i+n <= len(src); i += n {
		x := make([]byte, n)
		for j := 0; j < n; j++ {
			x[j] = src[i+j] ^ c.iv[j]
		}
		c.b.Encrypt(x, x)
		copy(dst[i:], x)
		c.iv = x
	}
}
func (c *cbcDec) CryptBlocks(dst, src []byte) {
	n := c.b.BlockSize()
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := 0; i+n <= len(src); i += n {
		in := append([]byte(nil), src[i:i+n]...)
		x := make([]byte, n)
		c.b.Decrypt(x, in)
		for j := 0; j < n; j++ {
			x[j] ^= c.iv[j]
		}
		copy(dst[i:], x)
		c.iv = in
	}
}

// ---- RC4
type rc4State struct {
	key []byte
	pos int
}

func RC4NewCipher(key []byte) (*rc4State, error) {
	if len(key) < 1 || len(key) > 256 {
		return nil, errors.New("crypto/rc4: invalid key size")
	}
	return &rc4State{key: append([]byte(nil), key...)}, nil
}
func RC4XORKeyStream(c *rc4State, dst, src []byte) {
	if len(src) == 0 {
		return
	}
	if len(dst) < len(src) {
		panic("crypto/rc4: output too small")
	}
	ks := rc4Stream(c.key, c.pos+len(src))
	for i := range src {
		dst[i] = src[i] ^ ks[c.pos+i]
	}
	c.pos += len(src)
}

// ---- deflate
type zreader struct {
	out []byte
	err error
	pos int
}

func (z *zreader) Read(p []byte) (int, error) {
	if z.pos >= len(z.out) {
		if z.err != nil {
			return 0, z.err
		}
		return 0, io.EOF
	}
	n := copy(p, z.out[z.pos:])
	z.pos += n
	return n, nil
}
func (z *zreader) Close() error { return nil }

var errHeader = errors.New("zlib: invalid header")
var errData = errors.New("flate: corrupt input")

func newInflater(r io.Reader, zl bool) (*zreader, error) {
	var out []byte
	var he, de, eof bool
	switch r.(type) {
	case *bytes.Reader, *bytes.Buffer, *strings.Reader:
		data, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		out, he, de, eof = inflate(data, zl)
	default: // read no more than the compressed data takes
		var data []byte
		buf := make([]byte, 1<<16)
		for {
			n, err := r.Read(buf)
			data = append(data, buf[:n]...)
			if n > 0 {
				out, he, de, eof = inflate(data, zl)
				if !eof {
					break
				}
			}
			if err == io.EOF {
				if n == 0 {
					out, he, de, eof = inflate(data, zl)
				}
				break
			}
			if err != nil {
				return nil, err
			}
		}
	}
	if he {
		if eof {
			return nil, io.ErrUnexpectedEOF
		}
		return nil, errHeader
	}
	z := &zreader{out: out}
	if de {
		if eof {
			z.err = io.ErrUnexpectedEOF
		} else {
			z.err = errData
		}
	}
	return z, nil
}

func ZlibNewReader(r io.Reader) (io.ReadCloser, error) {
	z, err := newInflater(r, true)
	if err != nil {
		return nil, err
	}
	return z, nil
}

func FlateNewReader(r io.Reader) io.ReadCloser {
	z, err := newInflater(r, false)
	if err != nil {
		return &zreader{err: err}
	}
	return z
}

type zwriter struct {
	w    io.Writer
	buf  []byte
	zl   bool
	done bool
}

func ZlibNewWriter(w io.Writer) *zwriter { return &zwriter{w: w, zl: true} }
func ZlibNewWriterLevel(w io.Writer, level int) (*zwriter, error) {
	return &zwriter{w: w, zl: true}, nil
}
func FlateNewWriter(w io.Writer, level int) (*zwriter, error) { return &zwriter{w: w}, nil }
func ZlibWriterWrite(z *zwriter, p []byte) (int, error) {
	z.buf = append(z.buf, p...)
	return len(p), nil
}
func ZlibWriterFlush(z *zwriter) error { return nil }
func ZlibWriterClose(z *zwriter) error {
	if z.done {
		return nil
	}
	z.done = true
	_, err := z.w.Write(deflate(z.buf, z.zl))
	return err
}
func FlateWriterWrite(z *zwriter, p []byte) (int, error) { return ZlibWriterWrite(z, p) }
func FlateWriterFlush(z *zwriter) error                  { return nil }
func FlateWriterClose(z *zwriter) error                  { return ZlibWriterClose(z) }
