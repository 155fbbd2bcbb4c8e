// Package c09: what the writer encrypts, the passwords open, and nobody else reads.
package c09

import (
	"crypto/aes"
	"crypto/md5"
	"crypto/sha256"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/lib"
	"verif/harness/sym"
)

// passKey, ecb and accepts restate the library's documented password check.
func passKey(pw, id []byte) []byte {
	in := append([]byte{}, pw...)
	for i := 0; i < 8; i++ {
		var c byte
		if i < len(id) {
			c = id[i]
		}
		in = append(in, c)
	}
	k := sha256.Sum256(in)
	for i := 0; i < 64; i++ {
		k = sha256.Sum256(k[:])
	}
	return k[:]
}

func ecb(key, b []byte) []byte {
	blk, _ := aes.NewCipher(key[:16])
	out := make([]byte, len(b))
	for i := 0; i+16 <= len(b); i += 16 {
		blk.Encrypt(out[i:], b[i:i+16])
	}
	return out
}

func sum(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func acceptsUser(pw, id, u []byte) bool {
	return string(ecb(passKey(pw, id), sum(pw, u[:8]))) == string(u[8:40])
}

func acceptsOwner(pw, id, o, u []byte) bool {
	return string(ecb(passKey(pw, id), sum(pw, o[:8], u[:48]))) == string(o[8:40])
}

// HSetup: both passwords give the content key back, for all passwords, IDs and random values.
func HSetup() {
	lens := []int{0, 1, 7, 40}
	ids := []int{16, 0, 3, 8}
	sym.Bound("user and owner passwords of 0, 1, 7 and 40 arbitrary bytes, IDs of 0, 3, 8 and 16 arbitrary bytes, all random bytes arbitrary")
	user := sym.Bytes("user", lens[sym.Choice("userlen", 4)])
	owner := sym.Bytes("owner", lens[sym.Choice("ownerlen", 4)])
	id := sym.Bytes("id", ids[sym.Choice("idlen", 4)])
	perm := int32(sym.Uint32("perm"))
	meta := sym.Choice("meta", 2) == 1
	e, err := write.SetupAES256Encryption(user, owner, id, perm, meta)
	sym.Assert(err == nil && len(e.EncryptKey) == 32 && len(e.U) == 48 && len(e.O) == 48, "setup fails")
	sym.Assert(e.P == perm && e.EncryptMetadata == meta && e.V == 5 && e.Filter == "Standard", "parameters differ")
	uk, err := encrypt.DeriveEncryptionKeyV5(user, e, id, false)
	sym.Assert(err == nil && sym.EqB(uk, passKey(user, id)), "user password key differs")
	ok, err := encrypt.VerifyUValueV5(user, uk, e, id, false)
	sym.Assert(err == nil && ok, "user password refused")
	k, err := encrypt.UnwrapUserKeyV5(uk, e, false)
	sym.Assert(err == nil && sym.EqB(k, e.EncryptKey), "user password does not lead to the content key")
	wk, err := encrypt.DeriveOwnerKeyV5(owner, e, id, false)
	sym.Assert(err == nil, "no owner password key")
	ok, err = encrypt.VerifyOValueV5(owner, wk, e)
	sym.Assert(err == nil && ok, "owner password refused")
	k, err = encrypt.UnwrapOwnerKeyV5(wk, e, false)
	sym.Assert(err == nil && sym.EqB(k, e.EncryptKey), "owner password does not lead to the content key")
	sym.Reach("setup")
}

// HVerify: a password is accepted exactly if its digest is the one stored.
func HVerify() {
	sym.Bound("passwords of 0, 1, 7 and 40 arbitrary bytes against the digests of a set-up and against arbitrary 48-byte U and O")
	n := []int{0, 1, 7, 40}[sym.Choice("len", 4)]
	pw := sym.Bytes("pw", n)
	id := []byte("0123456789abcdef")
	sym.RandConcrete()
	e, err := write.SetupAES256Encryption([]byte("user pw"), []byte("o"), id, -4, true)
	sym.Assert(err == nil, "setup fails")
	if sym.Choice("stored", 2) == 1 {
		e.U = sym.Bytes("u", 48)
		e.O = sym.Bytes("o", 48)
		sym.Reach("stored")
	}
	key, err := encrypt.DeriveEncryptionKeyV5(pw, e, id, false)
	sym.Assert(err == nil, "no key")
	ok, err := encrypt.VerifyUValueV5(pw, key, e, id, false)
	sym.Assert(err == nil && ok == acceptsUser(pw, id, e.U), "user password check differs")
	ok, err = encrypt.VerifyOValueV5(pw, key, e)
	sym.Assert(err == nil && ok == acceptsOwner(pw, id, e.O, e.U), "owner password check differs")
	sym.Reach("verify")
}

type doc struct {
	b                                 []byte
	root, plain, stream, meta, encNum int
	raw                               int
	str, stm, xmp                     []byte
}

func build(mode int, late, encMeta bool, user, owner, str, stm []byte, compress bool) *doc {
	d := &doc{str: str, stm: stm, xmp: []byte("<x:xmpmeta/>")}
	w := write.NewPDFWriter()
	if mode == 1 {
		w.UseXRefStream(true)
	}
	if mode == 2 {
		w.UseObjectStream(true)
	}
	setup := func() {
		n, err := w.SetupEncryptionWithPasswords(user, owner, -1340, encMeta)
		sym.Assert(err == nil, "setup fails")
		d.encNum = n
	}
	if !late {
		setup()
	}
	d.root = w.AddObject([]byte("<< /Type /Catalog >>"))
	w.SetRoot(d.root)
	d.plain = w.AddObject([]byte("<< /T " + lib.Hex(str) + " /A [ /N (fi\\(xed\\051\\)) <<>> 7 ] /E () /F (an endstream) >>"))
	d.stream = w.AddStreamObject(write.Dictionary{"X": "fixed"}, stm, compress)
	d.meta = w.AddStreamObject(write.Dictionary{"/Type": "/Metadata", "/Subtype": "/XML"}, d.xmp, false)
	d.raw = w.AddObject([]byte("<< /R " + lib.Itoa(d.root) + " 0 R /Length 3 /A << /Length 8 >> /T (raw) >>\nstream\nraw\nendstream"))
	if late {
		setup()
	}
	b, err := w.Bytes()
	sym.Assert(err == nil, "file is not written")
	d.b = b
	lib.Calm(b)
	return d
}

func (d *doc) open(pw []byte, compress bool) {
	p, err := parse.OpenWithOptions(d.b, parse.ParseOptions{Password: pw})
	sym.Assert(err == nil && p.IsEncrypted(), "file does not open with its password")
	o, err := p.GetObject(d.plain)
	sym.Assert(err == nil, "object not readable")
	v := lib.ParseAll(lib.Body(d.plain, o))
	sym.Assert(v.Get("T") != nil && v.Get("T").Kind == 's' && sym.EqB(v.Get("T").S, d.str), "string is not the plaintext")
	a := v.Get("A")
	sym.Assert(a != nil && len(a.Vals) == 4 && a.Vals[0].Is("N") && string(a.Vals[1].S) == "fi(xed))" && a.Vals[3].Int() == 7, "array not intact")
	sym.Assert(v.Get("E") != nil && len(v.Get("E").S) == 0 && string(v.Get("F").S) == "an endstream", "special strings not intact")
	o, err = p.GetObject(d.stream)
	sym.Assert(err == nil, "stream not readable")
	sd, data, ok := lib.Stream(lib.Body(d.stream, o))
	if ok && sd.Get("Filter") != nil {
		data, err = parse.DecodeFlateDecode(data)
		ok = compress && err == nil && sd.Get("Filter").Is("FlateDecode")
	}
	sym.Assert(ok && sym.EqB(data, d.stm), "stream is not the plaintext")
	sym.Assert(sd.Get("X") != nil && string(sd.Get("X").S) == "fixed", "string in stream dictionary is not the plaintext")
	o, err = p.GetObject(d.raw)
	sym.Assert(err == nil, "raw stream not readable")
	sd, data, ok = lib.Stream(lib.Body(d.raw, o))
	sym.Assert(ok && string(data) == "raw" && string(sd.Get("T").S) == "raw" && sd.Get("R").Ref() == d.root && sd.Get("A").Get("Length").Int() == 8, "raw stream is not the plaintext")
	o, err = p.GetObject(d.meta)
	sym.Assert(err == nil, "metadata not readable")
	_, data, ok = lib.Stream(lib.Body(d.meta, o))
	sym.Assert(ok && sym.EqB(data, d.xmp), "metadata is not the plaintext")
	o, err = p.GetObject(d.root)
	sym.Assert(err == nil && lib.ParseAll(lib.Body(d.root, o)).Get("Type").Is("Catalog"), "catalog not readable")
}

// objKey is the key of one object as the library derives it (ISO 32000-1, algorithm 1, with AES salt).
func objKey(key []byte, n int) []byte {
	h := md5.New()
	h.Write(key)
	h.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), 0, 0})
	h.Write([]byte("sAlT"))
	return h.Sum(nil)
}

// HFile: contents written come back with either password, in every output mode.
func HFile() {
	sym.Bound("3 output modes, encryption set up first or last, metadata encrypted or not, plain or compressed stream; strings of 0 to 2 and streams of 0, 1, 16, 31 bytes of which 2 arbitrary; 3 user passwords and the owner's")
	sym.RandConcrete()
	mode := sym.Choice("mode", 3)
	meta := sym.Choice("meta", 2) == 1
	late := sym.Choice("late", 2) == 1
	compress := sym.Choice("compress", 2) == 1
	users := []string{"", "user", "a user password of more than thirty-two bytes"}
	pw := users[sym.Choice("user", len(users))]
	owner := "owner"
	str := sym.Bytes("str", sym.Choice("strlen", 3))
	n := []int{0, 1, 16, 31}[sym.Choice("stmlen", 4)]
	stm := append(sym.Bytes("stm", lib.MinI(n, 2)), make([]byte, n-lib.MinI(n, 2))...)
	d := build(mode, late, meta, []byte(pw), []byte(owner), str, stm, compress)
	if sym.Choice("as", 2) == 1 {
		pw = owner
		sym.Reach("owner")
	}
	d.open([]byte(pw), compress)
	sym.Reach("file")
}

// HCipher: every string and stream of the file is the cipher text of the plain text, under the key of its object.
func HCipher() {
	sym.Bound("a string and a stream of 3 arbitrary bytes, strings in arrays, stream dictionaries, empty and with keywords, a raw stream object, metadata encrypted or not")
	sym.RandConcrete()
	meta := sym.Choice("meta", 2) == 1
	str := sym.Bytes("str", 3)
	stm := sym.Bytes("stm", 3)
	d := build(0, sym.Choice("late", 2) == 1, meta, []byte("user"), []byte("owner"), str, stm, false)
	p, err := parse.OpenWithOptions(d.b, parse.ParseOptions{Password: []byte("user")})
	sym.Assert(err == nil, "file does not open")
	e := p.Encryption()
	sym.Assert(e != nil && len(e.EncryptKey) == 32 && e.P == -1340 && e.EncryptMetadata == meta, "encryption parameters differ")
	s := lib.ReadTable(d.b)
	sym.Assert(s != nil && s.Trailer.Get("Encrypt").Ref() == d.encNum, "file structure is not conforming")
	isCipher := func(n int, c, plain []byte) bool {
		return len(c) >= 32 && sym.EqB(c, lib.AESCBC(objKey(e.EncryptKey, n), c[:16], plain))
	}
	v := s.Val(d.plain)
	sym.Assert(isCipher(d.plain, v.Get("T").S, str), "string is not encrypted")
	sym.Assert(isCipher(d.plain, v.Get("A").Vals[1].S, []byte("fi(xed))")), "string in array is not encrypted")
	sym.Assert(isCipher(d.plain, v.Get("E").S, nil), "empty string is not encrypted")
	sym.Assert(isCipher(d.plain, v.Get("F").S, []byte("an endstream")), "string with a keyword is not encrypted")
	sd, data, ok := s.StreamData(d.stream)
	sym.Assert(ok && isCipher(d.stream, data, stm), "stream is not encrypted")
	sym.Assert(isCipher(d.stream, sd.Get("X").S, []byte("fixed")), "string in stream dictionary is not encrypted")
	sd, data, ok = s.StreamData(d.raw)
	sym.Assert(ok && isCipher(d.raw, data, []byte("raw")) && isCipher(d.raw, sd.Get("T").S, []byte("raw")), "raw stream is not encrypted")
	_, data, ok = s.StreamData(d.meta)
	if meta {
		sym.Assert(ok && isCipher(d.meta, data, d.xmp), "metadata is not encrypted")
	} else {
		sym.Assert(ok && sym.EqB(data, d.xmp), "metadata is not plain")
		sym.Reach("plainmeta")
	}
	id := s.Trailer.Get("ID")
	sym.Assert(id != nil && len(id.Vals) == 2 && len(id.Vals[0].S) == 16, "no file ID")
	sym.Reach("cipher")
}

// HNumbers: large object numbers are part of the key on both sides.
func HNumbers() {
	sym.Bound("object number 300 (thorough 70000), a string of 2 arbitrary bytes")
	sym.RandConcrete()
	nums := []int{300, 70000}
	n := nums[sym.Choice("num", lib.Max(1, 2))]
	str := sym.Bytes("str", 2)
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	w.SetObject(n, []byte("<< /T "+lib.Hex(str)+" >>"))
	_, err := w.SetupEncryptionWithPasswords([]byte("user"), nil, 0, true)
	sym.Assert(err == nil, "setup fails")
	b, err := w.Bytes()
	sym.Assert(err == nil, "file is not written")
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: []byte("user")})
	sym.Assert(err == nil, "file does not open")
	o, err := p.GetObject(n)
	sym.Assert(err == nil, "object not readable")
	v := lib.ParseAll(lib.Body(n, o)).Get("T")
	sym.Assert(v != nil && sym.EqB(v.S, str), "string is not the plaintext")
	sym.Reach("numbers")
}

// HWrong: the file opens with exactly the passwords whose digests it stores.
func HWrong() {
	sym.Bound("3 output modes, passwords of 0 to 40 arbitrary bytes")
	sym.RandConcrete()
	d := build(sym.Choice("mode", 3), false, true, []byte("user"), []byte("owner"), []byte("abc"), []byte("data"), false)
	p, err := parse.OpenWithOptions(d.b, parse.ParseOptions{Password: []byte("user")})
	sym.Assert(err == nil, "file does not open")
	e := p.Encryption()
	s := lib.ReadID(d.b)
	pw := sym.Bytes("pw", sym.Choice("n", 41))
	_, err = parse.OpenWithOptions(d.b, parse.ParseOptions{Password: pw})
	sym.Assert((err == nil) == (acceptsUser(pw, s, e.U) || acceptsOwner(pw, s, e.O, e.U)), "a password is accepted though it is wrong, or refused though it is right")
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}
