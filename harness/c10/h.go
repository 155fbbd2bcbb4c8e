// Package c10: files protected by the standard security handler, revisions 2 to 4.
package c10

import (
	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/types"
	"verif/harness/lib"
	"verif/harness/sym"
)

// config is one V/R/length/crypt filter combination.
func config(i int) *lib.Std {
	s := &lib.Std{Meta: true}
	switch i {
	case 0:
		s.V, s.R, s.Len = 1, 2, 5
	case 1:
		s.V, s.R, s.Len = 2, 3, 5
	case 2:
		s.V, s.R, s.Len = 2, 3, 16
	case 3:
		s.V, s.R, s.Len = 4, 4, 16
	case 4:
		s.V, s.R, s.Len, s.RC4 = 4, 4, 16, true
	case 5:
		s.V, s.R, s.Len, s.Meta = 4, 4, 16, false
	case 6:
		s.V, s.R, s.Len = 2, 3, 10
	}
	return s
}

const configs = 7

func enc(s *lib.Std) *types.PDFEncryption {
	e := &types.PDFEncryption{V: s.V, R: s.R, KeyLength: s.Len, Filter: "Standard", O: s.O, U: s.U, P: int32(s.P), EncryptMetadata: s.Meta}
	if s.RC4 {
		e.StreamMethod, e.StringMethod = "V2", "V2"
	}
	return e
}

// HKeys: key and U derivation for every password, O, P and ID.
func HKeys() {
	s := config(sym.Choice("config", configs))
	lens := []int{0, 1, 5, 31, 32, 33, 40}
	n := lens[sym.Choice("len", len(lens))]
	sym.Bound("passwords of 0, 1, 5, 31, 32, 33 and 40 arbitrary bytes; arbitrary O, P and 16- or 0-byte ID")
	pw := sym.Bytes("pw", n)
	s.P = sym.Uint32("p")
	if sym.Choice("id", 2) == 0 {
		s.ID = sym.Bytes("id", 16)
	}
	s.O = sym.Bytes("o", 32)
	e := enc(s)
	key, err := encrypt.DeriveEncryptionKey(pw, e, s.ID, false)
	want := s.FileKey(pw)
	sym.Assert(err == nil && sym.EqB(key, want), "file key differs from algorithm 2")
	u, err := encrypt.ComputeUValue(key, e, s.ID, false)
	sym.Assert(err == nil && len(u) == 32, "no U value")
	cmp := 16
	if s.R == 2 {
		cmp = 32
	}
	sym.Assert(sym.EqB(u[:cmp], s.UOf(want)[:cmp]), "U value differs from algorithm 4/5")
	sym.Reach("key")
}

// HOwner: the owner password leads to the user's key.
func HOwner() {
	sym.Bound("7 configurations of V, R, key length and method; user passwords of 1 and 32, owner passwords of 1, 32 and 34 arbitrary bytes; arbitrary P and ID")
	s := config(sym.Choice("config", configs))
	lens := []int{1, 32, 34}
	user := sym.Bytes("user", lens[sym.Choice("userlen", 2)])
	owner := sym.Bytes("owner", lens[sym.Choice("ownerlen", 3)])
	s.P = sym.Uint32("p")
	s.ID = sym.Bytes("id", 16)
	s.Setup(user, owner)
	key, err := encrypt.DeriveOwnerKey(owner, enc(s), s.ID, false)
	sym.Assert(err == nil && sym.EqB(key, s.Key), "owner password does not lead to the file key")
	sym.Reach("owner")
}

// HData: decryption inverts encryption for every key, object number, generation and content.
func HData() {
	sym.Bound("7 configurations; arbitrary key, IV, object number below 2^23, generation; data of 1, 15, 16, 17, 33 arbitrary bytes")
	s := config(sym.Choice("config", configs))
	s.Key = sym.Bytes("key", s.Len)
	sizes := []int{1, 15, 16, 17, 33}
	n := sizes[sym.Choice("size", len(sizes))]
	data := sym.Bytes("data", n)
	num := int(sym.Uint32("num") & 0x7fffff)
	gen := int(sym.Uint16("gen"))
	iv := sym.Bytes("iv", 16)
	e := enc(s)
	e.EncryptKey = s.Key
	out, err := encrypt.DecryptObject(s.Encrypt(num, gen, iv, data), num, gen, e)
	sym.Assert(err == nil && sym.EqB(out, data), "decryption does not give the plaintext")
	sym.Reach("data")
}

// HMalformed: ciphertext of any length and keys of any length give an error or data, never a panic.
func HMalformed() {
	sym.Bound("7 configurations; keys of 0 to 17 and data of 0 to 34 arbitrary bytes")
	s := config(sym.Choice("config", configs))
	s.Key = sym.Bytes("key", sym.Choice("keylen", 18))
	n := sym.Choice("size", 35)
	data := sym.Bytes("data", n)
	e := enc(s)
	e.EncryptKey = s.Key
	var out []byte
	var err error
	sym.Assert(!lib.Try(func() { out, err = encrypt.DecryptObject(data, 5, 0, e) }), "panic on malformed ciphertext")
	if err == nil && len(s.Key) >= s.Len && s.V == 4 && !s.RC4 {
		sym.Assert(n%16 == 0 && (len(out) < n-16 && len(out) >= n-32 || n == 16 && len(out) == 0), "malformed AES data accepted")
		sym.Reach("aes")
	}
	sym.Reach("malformed")
}

func file(s *lib.Std, form int, iv, strData, stmData []byte, nums [4]int, xref int) []byte {
	str := func(b []byte) string {
		if form == 0 {
			return lib.Hex(b)
		}
		return lib.Lit(b, form)
	}
	d := lib.NewDoc("1.6")
	objs := []int{nums[0], nums[1], nums[2], nums[3]}
	p := lib.Itoa(int(s.P))
	if form != 1 {
		p = lib.Itoa(int(int32(s.P)))
	}
	dict := "<< /Filter /Standard /CF << /StdCF << /CFM /" + map[bool]string{true: "V2", false: "AESV2"}[s.RC4] +
		" /Length 16 /V 9 /R 8 >> >> /StmF /StdCF /StrF /StdCF /V " + lib.Itoa(s.V) + " /R " + lib.Itoa(s.R)
	if s.V < 4 {
		dict = "<< /Filter /Standard /V " + lib.Itoa(s.V) + " /R " + lib.Itoa(s.R)
	}
	if s.Len != 5 {
		dict += " /Length " + lib.Itoa(s.Len*8)
	}
	if !s.Meta {
		dict += " /EncryptMetadata false"
	}
	dict += " /O " + str(s.O) + " /U " + str(s.U) + " /P " + p + " >>"

	d.Obj(nums[0], "<< /Type /Catalog >>")
	gen := form * 127 // generation of the string's object
	c := s.Encrypt(nums[1], gen, iv, strData)
	d.ObjG(nums[1], gen, []byte("<< /T "+lib.Hex(c)+" /A [ /N "+lib.Lit(s.Encrypt(nums[1], gen, iv, []byte("fixed")), 1)+" 7 ] >>"))
	c = s.Encrypt(nums[2], 0, iv, stmData)
	d.Stream(nums[2], "/X "+lib.Hex(s.Encrypt(nums[2], 0, iv, strData))+" /D << /Length 3 >>", c)
	d.Obj(nums[3], dict)
	trailer := "/Root " + lib.Itoa(nums[0]) + " 0 R /Encrypt " + lib.Itoa(nums[3]) + " 0 R /ID [ " + str(s.ID) + " " + str(s.ID) + " ]"
	var es []lib.XE
	size := 0
	for _, n := range objs {
		x := lib.XE{Num: n, T: 1, F2: d.Off[n]}
		if n == nums[1] {
			x.F3 = gen
		}
		es = append(es, x)
		for i := len(es) - 1; i > 0 && es[i].Num < es[i-1].Num; i-- {
			es[i], es[i-1] = es[i-1], es[i]
		}
		if n+1 > size {
			size = n + 1
		}
	}
	trailer += " /Size " + lib.Itoa(size+1)
	d.Entries(append([]lib.XE{{Num: 0, F3: 65535}}, es...), xref*size, trailer)
	return d.B
}

func check(b []byte, pw []byte, nums [4]int, strData, stmData []byte, bp bool) {
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw, BytePerfect: bp})
	sym.Assert(err == nil && p.IsEncrypted(), "file does not open with the right password")
	o, err := p.GetObject(nums[1])
	sym.Assert(err == nil, "object not readable")
	v := lib.ParseAll(lib.Body(nums[1], o))
	t := v.Get("T")
	sym.Assert(t != nil && t.Kind == 's' && sym.EqB(t.S, strData), "string is not the plaintext")
	a := v.Get("A")
	sym.Assert(a != nil && len(a.Vals) == 3 && a.Vals[0].Is("N") && string(a.Vals[1].S) == "fixed", "array not intact")
	o, err = p.GetObject(nums[2])
	sym.Assert(err == nil, "stream not readable")
	sd, data, ok := lib.Stream(lib.Body(nums[2], o))
	sym.Assert(ok && sym.EqB(data, stmData), "stream is not the plaintext")
	sym.Assert(sd.Get("X") != nil && sym.EqB(sd.Get("X").S, strData), "string in stream dictionary is not the plaintext")
	sym.Assert(sd.Get("D").Get("Length").Int() == 3, "nested entry changed")
	o, err = p.GetObject(nums[0])
	sym.Assert(err == nil && lib.ParseAll(lib.Body(nums[0], o)).Get("Type").Is("Catalog"), "catalog not readable")
	o, err = p.GetObject(nums[3])
	sym.Assert(err == nil && lib.ParseAll(lib.Body(nums[3], o)).Get("Filter").Is("Standard"), "encryption dictionary not readable")
}

var layouts = [][4]int{{1, 2, 3, 4}, {24, 14, 3, 4}, {1, 4, 40, 12}, {7, 300, 65537, 2}}

// HOpen: files with concrete passwords; contents symbolic.
func HOpen() {
	sym.Bound("7 configurations; 8 spellings and numberings of the file; a string of 3 and (RC4) a stream of 2 arbitrary bytes; 5 user passwords and the owner's; both opening modes")
	s := config(sym.Choice("config", configs))
	users := []string{"", "user", "pass(wo)rd\\", "exactly 32 bytes of password....", "more than thirty-two bytes of password"}
	ids := []string{"0123456789abcdef", "a)b(c\\d\re\nf\x00\xff%>012"}
	cs := [][4]int{{0, 1, 0, 0}, {1, 0, 1, 0}, {2, 2, 2, 0}, {0, 3, 3, 0}, {1, 4, 0, 1}, {2, 1, 1, 1}, {0, 2, 2, 1}, {2, 0, 3, 0}}
	c := cs[sym.Choice("case", len(cs))]
	form, user, nums := c[0], users[c[1]], layouts[c[2]]
	s.ID = []byte(ids[c[3]])
	s.P = 0xfffff0c4
	s.Setup([]byte(user), []byte("owner"))
	iv := []byte("ABCDEFGHIJKLMNOP")
	str := sym.Bytes("str", 3)
	stm := []byte("stream data that is longer than one block")
	if s.V < 4 || s.RC4 {
		stm = append(sym.Bytes("stm", 2), " and more"...)
	}
	b := file(s, form, iv, str, stm, nums, c[1]&1)
	pw := user
	if sym.Choice("as", 2) == 1 {
		pw = "owner"
		sym.Reach("owner")
	}
	check(b, []byte(pw), nums, str, stm, sym.Choice("bp", 2) == 1)
	sym.Reach("open")
}

// HWrong: a password is accepted exactly if algorithm 6 or 7 accepts it.
func HWrong() {
	sym.Bound("7 configurations; passwords of 0 to 40 (thorough 63) arbitrary bytes")
	s := config(sym.Choice("config", configs))
	s.ID = []byte("0123456789abcdef")
	s.P = 0xfffff0c4
	s.Setup([]byte("user"), []byte("owner"))
	iv := []byte("ABCDEFGHIJKLMNOP")
	b := file(s, 0, iv, []byte("abc"), []byte("data"), layouts[0], 0)
	n := sym.Choice("n", sym.Concrete(lib.Max(41, 64)))
	pw := sym.Bytes("pw", n)
	_, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: pw})
	sym.Assert((err == nil) == s.Accepts(pw), "a password is accepted though it is wrong, or refused though it is right")
	if err != nil {
		sym.Reach("refused")
	} else {
		sym.Reach("accepted")
	}
}

// HObjStm: strings in object streams are encrypted with their stream only; xref streams are not.
func HObjStm() {
	sym.Bound("7 configurations; an object stream with a string of 3 arbitrary letters (RC4), cross-reference stream")
	s := config(sym.Choice("config", configs))
	s.ID = []byte("0123456789abcdef")
	s.P = 0xfffff0c4
	s.Setup([]byte("user"), []byte("owner"))
	iv := []byte("ABCDEFGHIJKLMNOP")
	d := lib.NewDoc("1.5")
	d.Obj(1, "<< /Type /Catalog >>")
	val := []byte("abc")
	if s.V < 4 || s.RC4 {
		val = lib.Upper("str", 3)
	}
	body := "<< /T (" + string(val) + ") /H <" + "616263> >>"
	head := "2 0 3 " + lib.Itoa(len(body)+1) + " "
	data := []byte(head + body + " [ (x) ] ")
	d.Stream(5, "/Type /ObjStm /N 2 /First "+lib.Itoa(len(head)), s.Encrypt(5, 0, iv, data))
	d.Obj(4, "<< /Filter /Standard /CF << /StdCF << /CFM /"+map[bool]string{true: "V2", false: "AESV2"}[s.RC4]+
		" >> >> /StmF /StdCF /StrF /StdCF /V "+lib.Itoa(s.V)+" /R "+lib.Itoa(s.R)+" /Length "+lib.Itoa(s.Len*8)+" /EncryptMetadata "+map[bool]string{true: "true", false: "false"}[s.Meta]+
		" /O "+lib.Hex(s.O)+" /U "+lib.Hex(s.U)+" /P -3900 >>")
	es := []lib.XE{{Num: 0, F3: 255}, {Num: 1, T: 1, F2: d.Off[1]}, {Num: 2, T: 2, F2: 5, F3: 0}, {Num: 3, T: 2, F2: 5, F3: 1}, {Num: 4, T: 1, F2: d.Off[4]}, {Num: 5, T: 1, F2: d.Off[5]}}
	d.Entries(es, 6, "/Size 7 /Root 1 0 R /Encrypt 4 0 R /ID [ "+lib.Hex(s.ID)+" "+lib.Hex(s.ID)+" ]")
	p, err := parse.OpenWithOptions(d.B, parse.ParseOptions{Password: []byte("user")})
	sym.Assert(err == nil, "file does not open")
	o, err := p.GetObject(2)
	sym.Assert(err == nil, "object in encrypted object stream not readable")
	v := lib.ParseAll(lib.Body(2, o))
	sym.Assert(v.Get("T") != nil && sym.EqB(v.Get("T").S, val) && string(v.Get("H").S) == "abc", "string in object stream is not the plaintext")
	o, err = p.GetObject(6)
	sym.Assert(err == nil, "xref stream object not readable")
	_, x, ok := lib.Stream(lib.Body(6, o))
	sym.Assert(ok && len(x) > 2 && x[0] == 0x78, "xref stream damaged")
	sym.Reach("objstm")
}
