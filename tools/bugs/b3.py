exec(open('/verif/tools/bugs/common.py').read())
DEC='core/encrypt/decrypt.go'; KD='core/encrypt/key_derivation.go'; EV='core/write/encryption_v5.go'
IMPE='package demo\n\nimport (\n\t"bytes"\n\t"crypto/md5"\n\t"crypto/rc4"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/encrypt"\n\t"github.com/benedoc-inc/pdfer/types"\n)\n'
BUGS=[
dict(id="C09-pad", property="C09", edits=[(W,"		padLen := 16 - (len(data) % 16)\n","		padLen := (16 - len(data)%16) % 16\n")],
 needs="an encrypted stream or string whose length is a multiple of 16", breaks="the content cannot be decrypted when the file is opened",
 demo=IMPW+r'''
func TestDemo(t *testing.T) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	n := w.AddStreamObject(write.Dictionary{"/K": "/V"}, []byte("sixteen bytes..!"), false)
	if _, err := w.SetupEncryptionWithPasswords([]byte("u"), []byte("o"), -4, true); err != nil {
		t.Fatal(err)
	}
	b, err := w.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: []byte("u")})
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetObject(n)
	if err != nil || !bytes.Contains(o, []byte("sixteen bytes..!\nendstream")) {
		t.Fatalf("%q %v", o, err)
	}
}
'''),
dict(id="C09-number", property="C09", edits=[(W,"byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}","0, byte((objNum >> 16) & 0xff)}")],
 needs="an encrypted file with an object number above 255", breaks="such objects are encrypted with a key nobody derives when reading",
 demo=IMPW+r'''
func TestDemo(t *testing.T) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	w.SetObject(1000, []byte("<< /T (plain text) >>"))
	if _, err := w.SetupEncryptionWithPasswords([]byte("u"), []byte("o"), -4, true); err != nil {
		t.Fatal(err)
	}
	b, err := w.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	p, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: []byte("u")})
	if err != nil {
		t.Fatal(err)
	}
	o, err := p.GetObject(1000)
	if err != nil || !bytes.Contains(o, []byte("706C61696E2074657874")) && !bytes.Contains(o, []byte("plain text")) {
		t.Fatalf("%q %v", o, err)
	}
}
'''),
dict(id="C09-owner-long", property="C09", edits=[(EV,"	ownerPasswordKey, err := deriveEncryptionKeyV5(ownerPassword, fileID8)\n","	if len(ownerPassword) > 32 {\n		ownerPassword = ownerPassword[:32]\n	}\n	ownerPasswordKey, err := deriveEncryptionKeyV5(ownerPassword, fileID8)\n")],
 needs="an owner password of more than 32 bytes", breaks="the file does not open with the owner password it was written with",
 demo=IMPW+r'''
func TestDemo(t *testing.T) {
	w := write.NewPDFWriter()
	w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
	owner := []byte("a rather long owner password, longer than others")
	if _, err := w.SetupEncryptionWithPasswords([]byte("u"), owner, -4, true); err != nil {
		t.Fatal(err)
	}
	b, err := w.Bytes()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := parse.OpenWithOptions(b, parse.ParseOptions{Password: owner}); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="C10-rc4key", property="C10", edits=[(DEC,"		rc4Key := rc4KeyHash[:min(n+5, 16)]\n","		rc4Key := rc4KeyHash[:min(max(n, 11)+5, 16)]\n")],
 needs="an RC4 document with a key shorter than 88 bits", breaks="objects decrypt to garbage",
 demo=IMPE+r'''
func TestDemo(t *testing.T) {
	key := []byte{1, 2, 3, 4, 5}
	h := md5.Sum(append(append([]byte{}, key...), 7, 0, 0, 0, 0))
	c, _ := rc4.NewCipher(h[:10])
	data := []byte("some text")
	enc := make([]byte, len(data))
	c.XORKeyStream(enc, data)
	got, err := encrypt.DecryptObject(enc, 7, 0, &types.PDFEncryption{V: 1, R: 2, KeyLength: 5, EncryptKey: key})
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%q %v", got, err)
	}
}
'''),
dict(id="C10-generation", property="C10", edits=[(DEC,"	pack2[1] = byte((genNum >> 8) & 0xff)\n","	pack2[1] = byte((genNum >> 16) & 0xff)\n")],
 needs="an encrypted object with a generation above 255", breaks="the object decrypts to garbage",
 demo=IMPE+r'''
func TestDemo(t *testing.T) {
	key := []byte{1, 2, 3, 4, 5}
	h := md5.Sum(append(append([]byte{}, key...), 7, 0, 0, 44, 1))
	c, _ := rc4.NewCipher(h[:10])
	data := []byte("some text")
	enc := make([]byte, len(data))
	c.XORKeyStream(enc, data)
	got, err := encrypt.DecryptObject(enc, 7, 300, &types.PDFEncryption{V: 1, R: 2, KeyLength: 5, EncryptKey: key})
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%q %v", got, err)
	}
}
'''),
]
