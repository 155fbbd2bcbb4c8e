// Package lib builds PDF files for the harnesses, independently of the code under test.
package lib

import (
	"strconv"

	"verif/harness/sym"
)

func Max(q, t int) int {
	if sym.Thorough() {
		return t
	}
	return q
}

func Itoa(n int) string { return strconv.Itoa(n) }

// Pad10 writes an xref offset.
func Pad10(n int) string {
	s := strconv.Itoa(n)
	for len(s) < 10 {
		s = "0" + s
	}
	return s
}

// Zlib wraps the parts as one zlib stream of stored blocks, one block per part.
func Zlib(parts ...[]byte) []byte {
	z := []byte{0x78, 0x9c}
	s1, s2 := uint32(1), uint32(0)
	for _, p := range parts {
		z = append(z, 0, byte(len(p)), byte(len(p)>>8), ^byte(len(p)), ^byte(len(p)>>8))
		z = append(z, p...)
		for _, b := range p {
			s1 += uint32(b)
			s2 += s1
		}
	}
	s1 %= 65521
	s2 %= 65521
	z = append(z, 1, 0, 0, 255, 255)
	return append(z, byte(s2>>8), byte(s2), byte(s1>>8), byte(s1))
}

// Doc assembles a file object by object and remembers the offsets.
type Doc struct {
	B   []byte
	Off map[int]int
	Gen map[int]int
	nl  string
}

func NewDoc(version string) *Doc {
	return &Doc{B: []byte("%PDF-" + version + "\n%\xe2\xe3\xcf\xd3\n"), Off: map[int]int{}, Gen: map[int]int{}, nl: "\n"}
}

func (d *Doc) Add(s string) { d.B = append(d.B, s...) }

// Obj appends object n generation g with the given body.
func (d *Doc) ObjG(n, g int, body []byte) {
	d.Off[n], d.Gen[n] = len(d.B), g
	d.Add(Itoa(n) + " " + Itoa(g) + " obj" + d.nl)
	d.B = append(d.B, body...)
	d.Add(d.nl + "endobj" + d.nl)
}

func (d *Doc) Obj(n int, body string) { d.ObjG(n, 0, []byte(body)) }

// Stream appends a stream object; dict is the text inside << >> without /Length.
func (d *Doc) Stream(n int, dict string, data []byte) {
	d.Off[n] = len(d.B)
	d.Add(Itoa(n) + " 0 obj" + d.nl + "<< " + dict + " /Length " + Itoa(len(data)) + " >>" + d.nl + "stream" + d.nl)
	d.B = append(d.B, data...)
	d.Add(d.nl + "endstream" + d.nl + "endobj" + d.nl)
}

// Table appends an xref table with one subsection per run of consecutive numbers out of nums
// (0 is the free head; a number without offset is written as free), a trailer and startxref; it
// returns the offset of the table.
func (d *Doc) Table(nums []int, trailer string) int {
	at := len(d.B)
	d.Add("xref" + d.nl)
	for i := 0; i < len(nums); {
		j := i
		for j+1 < len(nums) && nums[j+1] == nums[j]+1 {
			j++
		}
		d.Add(Itoa(nums[i]) + " " + Itoa(j-i+1) + d.nl)
		for k := i; k <= j; k++ {
			off, ok := d.Off[nums[k]]
			switch {
			case nums[k] == 0:
				d.Add("0000000000 65535 f" + d.eol2())
			case !ok || off < 0:
				d.Add("0000000000 00001 f" + d.eol2())
			default:
				d.Add(Pad10(off) + " " + Pad10(d.Gen[nums[k]])[5:] + " n" + d.eol2())
			}
		}
		i = j + 1
	}
	d.Add("trailer" + d.nl + "<< " + trailer + " >>" + d.nl + "startxref" + d.nl + Itoa(at) + d.nl + "%%EOF" + d.nl)
	return at
}

func (d *Doc) eol2() string {
	if d.nl == "\r\n" {
		return "\r\n"
	}
	return " \n"
}

// XrefStream appends an xref stream object n holding rows, and startxref.
func (d *Doc) XrefStream(n int, dict string, data []byte) int {
	at := len(d.B)
	d.Stream(n, "/Type /XRef /Filter /FlateDecode "+dict, data)
	d.Add("startxref" + d.nl + Itoa(at) + d.nl + "%%EOF" + d.nl)
	return at
}

// Try runs f and reports whether it panicked. Verdicts of the harness itself pass through.
func Try(f func()) (panicked bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case sym.Failure, sym.AssumeFailed:
			panic(x)
		default:
			panicked = true
		}
	}()
	f()
	return
}

// Contains reports whether s contains sub.
func Index(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// BE reads a big-endian number.
func BE(b []byte) int64 {
	var v int64
	for _, x := range b {
		v = v<<8 | int64(x)
	}
	return v
}

// XE is one cross-reference entry: type, field 2 and field 3 as in an xref stream.
type XE struct{ Num, T, F2, F3 int }

// Entries appends a cross-reference section holding es (ascending numbers) and startxref; with
// stream != 0 it is an xref stream of that object number (listing itself), otherwise a table.
func (d *Doc) Entries(es []XE, stream int, trailer string) int {
	at := len(d.B)
	if stream == 0 {
		d.Add("xref" + d.nl)
		for i := 0; i < len(es); {
			j := i
			for j+1 < len(es) && es[j+1].Num == es[j].Num+1 {
				j++
			}
			d.Add(Itoa(es[i].Num) + " " + Itoa(j-i+1) + d.nl)
			for ; i <= j; i++ {
				g := Itoa(es[i].F3)
				for len(g) < 5 {
					g = "0" + g
				}
				k := " n"
				if es[i].T == 0 {
					k = " f"
				}
				d.Add(Pad10(es[i].F2) + " " + g + k + d.eol2())
			}
		}
		d.Add("trailer" + d.nl + "<< " + trailer + " >>" + d.nl + "startxref" + d.nl + Itoa(at) + d.nl + "%%EOF" + d.nl)
		return at
	}
	es = append(append([]XE{}, es...), XE{stream, 1, at, 0})
	for i := len(es) - 1; i > 0 && es[i].Num < es[i-1].Num; i-- {
		es[i], es[i-1] = es[i-1], es[i]
	}
	idx := ""
	var data []byte
	for i := 0; i < len(es); {
		j := i
		for j+1 < len(es) && es[j+1].Num == es[j].Num+1 {
			j++
		}
		idx += Itoa(es[i].Num) + " " + Itoa(j-i+1) + " "
		for ; i <= j; i++ {
			e := es[i]
			data = append(data, byte(e.T), byte(e.F2>>16), byte(e.F2>>8), byte(e.F2), byte(e.F3))
		}
	}
	d.XrefStream(stream, "/W [1 3 1] /Index ["+idx+"] "+trailer, Zlib(data))
	return at
}

// ObjStm appends an object stream n holding the given objects.
func (d *Doc) ObjStm(n int, nums []int, bodies [][]byte) {
	head := ""
	off := 0
	for i, b := range bodies {
		head += Itoa(nums[i]) + " " + Itoa(off) + " "
		off += len(b) + 1
	}
	parts := [][]byte{[]byte(head)}
	for _, b := range bodies {
		parts = append(parts, b, []byte(" "))
	}
	d.Stream(n, "/Type /ObjStm /N "+Itoa(len(nums))+" /First "+Itoa(len(head))+" /Filter /FlateDecode", Zlib(parts...))
}

// CRLF makes the document use CR LF line ends from now on.
func (d *Doc) CRLF() { d.nl = "\r\n" }

// Upper is a string of n symbolic capital letters: they take part in no keyword of the syntax, so
// text searches stay concrete while contents remain arbitrary.
func Upper(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(sym.And(c >= 'A', c <= 'Z'))
	}
	return b
}

func ws(c byte) bool { return c == ' ' || c == '\n' || c == '\r' || c == '\t' }

// Body returns the value inside a returned object: the text between "N G obj" and "endobj" when
// the wrapper is there, without surrounding white space.
func Body(n int, o []byte) []byte {
	h := Itoa(n) + " "
	if len(o) >= len(h)+6 && string(o[:len(h)]) == h && string(o[len(o)-6:]) == "endobj" {
		i := len(h)
		for o[i] >= '0' && o[i] <= '9' {
			i++
		}
		if i > len(h) && string(o[i:i+4]) == " obj" {
			o = o[i+4 : len(o)-6]
		}
	}
	for len(o) > 0 && ws(o[0]) {
		o = o[1:]
	}
	for len(o) > 0 && ws(o[len(o)-1]) {
		o = o[:len(o)-1]
	}
	return o
}

// MinI is the smaller number.
func MinI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
