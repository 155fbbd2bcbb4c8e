package lib

import "verif/harness/sym"

// Val is a parsed PDF value: 'd' dictionary, 'a' array, 'n' name, 's' string, 'i' number (text in
// S), 'r' reference, 'k' keyword (true, false, null).
type Val struct {
	Kind byte
	S    []byte
	Keys []string
	Vals []*Val
	Num  int
}

// Get returns the value of a dictionary key, or nil.
func (v *Val) Get(key string) *Val {
	if v == nil || v.Kind != 'd' {
		return nil
	}
	for i, k := range v.Keys {
		if k == key {
			return v.Vals[i]
		}
	}
	return nil
}

// Count returns how often a key occurs in a dictionary.
func (v *Val) Count(key string) int {
	n := 0
	for _, k := range v.Keys {
		if k == key {
			n++
		}
	}
	return n
}

// Is reports whether v is the name or keyword s.
func (v *Val) Is(s string) bool {
	return v != nil && (v.Kind == 'n' || v.Kind == 'k') && string(v.S) == s
}

// Int returns a number or -1 << 40.
func (v *Val) Int() int {
	if v == nil || v.Kind != 'i' {
		return -1 << 40
	}
	n, neg := 0, false
	for i, c := range v.S {
		if i == 0 && c == '-' {
			neg = true
			continue
		}
		if c < '0' || c > '9' {
			return -1 << 40
		}
		n = n*10 + int(c-'0')
	}
	if neg {
		return -n
	}
	return n
}

// Ref returns the object number of a reference, or -1.
func (v *Val) Ref() int {
	if v == nil || v.Kind != 'r' {
		return -1
	}
	return v.Num
}

func delim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return ws(c) || c == 0 || c == '\f'
}

func skip(b []byte, i int) int {
	for i < len(b) {
		if ws(b[i]) || b[i] == 0 || b[i] == '\f' {
			i++
		} else if b[i] == '%' {
			for i < len(b) && b[i] != '\n' && b[i] != '\r' {
				i++
			}
		} else {
			break
		}
	}
	return i
}

func hexv(c byte) int {
	return sym.IteInt(sym.And(c >= '0', c <= '9'), int(c)-'0',
		sym.IteInt(sym.And(c >= 'a', c <= 'f'), int(c)-'a'+10,
			sym.IteInt(sym.And(c >= 'A', c <= 'F'), int(c)-'A'+10, -1)))
}

// ParseVal parses the value at position i and returns it with the position after it; nil on a
// syntax error.
func ParseVal(b []byte, i int) (*Val, int) {
	i = skip(b, i)
	if i >= len(b) {
		return nil, i
	}
	switch {
	case b[i] == '<' && i+1 < len(b) && b[i+1] == '<':
		i += 2
		v := &Val{Kind: 'd'}
		for {
			i = skip(b, i)
			if i+1 >= len(b) {
				return nil, i
			}
			if b[i] == '>' {
				if b[i+1] != '>' {
					return nil, i
				}
				return v, i + 2
			}
			if b[i] != '/' {
				return nil, i
			}
			k, j := ParseVal(b, i)
			x, j2 := ParseVal(b, j)
			if x == nil {
				return nil, j2
			}
			v.Keys = append(v.Keys, string(k.S))
			v.Vals = append(v.Vals, x)
			i = j2
		}
	case b[i] == '<':
		v := &Val{Kind: 's', S: []byte{}}
		i++
		half := -1
		for ; i < len(b) && b[i] != '>'; i++ {
			if ws(b[i]) {
				continue
			}
			h := hexv(b[i])
			if h < 0 {
				return nil, i
			}
			if half >= 0 {
				v.S = append(v.S, byte(half<<4|h))
				half = -1
			} else {
				half = h
			}
		}
		if i >= len(b) {
			return nil, i
		}
		if half >= 0 {
			v.S = append(v.S, byte(half<<4))
		}
		return v, i + 1
	case b[i] == '[':
		i++
		v := &Val{Kind: 'a'}
		for {
			i = skip(b, i)
			if i >= len(b) {
				return nil, i
			}
			if b[i] == ']' {
				return v, i + 1
			}
			x, j := ParseVal(b, i)
			if x == nil {
				return nil, j
			}
			v.Vals = append(v.Vals, x)
			i = j
		}
	case b[i] == '/':
		v := &Val{Kind: 'n', S: []byte{}}
		i++
		for i < len(b) && !delim(b[i]) {
			if b[i] == '#' && i+2 < len(b) && hexv(b[i+1]) >= 0 && hexv(b[i+2]) >= 0 {
				v.S = append(v.S, byte(hexv(b[i+1])<<4|hexv(b[i+2])))
				i += 3
				continue
			}
			v.S = append(v.S, b[i])
			i++
		}
		return v, i
	case b[i] == '(':
		return parseString(b, i)
	case b[i] == ')' || b[i] == '>' || b[i] == ']' || b[i] == '{' || b[i] == '}':
		return nil, i
	}
	j := i
	for j < len(b) && !delim(b[j]) {
		j++
	}
	v := &Val{Kind: 'k', S: b[i:j]}
	num := true
	for k, c := range v.S {
		if !(c >= '0' && c <= '9' || c == '.' || k == 0 && (c == '-' || c == '+')) {
			num = false
		}
	}
	if !num {
		return v, j
	}
	v.Kind = 'i'
	// N G R
	k := skip(b, j)
	g := k
	for k < len(b) && b[k] >= '0' && b[k] <= '9' {
		k++
	}
	if k > g {
		r := skip(b, k)
		if r > k && r < len(b) && b[r] == 'R' && (r+1 == len(b) || delim(b[r+1])) {
			return &Val{Kind: 'r', Num: v.Int()}, r + 1
		}
	}
	return v, j
}

func parseString(b []byte, i int) (*Val, int) {
	v := &Val{Kind: 's', S: []byte{}}
	depth := 0
	for ; i < len(b); i++ {
		c := b[i]
		switch {
		case c == '(':
			if depth > 0 {
				v.S = append(v.S, c)
			}
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				return v, i + 1
			}
			v.S = append(v.S, c)
		case c == '\\':
			i++
			if i >= len(b) {
				return nil, i
			}
			switch e := b[i]; {
			case e == 'n':
				v.S = append(v.S, '\n')
			case e == 'r':
				v.S = append(v.S, '\r')
			case e == 't':
				v.S = append(v.S, '\t')
			case e == 'b':
				v.S = append(v.S, '\b')
			case e == 'f':
				v.S = append(v.S, '\f')
			case e == '\n':
			case e == '\r':
				if i+1 < len(b) && b[i+1] == '\n' {
					i++
				}
			case e >= '0' && e <= '7':
				x := int(e - '0')
				for k := 0; k < 2 && i+1 < len(b) && b[i+1] >= '0' && b[i+1] <= '7'; k++ {
					i++
					x = x*8 + int(b[i]-'0')
				}
				v.S = append(v.S, byte(x))
			default:
				v.S = append(v.S, e)
			}
		case c == '\r': // an unescaped line end reads as LF
			if i+1 < len(b) && b[i+1] == '\n' {
				i++
			}
			v.S = append(v.S, '\n')
		default:
			v.S = append(v.S, c)
		}
	}
	return nil, i
}

// ParseAll parses exactly one value out of b.
func ParseAll(b []byte) *Val {
	v, i := ParseVal(b, 0)
	if v == nil || skip(b, i) != len(b) {
		return nil
	}
	return v
}

// Stream splits the body of a stream object (no "N G obj") into dictionary and data, trusting
// /Length; ok is false when the keywords are not where /Length puts them.
func Stream(body []byte) (dict *Val, data []byte, ok bool) {
	dict, i := ParseVal(body, 0)
	if dict == nil || dict.Kind != 'd' {
		return nil, nil, false
	}
	i = skip(body, i)
	if i+6 > len(body) || string(body[i:i+6]) != "stream" {
		return dict, nil, false
	}
	i += 6
	if i < len(body) && body[i] == '\r' {
		i++
	}
	if i >= len(body) || body[i] != '\n' {
		return dict, nil, false
	}
	i++
	n := dict.Get("Length").Int()
	if n < 0 || i+n > len(body) {
		return dict, nil, false
	}
	data = body[i : i+n]
	rest := body[i+n:]
	for len(rest) > 0 && ws(rest[0]) {
		rest = rest[1:]
	}
	return dict, data, len(rest) >= 9 && string(rest[:9]) == "endstream"
}

// Last returns the last position of sub in b, or -1.
func Last(b []byte, sub string) int {
	for i := len(b) - len(sub); i >= 0; i-- {
		if string(b[i:i+len(sub)]) == sub {
			return i
		}
	}
	return -1
}

// num reads a decimal number at i.
func num(b []byte, i int) (int, int) {
	n := 0
	for i < len(b) && b[i] >= '0' && b[i] <= '9' {
		n = n*10 + int(b[i]-'0')
		i++
	}
	return n, i
}

// File structure read strictly: offsets must be exact. Table files only.
type Strict struct {
	B       []byte
	At      map[int]int // object -> offset
	Trailer *Val
	Size    int
}

// ReadTable reads a file with one xref table; nil when anything deviates from the specification.
func ReadTable(b []byte) *Strict {
	e := Last(b, "%%EOF")
	s := Last(b, "startxref")
	if e < 0 || s < 0 || s > e {
		return nil
	}
	off, j := num(b, skip(b, s+9))
	if j == s+9 || off+4 > len(b) || string(b[off:off+4]) != "xref" {
		return nil
	}
	r := &Strict{B: b, At: map[int]int{}}
	i := skip(b, off+4)
	for i < len(b) && b[i] >= '0' && b[i] <= '9' {
		var first, n int
		first, i = num(b, i)
		n, i = num(b, skip(b, i))
		i = skip(b, i)
		for k := 0; k < n; k++ {
			if i+20 > len(b) || b[i+10] != ' ' || b[i+16] != ' ' || !ws(b[i+18]) || !ws(b[i+19]) {
				return nil
			}
			o, _ := num(b, i)
			switch b[i+17] {
			case 'n':
				h := Itoa(first+k) + " 0 obj"
				if o+len(h) > len(b) || string(b[o:o+len(h)]) != h {
					return nil
				}
				r.At[first+k] = o
			case 'f':
				if first+k == 0 && string(b[i:i+16]) != "0000000000 65535" {
					return nil
				}
			default:
				return nil
			}
			i += 20
		}
		if first+n > r.Size {
			r.Size = first + n
		}
	}
	if i+7 > len(b) || string(b[i:i+7]) != "trailer" {
		return nil
	}
	r.Trailer, _ = ParseVal(b, i+7)
	if r.Trailer == nil {
		return nil
	}
	return r
}

// Val parses object n as a value (the dictionary for streams).
func (s *Strict) Val(n int) *Val {
	o, ok := s.At[n]
	if !ok {
		return nil
	}
	v, _ := ParseVal(s.B, o+len(Itoa(n)+" 0 obj"))
	return v
}

// StreamData returns dictionary and data of stream object n.
func (s *Strict) StreamData(n int) (*Val, []byte, bool) {
	o, ok := s.At[n]
	if !ok {
		return nil, nil, false
	}
	return Stream(s.B[o+len(Itoa(n)+" 0 obj"):])
}

// ReadID returns the first element of the last /ID array of a file.
func ReadID(b []byte) []byte {
	at := Last(b, "/ID")
	if at < 0 {
		return nil
	}
	v, _ := ParseVal(b, at+3)
	if v == nil || len(v.Vals) == 0 {
		return nil
	}
	return v.Vals[0].S
}
