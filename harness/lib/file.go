package lib

// Content is what an object holds and whether it is stored outside an object stream.
type Content struct {
	Body   []byte
	Direct bool
}

// File is a document under construction together with the state its newest revision defines.
type File struct {
	D    *Doc
	Now  map[int]Content
	Prev int
	Size int
	Root string
	Eol  string
	Cur  []XE
	Past []map[int]Content // state after every revision
	Ends []int             // end of every revision
}

func NewFile(crlf bool) *File {
	f := &File{D: NewDoc("1.5"), Now: map[int]Content{}, Size: 1, Root: "1 0 R", Eol: "\n"}
	if crlf {
		f.D.CRLF()
		f.Eol = "\r\n"
	}
	return f
}

func (f *File) Put(x XE) {
	f.Cur = append(f.Cur, x)
	for i := len(f.Cur) - 1; i > 0 && f.Cur[i].Num < f.Cur[i-1].Num; i-- {
		f.Cur[i], f.Cur[i-1] = f.Cur[i-1], f.Cur[i]
	}
	if x.Num >= f.Size {
		f.Size = x.Num + 1
	}
}

func (f *File) Direct(n int, body []byte) {
	f.D.ObjG(n, 0, body)
	f.Put(XE{Num: n, T: 1, F2: f.D.Off[n]})
	f.Now[n] = Content{body, true}
}

func (f *File) Compressed(stm int, nums []int, bodies [][]byte) {
	f.D.ObjStm(stm, nums, bodies)
	f.Put(XE{Num: stm, T: 1, F2: f.D.Off[stm]})
	f.Now[stm] = Content{nil, true}
	for i, n := range nums {
		f.Put(XE{Num: n, T: 2, F2: stm, F3: i})
		f.Now[n] = Content{bodies[i], false}
	}
}

func (f *File) Free(n int) {
	f.Put(XE{Num: n, T: 0, F2: 0, F3: 1})
	delete(f.Now, n)
}

// end closes the revision with a table (stream 0) or an xref stream.
func (f *File) End(stream int) {
	if f.Prev == 0 {
		f.Put(XE{Num: 0, T: 0, F2: 0, F3: 255})
	}
	if stream >= f.Size {
		f.Size = stream + 1
	}
	tr := "/Size " + Itoa(f.Size) + " /Root " + f.Root
	if f.Prev > 0 {
		tr += " /Prev " + Itoa(f.Prev)
	}
	f.Prev = f.D.Entries(f.Cur, stream, tr)
	f.Cur = nil
	if stream != 0 {
		f.Now[stream] = Content{nil, true}
	}
	now := map[int]Content{}
	for n, c := range f.Now {
		now[n] = c
	}
	f.Past = append(f.Past, now)
	f.Ends = append(f.Ends, len(f.D.B))
}

// VDict is a small dictionary with an arbitrary name of two capital letters.
func VDict(name string) []byte {
	return append(append([]byte("<< /V /"), Upper(name, 2)...), " >>"...)
}

// base writes revision 1: 1 catalog, 2 direct, 3 direct, 4 direct or compressed in 6.
func (f *File) Base(stream bool) {
	f.Direct(1, []byte("<< /Type /Catalog /A 1 >>"))
	f.Direct(2, VDict("b2"))
	f.Direct(3, VDict("b3"))
	if stream {
		f.Compressed(6, []int{4, 5}, [][]byte{VDict("b4"), VDict("b5")})
		f.End(7)
		return
	}
	f.Direct(4, VDict("b4"))
	f.Direct(5, VDict("b5"))
	f.End(0)
}

func (f *File) Update(op int, stream bool, k int) {
	s := 0
	if stream {
		s = 10 + k
	}
	switch op {
	case 0:
		f.Direct(2, VDict("u2"))
	case 1:
		f.Free(3)
	case 2:
		f.Direct(4, VDict("u4"))
	case 3:
		f.Free(4)
		f.Direct(8, VDict("u8"))
	case 4:
		f.Direct(3, VDict("u3"))
		f.Direct(5, VDict("u5"))
	case 5:
		f.Direct(9, []byte("<< /Type /Catalog /A 2 >>"))
		f.Root = "9 0 R"
	case 7: // number reused with the next generation
		b := VDict("g3")
		f.D.ObjG(3, 1, b)
		f.Put(XE{Num: 3, T: 1, F2: f.D.Off[3], F3: 1})
		f.Now[3] = Content{b, true}
	case 6: // compressed replacements exist in xref streams only
		if !stream {
			f.Direct(2, VDict("u2"))
			break
		}
		f.Compressed(14+k, []int{2, 4}, [][]byte{VDict("u2"), VDict("u4")})
	}
	f.End(s)
}
