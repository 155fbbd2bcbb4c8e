F='core/parse/filters.go'; INC='core/parse/incremental.go'; OS='core/parse/object_stream.go'; W='core/write/writer.go'
IMP='package demo\n\nimport (\n\t"bytes"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n'
IMPF='package demo\n\nimport (\n\t"bytes"\n\t"compress/zlib"\n\t"fmt"\n\t"strings"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n\nvar _ = strings.Repeat\n'+'''
func deflate(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// xrefFile builds a file whose cross-reference stream has the given rows.
func xrefFile(objs []string, dict string, rows func(off []int, self int) []byte) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.5\\n")
	off := []int{0}
	for i, o := range objs {
		off = append(off, b.Len())
		fmt.Fprintf(&b, "%s\\n%s\\nendobj\\n", strings.Replace("# G obj", "# G", fmt.Sprintf("%d 0", i+1), 1), o)
	}
	self := b.Len()
	data := deflate(rows(off, self))
	fmt.Fprintf(&b, "%d 0 obj\\n<< /Type /XRef /Size %d /Root 1 0 R /Filter /FlateDecode %s /Length %d >>\\nstream\\n", len(objs)+1, len(objs)+2, dict, len(data))
	b.Write(data)
	fmt.Fprintf(&b, "\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n", self)
	return b.Bytes()
}
'''
IMPI='package demo\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"strings"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n\nvar _ = strings.Contains\n'+'''
type file struct {
	bytes.Buffer
	off map[int]int
}

func (f *file) obj(n int, s string) {
	f.off[n] = f.Len()
	fmt.Fprintf(f, "%d 0 obj\\n%s\\nendobj\\n", n, s)
}

// table writes a section listing the given objects (0 for the free head).
func (f *file) table(trailer string, nums ...int) int {
	at := f.Len()
	fmt.Fprintf(f, "xref\\n")
	for _, n := range nums {
		if n == 0 {
			fmt.Fprintf(f, "0 1\\n0000000000 65535 f \\n")
		} else {
			fmt.Fprintf(f, "%d 1\\n%010d 00000 n \\n", n, f.off[n])
		}
	}
	fmt.Fprintf(f, "trailer\\n<< %s >>\\n", trailer)
	return at
}
func (f *file) end(at int) { fmt.Fprintf(f, "startxref\\n%d\\n%%%%EOF\\n", at) }
func start() *file {
	f := &file{off: map[int]int{}}
	f.WriteString("%PDF-1.4\\n")
	return f
}
'''
IMPW='package demo\n\nimport (\n\t"bytes"\n\t"strings"\n\t"testing"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n\t"github.com/benedoc-inc/pdfer/core/write"\n)\n\nvar _ = strings.Contains\nvar _ = bytes.Equal\n'
