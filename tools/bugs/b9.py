exec(open('/verif/tools/bugs/common.py').read())
GUARD='''
// ends runs f, which must return.
func ends(t *testing.T, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatal(r)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no end")
	}
}
'''
BUGS=[
dict(id="C21-prev-loop", property="C21", edits=[(INC,"	for currentOffset > 0 && !visited[currentOffset] {\n		visited[currentOffset] = true\n","	for currentOffset > 0 && !visited[currentOffset] {\n		visited[startXRef] = true\n")],
 needs="a file with an earlier revision whose /Prev leads to itself", breaks="opening the file never ends",
 demo='package demo\n\nimport (\n\t"bytes"\n\t"fmt"\n\t"testing"\n\t"time"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n'+GUARD+r'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n")
	one := b.Len()
	b.WriteString("1 0 obj\n<< /Type /Catalog >>\nendobj\n")
	x1 := b.Len()
	fmt.Fprintf(&b, "xref\n0 2\n0000000000 65535 f \n%010d 00000 n \ntrailer\n<< /Size 2 /Root 1 0 R /Prev %d >>\nstartxref\n%d\n%%%%EOF\n", one, x1, x1)
	x2 := b.Len()
	fmt.Fprintf(&b, "xref\n1 1\n%010d 00000 n \ntrailer\n<< /Size 2 /Root 1 0 R /Prev %d >>\nstartxref\n%d\n%%%%EOF\n", one, x1, x2)
	ends(t, func() { parse.Open(b.Bytes()) })
	ends(t, func() { parse.OpenWithOptions(b.Bytes(), parse.ParseOptions{BytePerfect: true}) })
}
'''),
dict(id="C21-run-end", property="C21", edits=[(F,"			if i+count > len(data) {","			if i+length > len(data) {")],
 needs="run-length data cut off one byte before the end of a run", breaks="decoding panics",
 demo='package demo\n\nimport (\n\t"testing"\n\t"time"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n'+GUARD+r'''
func TestDemo(t *testing.T) {
	ends(t, func() { parse.DecodeFilter([]byte{3, 'a', 'b', 'c'}, "/RunLengthDecode") })
}
'''),
dict(id="C21-revision-end", property="C21", edits=[(INC,"	if revisionNum < 1 || revisionNum > len(boundaries) {","	if revisionNum < 0 || revisionNum > len(boundaries) {")],
 needs="a revision number of 0", breaks="asking for the revision panics",
 demo='package demo\n\nimport (\n\t"testing"\n\t"time"\n\n\t"github.com/benedoc-inc/pdfer/core/parse"\n)\n'+GUARD+r'''
func TestDemo(t *testing.T) {
	ends(t, func() { parse.ExtractRevision([]byte("%PDF-1.4\n1 0 obj\n<< >>\nendobj\n%%EOF\n"), 0) })
}
'''),
]
