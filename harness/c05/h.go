// Package c05: byte-perfect parsing and revision extraction.
package c05

import (
	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/lib"
	"verif/harness/sym"
)

func openBP(b []byte) *parse.PDF {
	var p *parse.PDF
	var err error
	sym.Assert(!lib.Try(func() { p, err = parse.OpenWithOptions(b, parse.ParseOptions{BytePerfect: true}) }), "panic")
	sym.Assert(err == nil, "valid file does not open in byte-perfect mode")
	return p
}

// HBytes: the bytes handed in come back, in both modes, whatever the contents.
func HBytes() {
	sym.Bound("1 to 3 revisions (table or xref stream), arbitrary 2-letter contents and 4 arbitrary stream bytes, 0..2 arbitrary bytes after the last %%EOF")
	f := lib.NewFile(sym.Choice("crlf", 2) == 1)
	kinds := sym.Choice("kinds", 4)
	f.Base(kinds&1 != 0)
	f.D.Stream(8, "", sym.Bytes("data", 4))
	f.Put(lib.XE{Num: 8, T: 1, F2: f.D.Off[8]})
	f.End(20 * (kinds & 1))
	if kinds&2 != 0 {
		f.Update(sym.Choice("op", 6), kinds&1 != 0, 0)
	}
	b := append(append([]byte{}, f.D.B...), sym.Bytes("tail", sym.Choice("tail", 3))...)
	src := append([]byte{}, b...)
	p := openBP(b)
	sym.Assert(sym.EqB(p.Bytes(), src), "byte-perfect reconstruction differs")
	sym.Assert(sym.EqB(p.Raw(), src), "raw bytes differ")
	q, err := parse.Open(b)
	sym.Assert(err == nil, "does not open")
	sym.Assert(sym.EqB(q.Bytes(), src), "bytes differ")
	sym.Assert(p.RevisionCount() == q.RevisionCount(), "the two modes count revisions differently")
	sym.Reach("bytes")
}

// HRevisions: every revision is found, bounded and reproduces its own state.
func HRevisions() {
	sym.Bound("2 or 3 revisions, tables and xref streams in every combination, LF or CR LF, 6 kinds of updates, arbitrary 2-letter contents")
	f := lib.NewFile(sym.Choice("crlf", 2) == 1)
	kinds := sym.Choice("kinds", 8)
	f.Base(kinds&1 != 0)
	f.Update(sym.Choice("op1", 8), kinds&2 != 0, 0)
	if sym.Choice("third", 2) == 1 {
		f.Update(sym.Choice("op2", 8), kinds&4 != 0, 1)
	} else if kinds&4 != 0 {
		return
	}
	n := len(f.Ends)
	src := append([]byte{}, f.D.B...)
	sym.Assert(parse.CountRevisions(f.D.B) == n, "wrong revision count")
	marks := parse.FindAllEOFMarkers(f.D.B)
	bounds := parse.GetRevisionBoundaries(f.D.B)
	sym.Assert(len(marks) == n && len(bounds) == n, "wrong number of boundaries")
	for i := 0; i < n; i++ {
		sym.Assert(marks[i] == f.Ends[i]-len(f.Eol)-5, "marker not at %%EOF")
		sym.Assert(bounds[i] == f.Ends[i]-len(f.Eol), "boundary not after %%EOF")
		r, err := parse.ExtractRevision(f.D.B, i+1)
		sym.Assert(err == nil, "revision not extracted")
		sym.Assert(sym.EqB(r, src[:f.Ends[i]]), "extracted revision is not the file's prefix")
		q, err := parse.Open(r)
		sym.Assert(err == nil, "extracted revision does not open")
		sym.Assert(q.RevisionCount() == i+1, "extracted revision counts wrong")
		sym.Assert(q.ObjectCount() == len(f.Past[i]), "extracted revision has other objects")
		for o := 1; o <= 5; o++ {
			c, ok := f.Past[i][o]
			sym.Assert(q.HasObject(o) == ok, "object presence differs in an extracted revision")
			if !ok {
				continue
			}
			got, err := q.GetObject(o)
			sym.Assert(err == nil, "object of an extracted revision not readable")
			sym.Assert(sym.EqB(lib.Body(o, got), c.Body), "object of an extracted revision differs")
		}
		bp := openBP(r)
		sym.Assert(bp.ObjectCount() == len(f.Past[i]), "byte-perfect mode has other objects")
		for o := 1; o <= 5; o++ {
			c, ok := f.Past[i][o]
			sym.Assert(bp.HasObject(o) == ok, "object presence differs in byte-perfect mode")
			if ok {
				got, err := bp.GetObject(o)
				sym.Assert(err == nil && sym.EqB(lib.Body(o, got), c.Body), "object differs in byte-perfect mode")
			}
		}
		sym.Assert(bp.Trailer() != nil && bp.Trailer().RootRef == q.Trailer().RootRef, "root differs in byte-perfect mode")
		sym.Reach("extracted")
	}
	_, err := parse.ExtractRevision(f.D.B, n+1)
	sym.Assert(err != nil, "revision beyond the last accepted")
	_, err = parse.ExtractRevision(f.D.B, 0)
	sym.Assert(err != nil, "revision 0 accepted")
	sym.Assert(sym.EqB(f.D.B, src), "input modified")
}

// HRaw: raw objects are exact slices of the file, in the revision that wrote them.
func HRaw() {
	sym.Bound("2 revisions (table or xref stream) with a direct object rewritten, a stream with 5 arbitrary bytes, odd spacing; raw slices compared with the source")
	f := lib.NewFile(sym.Choice("crlf", 2) == 1)
	s := sym.Choice("stream", 2)
	f.Direct(1, []byte("<< /Type /Catalog /S (a\\)endobj) >>"))
	f.Direct(2, lib.VDict("b2"))
	data := sym.Bytes("data", 5)
	f.D.Stream(3, "/K "+string(lib.Upper("k", 1)), data)
	f.Put(lib.XE{Num: 3, T: 1, F2: f.D.Off[3]})
	e3 := len(f.D.B)
	f.Direct(4, []byte("[ 1 (stream) 2 ]"))
	f.End(9 * s)
	o2, b2 := f.D.Off[2], f.Now[2].Body
	f.Direct(2, lib.VDict("u2"))
	f.End(10 * s)
	src := append([]byte{}, f.D.B...)
	p := openBP(f.D.B)
	doc := p.Document()
	sym.Assert(doc != nil && doc.RevisionCount() == 2, "revisions missing")
	// newest
	r, err := p.GetRawObject(2)
	sym.Assert(err == nil, "raw object missing")
	raw := []byte("2 0 obj" + f.Eol + string(f.Now[2].Body) + f.Eol + "endobj")
	sym.Assert(int(r.Offset) == f.D.Off[2], "wrong offset")
	sym.Assert(sym.EqB(r.Bytes(), raw), "raw bytes are not the source's")
	sym.Assert(sym.EqB(r.Content(), f.Now[2].Body), "content differs")
	sym.Assert(int(r.EndOffset) == f.D.Off[2]+len(raw), "wrong end")
	// older revision
	old := doc.GetObjectInRevision(2, 1)
	sym.Assert(old != nil, "older revision's object missing")
	sym.Assert(int(old.Offset) == o2, "older object at the wrong offset")
	sym.Assert(sym.EqB(old.Content(), b2), "older object differs")
	sym.Assert(doc.GetObjectInRevision(1, 2) == nil, "object attributed to a revision that did not write it")
	// stream
	st, err := p.GetRawObject(3)
	sym.Assert(err == nil, "stream object missing")
	sym.Assert(st.IsStream, "stream not recognised")
	sym.Assert(sym.EqB(st.StreamData(), data), "stream data differs")
	sym.Assert(sym.EqB(st.Bytes(), src[f.D.Off[3]:e3-len(f.Eol)]), "stream object bytes differ")
	c, err := p.GetRawObject(1)
	sym.Assert(err == nil, "catalog missing")
	sym.Assert(sym.EqB(c.Content(), f.Now[1].Body), "string containing endobj cut")
	a, err := p.GetRawObject(4)
	sym.Assert(err == nil, "array object missing")
	sym.Assert(!a.IsStream && sym.EqB(a.Content(), []byte("[ 1 (stream) 2 ]")), "array object differs")
	// revision slices
	sym.Assert(sym.EqB(doc.Revisions[1].RevisionBytes(doc), src[f.Ends[0]:]), "bytes of the last revision differ")
	sym.Assert(sym.EqB(doc.Revisions[0].RevisionBytes(doc), src[f.D.Off[1]:f.Ends[0]]), "bytes of the first revision differ")
	all := doc.AllObjects()
	sym.Assert(len(all) == 4+2*s && doc.ObjectCount() == len(all), "wrong object set")
	sym.Assert(int(all[2].Offset) == f.D.Off[2], "merged view is not the newest")
	sym.Assert(sym.EqB(f.D.B, src), "input modified")
	sym.Reach("raw")
}

// HHeader: version and header bytes.
func HHeader() {
	sym.Bound("%PDF-d.d with arbitrary digits, three line endings, with or without a binary comment of 4 arbitrary high bytes")
	maj, min := sym.Byte("maj"), sym.Byte("min")
	sym.Assume(sym.And(maj >= '0', maj <= '9', min >= '0', min <= '9'))
	eol := []string{"\n", "\r\n", "\r"}[sym.Choice("eol", 3)]
	b := append([]byte("%PDF-"), maj, '.', min)
	b = append(b, eol...)
	if sym.Choice("bin", 2) == 1 {
		m := sym.Bytes("m", 4)
		for _, c := range m {
			sym.Assume(c >= 128)
		}
		b = append(append(append(b, '%'), m...), eol...)
	}
	n := len(b)
	b = append(b, "1 0 obj\n<<>>\nendobj\n"...)
	h, err := parse.ParsePDFHeader(b)
	sym.Assert(err == nil, "header rejected")
	sym.Assert(sym.EqS(h.Version, string([]byte{maj, '.', min})), "wrong version")
	sym.Assert(h.MajorVersion == int(maj-'0') && h.MinorVersion == int(min-'0'), "wrong version numbers")
	sym.Assert(sym.EqB(h.RawBytes, b[:n]), "wrong header bytes")
	sym.Reach("header")
}
