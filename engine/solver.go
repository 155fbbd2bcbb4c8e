package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	bin       string
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	ts        *Terms
	defd      map[int32]bool
	vard      map[int32]bool
	n         int
	Queries   int
	NSat      int
	NUnsat    int
	NUnk      int
	Time      time.Duration
	tmoMS     int
	BadModels int
}

func findZ3() string {
	if p := os.Getenv("SYMX_Z3"); p != "" {
		return p
	}
	for _, b := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3", "z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return ""
}

// secondZ3 is a solver of another version than the first.
func secondZ3() string {
	for _, b := range []string{"/usr/bin/z3", "z3"} {
		if p, err := exec.LookPath(b); err == nil && p != findZ3() {
			return p
		}
	}
	return ""
}

func NewSolver(ts *Terms, tmo int) *Solver {
	return &Solver{bin: findZ3(), ts: ts, tmoMS: tmo}
}

func (s *Solver) start() error {
	s.defd = map[int32]bool{}
	s.vard = map[int32]bool{}
	s.n = 0
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmoMS)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defd[t.id] {
		return
	}
	if t.op == OVar {
		if !s.vard[int32(t.c)] {
			s.vard[int32(t.c)] = true
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.c, t.sort())
		}
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.d} {
		if x != nil {
			s.define(x)
		}
	}
	s.defd[t.id] = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, t.sort(), s.ts.body(t))
	if t.op == OURem && t.b.isConst() && t.b.c != 0 {
		// a valid lemma that spares the solver the division circuit in most queries
		fmt.Fprintf(s.in, "(assert (bvult t%d %s))\n", t.id, constSMT(t.w, t.b.c))
	}
}

// dump writes one query to a file (developer aid).
func (s *Solver) dump(file string, cs []*Term) {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	seen := map[int32]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, x := range [3]*Term{t.a, t.b, t.d} {
			if x != nil {
				def(x)
			}
		}
		if t.op == OVar {
			fmt.Fprintf(&b, "(declare-const v%d %s)\n", t.c, t.sort())
			return
		}
		fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, t.sort(), s.ts.body(t))
	}
	for _, c := range cs {
		def(c)
		fmt.Fprintf(&b, "(assert %s)\n", s.ts.ref(c))
	}
	b.WriteString("(check-sat)\n")
	os.WriteFile(file, []byte(b.String()), 0o644)
}

// Check decides the conjunction; with want != nil and sat, fills the model for those vars. A model is
// only believed when it satisfies the constraints: incremental solving has been seen to give others.
func (s *Solver) Check(cs []*Term, want []int32) (SatRes, map[int32]uint64) {
	for try := 0; try < 3; try++ {
		r, m := s.check(cs, want)
		if r != Sat || len(want) == 0 || s.holds(cs, m) {
			return r, m
		}
		s.BadModels++
		s.Close()
	}
	s.NUnk++
	return Unknown, nil
}

func (s *Solver) holds(cs []*Term, m map[int32]uint64) bool {
	for _, c := range cs {
		missing := false
		v := s.ts.Eval(c, func(v int32) uint64 {
			x, ok := m[v]
			missing = missing || !ok
			return x
		})
		if v == 0 && !missing {
			return false
		}
	}
	return true
}

func (s *Solver) check(cs []*Term, want []int32) (SatRes, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd != nil && s.n > 20000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.Queries++
	s.n += len(cs)
	for _, c := range cs {
		s.define(c)
	}
	for _, v := range want {
		s.define(s.ts.vars[v].t)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ts.ref(c))
	}
	s.in.WriteString("(check-sat)\n")
	if s.in.Flush() != nil {
		s.Close()
		s.NUnk++
		return Unknown, nil
	}
	done := make(chan struct{})
	cmd := s.cmd
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(s.tmoMS)*time.Millisecond + 15*time.Second):
			cmd.Process.Kill()
		}
	}()
	line, err := s.out.ReadString('\n')
	close(done)
	line = strings.TrimSpace(line)
	if err != nil || strings.HasPrefix(line, "(error") {
		s.Close()
		if d := os.Getenv("SYMX_DUMP"); d != "" {
			s.dump(fmt.Sprintf("%s/e%d.smt2", d, time.Now().UnixNano()), cs)
		}
		s.NUnk++
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.NUnsat++
		s.in.WriteString("(pop 1)\n")
		return Unsat, nil
	case "sat":
		s.NSat++
	default:
		// an interrupted solver is not used again
		s.NUnk++
		s.Close()
		if d := os.Getenv("SYMX_DUMP"); d != "" {
			s.dump(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), cs)
		}
		return Unknown, nil
	}
	m := map[int32]uint64{}
	if len(want) > 0 {
		s.in.WriteString("(get-value (")
		for _, v := range want {
			fmt.Fprintf(s.in, "v%d ", v)
		}
		s.in.WriteString("))\n(pop 1)\n")
		s.in.Flush()
		// read balanced sexpr
		depth := 0
		var sb strings.Builder
		for {
			ch, err := s.out.ReadByte()
			if err != nil {
				s.Close()
				return Unknown, nil
			}
			sb.WriteByte(ch)
			if ch == '(' {
				depth++
			}
			if ch == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		s.out.ReadString('\n')
		txt := sb.String()
		if strings.HasPrefix(txt, "(error") {
			s.Close()
			return Unknown, nil
		}
		f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
		for i := 0; i+1 < len(f); i += 2 {
			id, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
			if err != nil {
				s.Close()
				return Unknown, nil
			}
			var v uint64
			switch {
			case f[i+1] == "true":
				v = 1
			case f[i+1] == "false":
				v = 0
			case strings.HasPrefix(f[i+1], "#x"):
				v, _ = strconv.ParseUint(f[i+1][2:], 16, 64)
			case strings.HasPrefix(f[i+1], "#b"):
				v, _ = strconv.ParseUint(f[i+1][2:], 2, 64)
			default:
				s.Close()
				return Unknown, nil
			}
			m[int32(id)] = v
		}
	} else {
		s.in.WriteString("(pop 1)\n")
	}
	return Sat, m
}
