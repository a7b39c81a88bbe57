package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over a pipe (SMT-LIB2, QF_BV).
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	dur     time.Duration
	maxQ    time.Duration
	// per path
	defined  map[*Term]bool
	declared []*Term
	buf      strings.Builder
	inPath   bool
	tmo      int
}

func NewSolver(bin string, timeoutMS int) (*Solver, error) {
	s := &Solver{bin: bin, tmo: timeoutMS}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic QF_BV)\n", s.tmo)
	s.inPath = false
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Restart kills the process (used after protocol errors).
func (s *Solver) Restart() {
	s.Close()
	s.start()
}

func (s *Solver) BeginPath() {
	if s.inPath {
		s.in.WriteString("(pop 1)\n")
	}
	s.in.WriteString("(push 1)\n")
	s.inPath = true
	s.defined = map[*Term]bool{}
	s.declared = s.declared[:0]
	s.buf.Reset()
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func bvc(v uint64, w uint8) string {
	return "(_ bv" + strconv.FormatUint(v&wmask(w), 10) + " " + strconv.Itoa(int(w)) + ")"
}

// ref returns the SMT text naming t, defining it first if needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case opConst:
		return bvc(t.k, t.w)
	case opTrue:
		return "true"
	case opFalse:
		return "false"
	}
	n := "t" + strconv.Itoa(int(t.id))
	if s.defined[t] {
		return n
	}
	if t.op == opVar || t.op == opBVar {
		s.buf.WriteString("(declare-const " + n + " " + sortOf(t.w) + ")\n")
		s.defined[t] = true
		s.declared = append(s.declared, t)
		return n
	}
	// iterative enough: terms are shallow thanks to naming; recursion depth is bounded by term depth
	body := s.body(t)
	s.buf.WriteString("(define-fun " + n + " () " + sortOf(t.w) + " " + body + ")\n")
	s.defined[t] = true
	return n
}

func narrowW(hi int64) uint8 {
	n := uint8(bits.Len64(uint64(hi)))
	if n == 0 {
		n = 1
	}
	return n
}

func extr(x string, w uint8) string {
	return fmt.Sprintf("((_ extract %d 0) %s)", w-1, x)
}

func (s *Solver) body(t *Term) string {
	r := func(i int) string { return s.ref(t.args[i]) }
	bin := func(op string) string { return "(" + op + " " + r(0) + " " + r(1) + ")" }
	switch t.op {
	case opLin:
		nw := t.w
		// narrow when everything is nonnegative and small
		if t.w == 64 && t.lo >= 0 && t.hi < 1<<48 {
			nw = narrowW(t.hi)
			for _, m := range t.lin {
				_ = m
			}
		}
		var parts []string
		for _, m := range t.lin {
			x := s.ref(m.t)
			if nw != t.w {
				x = extr(x, nw)
			}
			cf := m.c & wmask(nw)
			switch {
			case cf == 0:
				continue
			case cf == 1:
				parts = append(parts, x)
			case cf == wmask(nw):
				parts = append(parts, "(bvneg "+x+")")
			case bits.OnesCount64(cf) == 1:
				parts = append(parts, "(bvshl "+x+" "+bvc(uint64(bits.TrailingZeros64(cf)), nw)+")")
			default:
				parts = append(parts, "(bvmul "+bvc(cf, nw)+" "+x+")")
			}
		}
		if t.k&wmask(nw) != 0 {
			parts = append(parts, bvc(t.k, nw))
		}
		var e string
		switch len(parts) {
		case 0:
			e = bvc(0, nw)
		case 1:
			e = parts[0]
		default:
			e = "(bvadd " + strings.Join(parts, " ") + ")"
		}
		if nw != t.w {
			e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-nw, e)
		}
		return e
	case opMul:
		nw := t.w
		ok := t.lo >= 0 && t.hi < 1<<48 && t.w == 64
		if ok {
			for _, a := range t.args {
				if a.lo < 0 {
					ok = false
				}
			}
		}
		if ok {
			nw = narrowW(t.hi)
		}
		var parts []string
		for _, a := range t.args {
			x := s.ref(a)
			if nw != t.w {
				x = extr(x, nw)
			}
			parts = append(parts, x)
		}
		e := parts[0]
		for _, p := range parts[1:] {
			e = "(bvmul " + e + " " + p + ")"
		}
		if nw != t.w {
			e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-nw, e)
		}
		return e
	case opUdiv, opUrem, opSdiv, opSrem:
		a, b := t.args[0], t.args[1]
		name := map[Op]string{opUdiv: "bvudiv", opUrem: "bvurem", opSdiv: "bvsdiv", opSrem: "bvsrem"}[t.op]
		if t.w == 64 && a.lo >= 0 && b.lo >= 1 && a.hi < 1<<48 && b.hi < 1<<48 {
			nm := "bvudiv"
			if t.op == opUrem || t.op == opSrem {
				nm = "bvurem"
			}
			h := a.hi
			if b.hi > h {
				h = b.hi
			}
			nw := narrowW(h)
			return fmt.Sprintf("((_ zero_extend %d) (%s %s %s))", t.w-nw, nm, extr(r(0), nw), extr(r(1), nw))
		}
		return bin(name)
	case opShl:
		return bin("bvshl")
	case opLshr:
		return "(bvlshr " + r(0) + " " + bvc(t.k, t.w) + ")"
	case opAshr:
		return "(bvashr " + r(0) + " " + bvc(t.k, t.w) + ")"
	case opAnd:
		return bin("bvand")
	case opOr:
		return bin("bvor")
	case opXor:
		return bin("bvxor")
	case opExtract:
		return extr(r(0), t.w)
	case opZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, r(0))
	case opSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, r(0))
	case opIte:
		return "(ite " + r(0) + " " + r(1) + " " + r(2) + ")"
	case opDigit:
		a := t.args[0]
		base := t.k >> 32
		i := (t.k >> 16) & 0xffff
		p := uint64(1)
		for j := uint64(0); j < i; j++ {
			p *= base
		}
		if bits.OnesCount64(base) == 1 {
			sh := uint64(bits.TrailingZeros64(base)) * i
			x := "(bvlshr " + r(0) + " " + bvc(sh, a.w) + ")"
			x = "(bvand " + x + " " + bvc(base-1, a.w) + ")"
			if a.w > 8 {
				x = extr(x, 8)
			}
			return "(bvadd " + bvc('0', 8) + " " + x + ")"
		}
		nw := a.w
		x := r(0)
		if a.lo >= 0 {
			h := a.hi
			if int64(p) > h {
				h = int64(p)
			}
			if h < 15 {
				h = 15
			}
			nw = narrowW(h)
			if nw < 8 {
				nw = 8
			}
			if nw > a.w {
				nw = a.w
			}
			x = extr(x, nw)
		}
		x = "(bvurem (bvudiv " + x + " " + bvc(p, nw) + ") " + bvc(base, nw) + ")"
		return "(bvadd " + bvc('0', 8) + " " + extr(x, 8) + ")"
	case opEq:
		return bin("=")
	case opUlt:
		return bin("bvult")
	case opUle:
		return bin("bvule")
	case opSlt:
		return bin("bvslt")
	case opSle:
		return bin("bvsle")
	case opBAnd, opBOr:
		nm := "and"
		if t.op == opBOr {
			nm = "or"
		}
		var sb strings.Builder
		sb.WriteString("(" + nm)
		for i := range t.args {
			sb.WriteString(" " + r(i))
		}
		sb.WriteString(")")
		return sb.String()
	case opBNot:
		return "(not " + r(0) + ")"
	}
	panic(fmt.Sprintf("smt: op %d", t.op))
}

func (s *Solver) flushDefs() {
	if s.buf.Len() > 0 {
		s.in.WriteString(s.buf.String())
		s.buf.Reset()
	}
}

// Assert adds t permanently to the current path.
func (s *Solver) Assert(t *Term) {
	x := s.ref(t)
	s.flushDefs()
	s.in.WriteString("(assert " + x + ")\n")
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides the path constraints plus extra; on Sat it returns a model.
func (s *Solver) Check(extra *Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > s.maxQ {
			s.maxQ = d
		}
	}()
	s.queries++
	x := s.ref(extra)
	s.flushDefs()
	s.in.WriteString("(push 1)\n(assert " + x + ")\n(check-sat)\n")
	res := s.readRes()
	if res == Unknown {
		s.in.WriteString("(check-sat-using (try-for qfbv " + strconv.Itoa(4*s.tmo) + "))\n")
		res = s.readRes()
	}
	var m Model
	switch res {
	case Sat:
		s.sat++
		m = s.getModel()
		if m == nil {
			res = Unknown
		}
	case Unsat:
		s.unsat++
	default:
		s.unknown++
	}
	s.in.WriteString("(pop 1)\n")
	return res, m
}

func (s *Solver) readRes() Result {
	s.in.Flush()
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			panic(solverDied{err})
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		case "":
			continue
		}
		if strings.HasPrefix(line, "(error") {
			if strings.Contains(line, "timeout") || strings.Contains(line, "canceled") {
				return Unknown
			}
			panic(solverDied{fmt.Errorf("%s", line)})
		}
	}
}

type solverDied struct{ err error }

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.declared) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range s.declared {
		s.in.WriteString("t" + strconv.Itoa(int(v.id)) + " ")
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(solverDied{err})
		}
		if b == '(' {
			depth++
		}
		if depth > 0 {
			sb.WriteByte(b)
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	byName := map[string]*Term{}
	for _, v := range s.declared {
		byName["t"+strconv.Itoa(int(v.id))] = v
	}
	for i := 0; i+1 < len(f); i++ {
		v, ok := byName[f[i]]
		if !ok {
			continue
		}
		x := f[i+1]
		switch {
		case strings.HasPrefix(x, "#x"):
			u, _ := strconv.ParseUint(x[2:], 16, 64)
			m[v.name] = u
		case strings.HasPrefix(x, "#b"):
			u, _ := strconv.ParseUint(x[2:], 2, 64)
			m[v.name] = u
		case x == "true":
			m[v.name] = 1
		case x == "false":
			m[v.name] = 0
		case x == "_":
			u, _ := strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
			m[v.name] = u
		}
		i++
	}
	return m
}
