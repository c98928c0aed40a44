package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one Z3 process over SMT-LIB 2.
type Solver struct {
	x       *Exprs
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.Closer
	out     *bufio.Reader
	defined map[uint32]bool
	declV   map[int]bool
	declT   map[uint32]bool
	nd      int
	buf     strings.Builder

	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Bytes                        int64
	maxQ                         time.Duration
}

var z3Path = "z3-new"

func newSolver(x *Exprs) *Solver { return &Solver{x: x} }

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in", "-smt2", "-memory:2000")
	ip, _ := s.cmd.StdinPipe()
	op, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.defined = map[uint32]bool{}
	s.declV = map[int]bool{}
	s.declT = map[uint32]bool{}
	s.nd = 0
	s.in.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :auto_config false)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// invalidate drops all definitions (term universe was reset).
func (s *Solver) invalidate() { s.stop() }

func sortName(e *Expr) string {
	switch e.sort {
	case 'b':
		return "Bool"
	case 'v':
		return fmt.Sprintf("(_ BitVec %d)", e.w)
	case 'f':
		if e.w == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	panic("sortName: opaque atom in solver term")
}

func toFP(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

var rmodes = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		switch e.sort {
		case 'b':
			if e.v == 1 {
				return "true"
			}
			return "false"
		case 'v':
			return fmt.Sprintf("(_ bv%d %d)", e.v, e.w)
		default:
			return fmt.Sprintf("(%s (_ bv%d %d))", toFP(e.w), e.v, e.w)
		}
	case OVar:
		i := int(e.v)
		// the variable with index i has another width on other paths
		k := i<<8 | int(e.w)
		n := "x" + strconv.Itoa(i) + "w" + strconv.Itoa(int(e.w))
		if !s.declV[k] {
			s.declV[k] = true
			fmt.Fprintf(&s.buf, "(declare-const %s (_ BitVec %d))\n", n, e.w)
		}
		return n
	}
	if !s.defined[e.id] {
		body := s.body(e)
		s.defined[e.id] = true
		s.nd++
		fmt.Fprintf(&s.buf, "(define-fun e%d () %s %s)\n", e.id, sortName(e), body)
	}
	return "e" + strconv.Itoa(int(e.id))
}

func tableTree(idx string, vals []uint64, lo, hi int, w uint8, iw uint8, sb *strings.Builder) {
	same := true
	for i := lo + 1; i < hi; i++ {
		if vals[i] != vals[lo] {
			same = false
			break
		}
	}
	if same {
		fmt.Fprintf(sb, "(_ bv%d %d)", vals[lo]&mask(w), w)
		return
	}
	mid := (lo + hi) / 2
	// prefer a run boundary near the middle
	fmt.Fprintf(sb, "(ite (bvult %s (_ bv%d %d)) ", idx, mid, iw)
	tableTree(idx, vals, lo, mid, w, iw, sb)
	sb.WriteByte(' ')
	tableTree(idx, vals, mid, hi, w, iw, sb)
	sb.WriteByte(')')
}

func (s *Solver) body(e *Expr) string {
	var a, b, c string
	if e.a != nil {
		a = s.ref(e.a)
	}
	if e.b != nil {
		b = s.ref(e.b)
	}
	if e.c != nil {
		c = s.ref(e.c)
	}
	switch e.op {
	case ONot, OAnd, OOr, OEq, OUlt, OUle, OSlt, OSle, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLshr, OAshr, OBAnd, OBOr, OBXor, OBNot, ONeg:
		if b == "" {
			return "(" + opNames[e.op] + " " + a + ")"
		}
		return "(" + opNames[e.op] + " " + a + " " + b + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, a)
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, a)
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, a)
	case OIte:
		return "(ite " + a + " " + b + " " + c + ")"
	case OTable:
		var sb strings.Builder
		n := 1 << e.a.w
		if n > len(e.tab.vals) {
			n = len(e.tab.vals)
		}
		tableTree(a, e.tab.vals, 0, n, e.w, e.a.w, &sb)
		return sb.String()
	case OFBits:
		return "(" + toFP(e.w) + " " + a + ")"
	case OFAdd:
		return "(fp.add RNE " + a + " " + b + ")"
	case OFSub:
		return "(fp.sub RNE " + a + " " + b + ")"
	case OFMul:
		return "(fp.mul RNE " + a + " " + b + ")"
	case OFDiv:
		return "(fp.div RNE " + a + " " + b + ")"
	case OFNeg:
		return "(fp.neg " + a + ")"
	case OFAbs:
		return "(fp.abs " + a + ")"
	case OFLt:
		return "(fp.lt " + a + " " + b + ")"
	case OFLe:
		return "(fp.leq " + a + " " + b + ")"
	case OFEq:
		return "(fp.eq " + a + " " + b + ")"
	case OFRound:
		return "(fp.roundToIntegral " + rmodes[e.v] + " " + a + ")"
	case OFSqrt:
		return "(fp.sqrt RNE " + a + ")"
	case OSI2F:
		return "(" + toFP(e.w) + " RNE " + a + ")"
	case OUI2F:
		return "(" + strings.Replace(toFP(e.w), "to_fp", "to_fp_unsigned", 1) + " RNE " + a + ")"
	case OF2F:
		return "(" + toFP(e.w) + " RNE " + a + ")"
	case OF2SI:
		lim := "9223372036854775808.0"
		if e.w <= 32 {
			l, h := fbits(e.a.w, -2147483649.0), fbits(e.a.w, 2147483648.0)
			fp := toFP(e.a.w)
			return fmt.Sprintf("(ite (or (fp.isNaN %s) (fp.geq %s (%s (_ bv%d %d))) (fp.leq %s (%s (_ bv%d %d)))) (_ bv%d %d) ((_ extract %d 0) ((_ fp.to_sbv 64) RTZ %s)))",
				a, a, fp, h, e.a.w, a, fp, l, e.a.w, uint64(0x80000000)&mask(e.w), e.w, e.w-1, a)
		}
		_ = lim
		l, h := fbits(e.a.w, -9223372036854775808.0), fbits(e.a.w, 9223372036854775808.0)
		fp := toFP(e.a.w)
		return fmt.Sprintf("(ite (or (fp.isNaN %s) (fp.geq %s (%s (_ bv%d %d))) (fp.lt %s (%s (_ bv%d %d)))) (_ bv9223372036854775808 64) ((_ fp.to_sbv 64) RTZ %s))",
			a, a, fp, h, e.a.w, a, fp, l, e.a.w, a)
	case OFIsNaN:
		return "(fp.isNaN " + a + ")"
	case OFIsInf:
		return "(fp.isInfinite " + a + ")"
	}
	panic("solver: cannot encode " + opNames[e.op])
}

type Verdict int

const (
	Unknown Verdict = iota
	SAT
	UNSAT
)

func (v Verdict) String() string { return []string{"unknown", "sat", "unsat"}[v] }

// Raw decides an SMT-LIB query of its own, in a process of its own.
func (s *Solver) Raw(q string, timeoutMS int) Verdict {
	t0 := time.Now()
	cmd := exec.Command(z3Path, "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMS))
	cmd.Stdin = strings.NewReader(q + "(check-sat)\n")
	out, _ := cmd.Output()
	s.Queries++
	s.Time += time.Since(t0)
	switch strings.TrimSpace(string(out)) {
	case "sat":
		s.Sat++
		return SAT
	case "unsat":
		s.Unsat++
		return UNSAT
	}
	s.Unknown++
	return Unknown
}

// Check decides the conjunction; on SAT it returns values of the variables involved.
func (s *Solver) Check(conj []*Expr, timeoutMS int) (Verdict, map[int]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.maxQ {
			s.maxQ = d
		}
		if d > time.Second {
			s.dump(conj, timeoutMS)
		}
	}()
	s.Queries++
	if s.cmd != nil && s.nd > 60000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	s.buf.Reset()
	vs := emptyVars
	refs := make([]string, 0, len(conj))
	for _, e := range conj {
		refs = append(refs, s.ref(e))
		vs = s.x.unionVars(vs, e.vars)
	}
	fmt.Fprintf(&s.buf, "(push 1)\n(set-option :timeout %d)\n", timeoutMS)
	for _, r := range refs {
		s.buf.WriteString("(assert " + r + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	str := s.buf.String()
	s.Bytes += int64(len(str))
	s.in.WriteString(str)
	if s.in.Flush() != nil {
		s.stop()
		s.Unknown++
		return Unknown, nil
	}
	cmd := s.cmd
	wd := time.AfterFunc(time.Duration(timeoutMS)*time.Millisecond*2+5*time.Second, func() { cmd.Process.Kill() })
	line, err := s.out.ReadString('\n')
	wd.Stop()
	if err != nil {
		s.stop()
		s.Unknown++
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		s.in.WriteString("(pop 1)\n")
		s.Unsat++
		return UNSAT, nil
	case "sat":
		s.Sat++
		m := map[int]uint64{}
		if len(vs.v) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vs.v {
				fmt.Fprintf(s.in, "x%dw%d ", v, s.x.vars[v].w)
			}
			s.in.WriteString("))\n(pop 1)\n")
			s.in.Flush()
			if !s.readModel(m, len(vs.v)) {
				s.stop()
				return Unknown, nil
			}
		} else {
			s.in.WriteString("(pop 1)\n")
		}
		return SAT, m
	case "unknown", "timeout":
		s.dump(conj, timeoutMS)
		s.in.WriteString("(pop 1)\n")
		s.Unknown++
		return Unknown, nil
	}
	// an error line: restart
	s.stop()
	s.Unknown++
	if debugSolver {
		fmt.Println("solver said:", line)
	}
	return Unknown, nil
}

var debugSolver = os.Getenv("VSYM_DEBUG") != ""
var dumpDir = os.Getenv("VSYM_DUMP")

// dump writes an undecided query on its own (debugging aid).
func (s *Solver) dump(conj []*Expr, timeoutMS int) {
	if dumpDir == "" {
		return
	}
	t := &Solver{x: s.x, defined: map[uint32]bool{}, declV: map[int]bool{}, declT: map[uint32]bool{}}
	var refs []string
	for _, e := range conj {
		refs = append(refs, t.ref(e))
	}
	for _, r := range refs {
		t.buf.WriteString("(assert " + r + ")\n")
	}
	t.buf.WriteString("(check-sat)\n")
	os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", dumpDir, timeoutMS, time.Now().UnixNano()), []byte(t.buf.String()), 0o644)
}

func (s *Solver) readModel(m map[int]uint64, n int) bool {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return false
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	for i := 0; i+1 < len(f); i += 2 {
		if f[i][0] != 'x' {
			return false
		}
		idx, _ := strconv.Atoi(f[i][1:max(1, strings.IndexByte(f[i], 'w'))])
		var v uint64
		var err error
		if strings.HasPrefix(f[i+1], "#x") {
			v, err = strconv.ParseUint(f[i+1][2:], 16, 64)
		} else if strings.HasPrefix(f[i+1], "#b") {
			v, err = strconv.ParseUint(f[i+1][2:], 2, 64)
		} else {
			return false
		}
		if err != nil {
			return false
		}
		m[idx] = v
	}
	return len(m) == n
}
