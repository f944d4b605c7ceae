package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT-LIB 2 process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	decl    map[string]bool
	buf     strings.Builder
	Queries int
	Unknown int
	Sat     int
	Unsat   int
	Dur     time.Duration
	name    string
	dump    io.Writer
	what    string
	prof    map[string]time.Duration
	profN   map[string]int
}

func newSolver(name string) (*Solver, error) {
	var args []string
	switch name {
	case "cvc5":
		args = []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=60000", "--lang=smt2"}
	default:
		args = []string{name, "-in", "-t:60000"}
	}
	s := &Solver{cmd: exec.Command(args[0], args[1:]...), decl: map[string]bool{}, name: name}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.buf.WriteString("(set-option :produce-models true)\n")
	s.buf.WriteString("(set-logic QF_BV)\n")
	return s, nil
}

// limit sets the time limit of the following checks, in milliseconds.
func (s *Solver) limit(ms int) {
	if s.name == "cvc5" {
		fmt.Fprintf(&s.buf, "(set-option :tlimit-per %d)\n", ms)
	} else {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", ms)
	}
}

func (s *Solver) close() {
	if s != nil && s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func bvc(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), mask(v, w))
	}
	return fmt.Sprintf("(_ bv%d %d)", mask(v, w), w)
}

func (s *Solver) declVar(v *Var) string {
	n := v.name
	if !s.decl[n] {
		s.decl[n] = true
		fmt.Fprintf(&s.buf, "(declare-const %s (_ BitVec %d))\n", n, v.w)
	}
	return n
}

func le(unsigned bool, a, b string) string {
	if unsigned {
		return "(bvule " + a + " " + b + ")"
	}
	return "(bvsle " + a + " " + b + ")"
}

func (s *Solver) setFun(set *ISet, w uint8, unsigned bool) string {
	n := fmt.Sprintf("S%d_%d_%v", set.id, w, unsigned)
	if !s.decl[n] {
		s.decl[n] = true
		fmt.Fprintf(&s.buf, "(define-fun %s ((x (_ BitVec %d))) Bool (or false", n, w)
		for _, r := range set.r {
			if r.lo == r.hi {
				fmt.Fprintf(&s.buf, " (= x %s)", bvc(uint64(r.lo), w))
			} else {
				fmt.Fprintf(&s.buf, " (and %s %s)", le(unsigned, bvc(uint64(r.lo), w), "x"), le(unsigned, "x", bvc(uint64(r.hi), w)))
			}
		}
		s.buf.WriteString("))\n")
	}
	return n
}

func (s *Solver) tabFun(t *Tab, w uint8) string {
	n := fmt.Sprintf("T_%s_%d", t.name, w)
	if !s.decl[n] {
		s.decl[n] = true
		// balanced decision tree on the (signed) argument
		var tree func(sg []Seg) string
		tree = func(sg []Seg) string {
			if len(sg) == 0 {
				return bvc(0, w)
			}
			if len(sg) == 1 {
				g := sg[0]
				val := bvc(uint64(g.c), w)
				if g.lin {
					if g.c == 0 {
						val = "x"
					} else {
						val = "(bvadd x " + val + ")"
					}
				}
				return fmt.Sprintf("(ite (and %s %s) %s %s)", le(false, bvc(uint64(g.lo), w), "x"), le(false, "x", bvc(uint64(g.hi), w)), val, bvc(0, w))
			}
			m := len(sg) / 2
			return fmt.Sprintf("(ite (bvslt x %s) %s %s)", bvc(uint64(sg[m].lo), w), tree(sg[:m]), tree(sg[m:]))
		}
		fmt.Fprintf(&s.buf, "(define-fun %s ((x (_ BitVec %d))) (_ BitVec %d) %s)\n", n, w, w, tree(t.segs))
	}
	return n
}

var smtBin = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// ref returns an SMT expression for a term, defining shared nodes.
func (s *Solver) ref(x *Term) string {
	switch x.Op {
	case OConst:
		return bvc(x.C, x.W)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return s.declVar(x.V)
	case OInSet:
		if x.A[0].Op == OVar {
			v := x.A[0].V
			a := s.declVar(v)
			return "(" + s.setFun(x.Set, v.w, v.lo >= 0) + " " + a + ")"
		}
		a := s.ref(x.A[0])
		return "(" + s.setFun(x.Set, x.A[0].W, false) + " " + a + ")"
	}
	n := fmt.Sprintf("t%d", x.id)
	if s.decl[n] {
		return n
	}
	var body string
	as := make([]string, len(x.A))
	for i, a := range x.A {
		as[i] = s.ref(a)
	}
	switch x.Op {
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", x.W-x.A[0].W, as[0])
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", x.W-x.A[0].W, as[0])
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", x.W-1, as[0])
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", as[0], as[1], as[2])
	case OTab:
		body = fmt.Sprintf("(%s %s)", s.tabFun(x.Tab, x.W), as[0])
	case OUTF8:
		k, i := int(x.C>>3), int(x.C&7)
		r := as[0]
		switch {
		case k == 1:
			body = fmt.Sprintf("((_ extract 7 0) %s)", r)
		case i > 0:
			sh := 6 * (k - 1 - i)
			body = fmt.Sprintf("(concat #b10 ((_ extract %d %d) %s))", sh+5, sh, r)
		case k == 2:
			body = fmt.Sprintf("(concat #b110 ((_ extract 10 6) %s))", r)
		case k == 3:
			body = fmt.Sprintf("(concat #b1110 ((_ extract 15 12) %s))", r)
		case k == 4:
			body = fmt.Sprintf("(concat #b11110 ((_ extract 20 18) %s))", r)
		}
	case ONot:
		body = "(not " + as[0] + ")"
	case OBAnd:
		body = "(and true " + strings.Join(as, " ") + ")"
	case OBOr:
		body = "(or false " + strings.Join(as, " ") + ")"
	default:
		body = fmt.Sprintf("(%s %s)", smtBin[x.Op], strings.Join(as, " "))
	}
	sort := "Bool"
	if x.W > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", x.W)
	}
	s.decl[n] = true
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

// domRef is the declared domain of a variable.
func (s *Solver) domRef(v *Var) string {
	a := s.declVar(v)
	return "(" + s.setFun(v.dom, v.w, v.lo >= 0) + " " + a + ")"
}

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.buf.String())
	if s.dump != nil {
		io.WriteString(s.dump, s.buf.String())
	}
	s.buf.Reset()
	return err
}

// check asserts the given SMT expressions on top of the current declarations
// and returns "sat", "unsat" or "unknown". With model != nil, the values of
// the given variables are read back on sat.
func (s *Solver) check(asserts []string, vars []*Var, model map[*Var]int64) (string, error) {
	for _, v := range vars {
		s.declVar(v)
	}
	s.buf.WriteString("(push 1)\n")
	for _, a := range asserts {
		s.buf.WriteString("(assert " + a + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	t0 := time.Now()
	if err := s.flush(); err != nil {
		return "", err
	}
	line, err := s.line()
	s.Dur += time.Since(t0)
	if s.prof != nil {
		s.prof[s.what] += time.Since(t0)
		s.profN[s.what]++
	}
	s.Queries++
	if err != nil {
		return "", err
	}
	switch line {
	case "sat":
		s.Sat++
		if model != nil && len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(v.name + " ")
			}
			s.buf.WriteString("))\n(echo \"done\")\n")
			if err := s.flush(); err != nil {
				return "", err
			}
			var all strings.Builder
			for {
				l, err := s.line()
				if err != nil {
					return "", err
				}
				if l == "done" || l == "\"done\"" {
					break
				}
				all.WriteString(l + " ")
			}
			for _, v := range vars {
				txt := all.String()
				i := strings.Index(txt, "("+v.name+" ")
				if i < 0 {
					return "", fmt.Errorf("no value for %s in %s", v.name, txt)
				}
				txt = txt[i+len(v.name)+2:]
				txt = txt[:strings.IndexByte(txt, ')')]
				var u uint64
				switch {
				case strings.HasPrefix(txt, "#x"):
					u, err = strconv.ParseUint(txt[2:], 16, 64)
				case strings.HasPrefix(txt, "#b"):
					u, err = strconv.ParseUint(txt[2:], 2, 64)
				default:
					err = fmt.Errorf("bad value %q", txt)
				}
				if err != nil {
					return "", err
				}
				if v.lo >= 0 {
					model[v] = int64(u)
				} else {
					model[v] = sx(u, v.w)
				}
			}
		}
	case "unsat":
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
		line = "unknown"
	default:
		return "", fmt.Errorf("%s: %s", s.name, line)
	}
	s.buf.WriteString("(pop 1)\n")
	return line, nil
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "", fmt.Errorf("%s: %v", s.name, err)
	}
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, "(error") {
		return "", fmt.Errorf("%s: %s", s.name, l)
	}
	return l, nil
}
