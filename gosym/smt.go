package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver front end: canonicalised queries, a cache shared by all workers, and
// one incremental z3 process per worker.

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type cacheEntry struct {
	res SatResult
	mod []MVal
}

type SolverShared struct {
	cache      sync.Map // [32]byte -> cacheEntry
	Queries    int64    // distinct queries answered by the solver
	CacheHits  int64
	OneByte    atomic.Int64
	SolverNS   int64
	SatN       int64
	UnsatN     int64
	UnknownN   int64
	MaxNS      int64
	solverPath string
	timeoutMS  int
	dump       io.Writer
	samples    []string
	smu        sync.Mutex
}

type Solver struct {
	sh  *SolverShared
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	wc  io.WriteCloser
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.sh.solverPath, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.wc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.sh.timeoutMS)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.wc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// script renders the constraints canonically. vars gives the renamed
// variables in order.
func script(cons []*Term) (string, []*Term) {
	var sb strings.Builder
	names := map[*Term]string{}
	var vars []*Term
	nn := 0
	var visit func(t *Term) string
	visit = func(t *Term) string {
		switch t.op {
		case OConst:
			return t.smt(nil)
		case OVar:
			if n, ok := names[t]; ok {
				return n
			}
			n := fmt.Sprintf("x%d", len(vars))
			names[t] = n
			vars = append(vars, t)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, sortStr(t.sort, t.w))
			return n
		}
		if n, ok := names[t]; ok {
			return n
		}
		body := t.smt(visit)
		if len(body) < 24 {
			names[t] = body
			return body
		}
		n := fmt.Sprintf("n%d", nn)
		nn++
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, sortStr(t.sort, t.w), body)
		names[t] = n
		return n
	}
	for _, t := range cons {
		b := visit(t)
		sb.WriteString("(assert ")
		sb.WriteString(b)
		sb.WriteString(")\n")
	}
	return sb.String(), vars
}

// Check decides the conjunction of cons (which should be one independent
// slice). On Sat it returns values for the variables of the slice.
func (s *Solver) Check(cons []*Term) (SatResult, []*Term, []MVal) {
	text, vars := script(cons)
	key := sha256.Sum256([]byte(text))
	if e, ok := s.sh.cache.Load(key); ok {
		atomic.AddInt64(&s.sh.CacheHits, 1)
		ce := e.(cacheEntry)
		return ce.res, vars, ce.mod
	}
	res, mod := s.query(text, vars)
	s.sh.cache.Store(key, cacheEntry{res, mod})
	return res, vars, mod
}

func (s *Solver) query(text string, vars []*Term) (SatResult, []MVal) {
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	res, mod, err := s.ask(text, vars)
	if err != nil {
		s.stop()
		res = Unknown
	}
	if res == Unknown {
		res, mod = s.retry(text, vars)
	}
	d := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&s.sh.SolverNS, d)
	for {
		m := atomic.LoadInt64(&s.sh.MaxNS)
		if d <= m || atomic.CompareAndSwapInt64(&s.sh.MaxNS, m, d) {
			break
		}
	}
	n := atomic.AddInt64(&s.sh.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.sh.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.sh.UnsatN, 1)
	default:
		atomic.AddInt64(&s.sh.UnknownN, 1)
	}
	if n < 4 || s.sh.dump != nil {
		s.sh.smu.Lock()
		if n < 4 && len(text) < 600 {
			s.sh.samples = append(s.sh.samples, text)
		}
		if s.sh.dump != nil {
			fmt.Fprintf(s.sh.dump, "; %v %.3fms\n%s\n", res, float64(d)/1e6, text)
		}
		s.sh.smu.Unlock()
	}
	return res, mod
}

func (s *Solver) ask(text string, vars []*Term) (SatResult, []MVal, error) {
	s.in.WriteString("(push)\n")
	s.in.WriteString(text)
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	res := Unknown
	var mod []MVal
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		return Unknown, nil, fmt.Errorf("solver: %s", line)
	}
	if res == Sat {
		mod, err = s.values(vars)
		if err != nil {
			return Unknown, nil, err
		}
	}
	s.in.WriteString("(pop)\n")
	return res, mod, nil
}

func (s *Solver) values(vars []*Term) ([]MVal, error) {
	if len(vars) == 0 {
		return nil, nil
	}
	s.in.WriteString("(get-value (")
	for i := range vars {
		fmt.Fprintf(s.in, " x%d", i)
	}
	s.in.WriteString("))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	toks, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	return parseValues(toks, vars)
}

// retry runs the query non-incrementally with other solvers.
func (s *Solver) retry(text string, vars []*Term) (SatResult, []MVal) {
	full := "(set-option :produce-models true)\n(set-logic ALL)\n" + text + "(check-sat)\n"
	if len(vars) > 0 {
		full += "(get-value ("
		for i := range vars {
			full += fmt.Sprintf(" x%d", i)
		}
		full += "))\n"
	}
	for _, c := range [][]string{
		{s.sh.solverPath, "-in", "-smt2", fmt.Sprintf("-t:%d", 2*s.sh.timeoutMS)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", 2*s.sh.timeoutMS)},
	} {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(full)
		out, _ := cmd.Output()
		o := string(out)
		if strings.HasPrefix(o, "unsat") {
			return Unsat, nil
		}
		if strings.HasPrefix(o, "sat") {
			rd := bufio.NewReader(strings.NewReader(o[3:]))
			if len(vars) == 0 {
				return Sat, nil
			}
			toks, err := readSexp(rd)
			if err != nil {
				continue
			}
			mod, err := parseValues(toks, vars)
			if err != nil {
				continue
			}
			return Sat, mod
		}
	}
	return Unknown, nil
}

// readSexp reads one balanced s-expression and returns its tokens.
func readSexp(r *bufio.Reader) ([]string, error) {
	var toks []string
	depth := 0
	var cur strings.Builder
	flush := func() {
		if cur.Len() > 0 {
			toks = append(toks, cur.String())
			cur.Reset()
		}
	}
	for {
		b, err := r.ReadByte()
		if err != nil {
			return nil, err
		}
		switch b {
		case '(':
			flush()
			depth++
			toks = append(toks, "(")
		case ')':
			flush()
			depth--
			toks = append(toks, ")")
			if depth == 0 {
				return toks, nil
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			cur.WriteByte(b)
		}
	}
}

func parseValues(toks []string, vars []*Term) ([]MVal, error) {
	// ((x0 v) (x1 v) ...)
	pos := 1
	out := make([]MVal, len(vars))
	if len(toks) > 1 && toks[1] == "error" {
		return nil, fmt.Errorf("solver error: %s", strings.Join(toks, " "))
	}
	for i := range vars {
		if pos+2 >= len(toks) || toks[pos] != "(" {
			return nil, fmt.Errorf("bad model: %v", toks)
		}
		pos += 2 // ( name
		v, np, err := parseVal(toks, pos, vars[i])
		if err != nil {
			return nil, err
		}
		pos = np + 1
		out[i] = v
	}
	return out, nil
}

func parseVal(toks []string, pos int, v *Term) (MVal, int, error) {
	t := toks[pos]
	switch {
	case t == "true":
		return MVal{u: 1}, pos + 1, nil
	case t == "false":
		return MVal{u: 0}, pos + 1, nil
	case strings.HasPrefix(t, "#x"):
		n, _ := new(big.Int).SetString(t[2:], 16)
		return MVal{u: n.Uint64()}, pos + 1, nil
	case strings.HasPrefix(t, "#b"):
		n, _ := new(big.Int).SetString(t[2:], 2)
		return MVal{u: n.Uint64()}, pos + 1, nil
	}
	r, np, err := parseNum(toks, pos)
	return MVal{r: r}, np, err
}

func parseNum(toks []string, pos int) (*big.Rat, int, error) {
	t := toks[pos]
	if t != "(" {
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			return nil, 0, fmt.Errorf("bad number %q", t)
		}
		return r, pos + 1, nil
	}
	switch toks[pos+1] {
	case "-":
		r, np, err := parseNum(toks, pos+2)
		if err != nil {
			return nil, 0, err
		}
		if toks[np] != ")" {
			s, np2, err := parseNum(toks, np)
			if err != nil {
				return nil, 0, err
			}
			return new(big.Rat).Sub(r, s), np2 + 1, nil
		}
		return new(big.Rat).Neg(r), np + 1, nil
	case "/":
		a, np, err := parseNum(toks, pos+2)
		if err != nil {
			return nil, 0, err
		}
		b, np, err := parseNum(toks, np)
		if err != nil {
			return nil, 0, err
		}
		return new(big.Rat).Quo(a, b), np + 1, nil
	case "to_real":
		a, np, err := parseNum(toks, pos+2)
		return a, np + 1, err
	}
	return nil, 0, fmt.Errorf("bad number")
}

func newShared() *SolverShared {
	p := "/usr/local/bin/z3-new"
	if _, err := os.Stat(p); err != nil {
		p = "/usr/bin/z3"
	}
	return &SolverShared{solverPath: p, timeoutMS: 20000}
}
