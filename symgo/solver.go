package main

// Solver: one long-lived "z3 -in" process; terms are defined once at top level
// and each query is push / assert / check-sat / get-value / pop.  A query the
// incremental solver cannot decide within its cap goes, as a self-contained
// script, to a portfolio of one-shot solvers.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	UNSAT SatRes = iota
	SAT
	UNKNOWN
)

type Solver struct {
	x        *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	gen      int32
	ndefs    int
	cache    map[string]cacheEnt
	Queries  int
	Sat      int
	Unsat    int
	Unk      int
	Cached   int
	Errors   int
	Fallbk   int
	Time     time.Duration
	capMs    int
	slowMs   int
	lastErr  string
	icmd     *exec.Cmd
	iin      *bufio.Writer
	iout     *bufio.Reader
	igen     int32
	indefs   int
	IntQ     int
	NarQ     int
	IntUnk   int
	IntTime  time.Duration
	deadline time.Time
}

type cacheEnt struct {
	r SatRes
	m map[uint64]uint64
}

func NewSolver(x *Ctx, capMs, slowMs int) *Solver {
	s := &Solver{x: x, cache: make(map[string]cacheEnt), capMs: capMs, slowMs: slowMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.stop()
	bin := os.Getenv("SYMGO_Z3")
	if bin == "" {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.ndefs = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :timeout %d)\n", s.capMs)
}

func (s *Solver) stopAll() {
	s.stop()
	if s.icmd != nil {
		s.icmd.Process.Kill()
		s.icmd.Wait()
		s.icmd = nil
	}
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// genCounter makes the emitted marks unique even across solvers sharing a Ctx.

func (s *Solver) key(cs []*Expr) string {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var b []byte
	for _, i := range ids {
		b = strconv.AppendInt(b, int64(i), 36)
		b = append(b, ',')
	}
	return string(b)
}

// Check decides the conjunction of cs.
func (s *Solver) Check(cs []*Expr) (SatRes, map[uint64]uint64) {
	for _, c := range cs {
		if c == s.x.F {
			return UNSAT, nil
		}
	}
	k := s.key(cs)
	if e, ok := s.cache[k]; ok {
		s.Cached++
		return e.r, e.m
	}
	t0 := time.Now()
	r, m := UNKNOWN, map[uint64]uint64(nil)
	cl := uint8(icNo)
	if intEnabled {
		cl = icLin
		arith := false
		for _, c := range cs {
			cl = maxU8(cl, s.x.intClass(c))
			if cl == icNo {
				break
			}
			arith = arith || s.arith(c)
		}
		if cl == icLin && arith {
			ti := time.Now()
			r, m = s.rawInt(cs)
			s.IntTime += time.Since(ti)
			if xcheck && r != UNKNOWN {
				if r2, _ := s.raw(cs); r2 != UNKNOWN && r2 != r {
					panic("integer and bit-vector encodings disagree")
				}
			}
		}
	}
	if r == UNKNOWN && cl == icNon {
		r, m = s.rawNarrow(cs, 20000)
	}
	if r == UNKNOWN {
		r, m = s.raw(cs)
	}
	if r == UNKNOWN && cl == icLin {
		r, m = s.rawNarrow(cs, 10000)
	}
	if r == UNKNOWN {
		s.Fallbk++
		r, m = s.fallback(cs)
	}
	dt := time.Since(t0)
	s.Time += dt
	s.Queries++
	if d := os.Getenv("SYMGO_SLOW"); d != "" && dt > 150*time.Millisecond {
		s.dumpSlow(d, cs, dt)
	}
	switch r {
	case SAT:
		s.Sat++
	case UNSAT:
		s.Unsat++
	default:
		s.Unk++
	}
	if len(s.cache) > 2000000 {
		s.cache = make(map[string]cacheEnt)
	}
	s.cache[k] = cacheEnt{r, m}
	return r, m
}

var xcheck = os.Getenv("SYMGO_XCHECK") != ""
var intEnabled = os.Getenv("SYMGO_NOINT") == ""

// arith: the term does arithmetic on which integer reasoning helps (as
// opposed to mere comparisons and selections)
func (s *Solver) arith(e *Expr) bool {
	if e.ar != 0 {
		return e.ar == 2
	}
	r := false
	switch e.op {
	case OMul, OSDiv, OSRem, OUDiv, OURem, OAdd, OSub:
		r = true
	default:
		for _, c := range [3]*Expr{e.a, e.b, e.c} {
			if c != nil && s.arith(c) {
				r = true
				break
			}
		}
	}
	e.ar = 1
	if r {
		e.ar = 2
	}
	return r
}

func (s *Solver) startI() {
	if s.icmd != nil {
		s.icmd.Process.Kill()
		s.icmd.Wait()
		s.icmd = nil
	}
	s.icmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.icmd.StdinPipe()
	out, _ := s.icmd.StdoutPipe()
	if err := s.icmd.Start(); err != nil {
		panic(err)
	}
	s.iin = bufio.NewWriterSize(in, 1<<16)
	s.iout = bufio.NewReaderSize(out, 1<<16)
	s.igen++
	s.indefs = 0
	fmt.Fprintf(s.iin, "(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :timeout %d)\n", 1500)
}

func (s *Solver) rawInt(cs []*Expr) (SatRes, map[uint64]uint64) {
	if s.icmd == nil || s.indefs > 200000 {
		s.startI()
	}
	s.IntQ++
	var sb strings.Builder
	for _, c := range cs {
		s.x.EmitI(&sb, c, s.igen)
	}
	s.indefs += strings.Count(sb.String(), "\n")
	sb.WriteString("(push)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(s.x.refI(c))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.iin, sb.String()); err != nil {
		s.startI()
		return UNKNOWN, nil
	}
	s.iin.Flush()
	rd := func() string {
		for {
			l, err := s.iout.ReadString('\n')
			if err != nil {
				return "error"
			}
			l = strings.TrimSpace(l)
			if l != "" {
				return l
			}
		}
	}
	line := rd()
	switch line {
	case "unsat":
		io.WriteString(s.iin, "(pop)\n")
		return UNSAT, nil
	case "sat":
		vs := s.varsOf(cs)
		m := map[uint64]uint64{}
		if len(vs) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(&q, "v%d ", v)
			}
			q.WriteString("))\n")
			io.WriteString(s.iin, q.String())
			s.iin.Flush()
			txt, err := readSexp(s.iout)
			if err == nil {
				m, err = parseModelWith(txt, s.x, parseIntVal)
			}
			if err != nil {
				s.Errors++
				s.lastErr = err.Error()
				s.startI()
				return UNKNOWN, nil
			}
			for k, v := range m {
				w := s.x.vars[k].e.w
				if w != wBool && w < 64 {
					m[k] = v & mask(w)
				}
			}
		}
		io.WriteString(s.iin, "(pop)\n")
		return SAT, m
	case "unknown", "timeout":
		s.IntUnk++
		io.WriteString(s.iin, "(pop)\n")
		return UNKNOWN, nil
	}
	s.Errors++
	s.lastErr = line
	s.startI()
	return UNKNOWN, nil
}

func (s *Solver) varsOf(cs []*Expr) []int32 {
	var vs []int32
	for _, c := range cs {
		vs = mergeVs(vs, c.vs)
	}
	return vs
}

func hasFP(cs []*Expr, x *Ctx) bool {
	seen := map[int32]bool{}
	var rec func(e *Expr) bool
	rec = func(e *Expr) bool {
		if e == nil || seen[e.id] {
			return false
		}
		seen[e.id] = true
		if e.w == wF64 || (e.op >= OFFromInt) {
			return true
		}
		return rec(e.a) || rec(e.b) || rec(e.c)
	}
	for _, c := range cs {
		if rec(c) {
			return true
		}
	}
	return false
}

func (s *Solver) raw(cs []*Expr) (SatRes, map[uint64]uint64) {
	if s.ndefs > 400000 {
		s.start()
	}
	var sb strings.Builder
	for _, c := range cs {
		s.x.Emit(&sb, c, s.gen)
	}
	s.ndefs += strings.Count(sb.String(), "\n")
	sb.WriteString("(push)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(s.x.ref(c))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.start()
		return UNKNOWN, nil
	}
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.Errors++
		s.start()
		return UNKNOWN, nil
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop)\n")
		return UNSAT, nil
	case "sat":
		vs := s.varsOf(cs)
		m, err := s.getModel(vs)
		if err != nil {
			s.Errors++
			s.lastErr = err.Error()
			s.start()
			return UNKNOWN, nil
		}
		io.WriteString(s.in, "(pop)\n")
		return SAT, m
	case "unknown", "timeout":
		io.WriteString(s.in, "(pop)\n")
		return UNKNOWN, nil
	}
	s.Errors++
	s.lastErr = line
	s.start()
	return UNKNOWN, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel(vs []int32) (map[uint64]uint64, error) {
	m := make(map[uint64]uint64)
	if len(vs) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		fmt.Fprintf(&sb, "v%d ", v)
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	s.in.Flush()
	txt, err := readSexp(s.out)
	if err != nil {
		return nil, err
	}
	return parseModel(txt, s.x)
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
		}
		if depth > 0 {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(txt string, x *Ctx) (map[uint64]uint64, error) {
	return parseModelWith(txt, x, parseVal)
}

func parseModelWith(txt string, x *Ctx, parseVal func([]string) uint64) (map[uint64]uint64, error) {
	if strings.HasPrefix(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	m := make(map[uint64]uint64)
	toks := tokenize(txt)
	// ((v1 #x..) (v2 ...))
	i := 0
	next := func() string {
		if i < len(toks) {
			i++
			return toks[i-1]
		}
		return ""
	}
	if next() != "(" {
		return nil, fmt.Errorf("bad model %q", txt)
	}
	for i < len(toks) && toks[i] == "(" {
		next()
		name := next()
		vi, err := strconv.ParseUint(strings.TrimPrefix(name, "v"), 10, 64)
		if err != nil {
			return nil, err
		}
		// value
		var val []string
		depth := 0
		for {
			t := next()
			if t == "" {
				return nil, fmt.Errorf("bad model")
			}
			if t == "(" {
				depth++
			}
			if t == ")" {
				if depth == 0 {
					break
				}
				depth--
			}
			val = append(val, t)
		}
		m[vi] = parseVal(val)
	}
	return m, nil
}

func parseVal(t []string) uint64 {
	p1 := func(s string) uint64 {
		switch {
		case s == "true":
			return 1
		case s == "false":
			return 0
		case strings.HasPrefix(s, "#x"):
			v, _ := strconv.ParseUint(s[2:], 16, 64)
			return v
		case strings.HasPrefix(s, "#b"):
			v, _ := strconv.ParseUint(s[2:], 2, 64)
			return v
		}
		return 0
	}
	if len(t) == 1 {
		return p1(t[0])
	}
	// (fp #b0 #b.. #x..)  or (_ +zero 11 53) etc
	if len(t) >= 5 && t[1] == "fp" {
		return p1(t[2])<<63 | p1(t[3])<<52 | p1(t[4])
	}
	if len(t) >= 3 && t[1] == "_" {
		switch t[2] {
		case "+zero":
			return 0
		case "-zero":
			return 1 << 63
		case "+oo":
			return 0x7ff << 52
		case "-oo":
			return 0xfff << 52
		case "NaN":
			return 0x7ff8 << 48
		}
		if strings.HasPrefix(t[2], "bv") {
			v, _ := strconv.ParseUint(t[2][2:], 10, 64)
			return v
		}
	}
	return 0
}

func tokenize(s string) []string {
	var r []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

var fbGen int32 = 1 << 24

func (s *Solver) fallback(cs []*Expr) (SatRes, map[uint64]uint64) {
	slow := s.slowMs
	if slow <= 0 {
		return UNKNOWN, nil
	}
	if !s.deadline.IsZero() {
		left := int(time.Until(s.deadline) / time.Millisecond)
		if left < 1000 {
			return UNKNOWN, nil
		}
		if left < slow {
			slow = left
		}
	}
	// emit with a private generation; afterwards the incremental process must
	// be restarted, because marks were overwritten
	fbGen++
	var sb strings.Builder
	logic := "QF_BV"
	if hasFP(cs, s.x) {
		logic = "QF_BVFP"
	}
	for _, c := range cs {
		s.x.Emit(&sb, c, fbGen)
	}
	defs := sb.String()
	sb.Reset()
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", s.x.ref(c))
	}
	sb.WriteString("(check-sat)\n")
	vs := s.varsOf(cs)
	if len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vs {
			fmt.Fprintf(&sb, "v%d ", v)
		}
		sb.WriteString("))\n")
	}
	s.start()
	script := "(set-option :produce-models true)\n(set-logic " + logic + ")\n" + defs + sb.String()
	type ans struct {
		r SatRes
		m map[uint64]uint64
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(slow)*time.Millisecond)
	defer cancel()
	ch := make(chan ans, 3)
	run := func(name string, args ...string) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(script)
		out, _ := cmd.Output()
		txt := string(out)
		first := txt
		if i := strings.IndexByte(txt, '\n'); i >= 0 {
			first = txt[:i]
		}
		first = strings.TrimSpace(first)
		switch first {
		case "unsat":
			ch <- ans{UNSAT, nil}
			return
		case "sat":
			rest := txt[strings.IndexByte(txt, '\n')+1:]
			if len(vs) == 0 {
				ch <- ans{SAT, map[uint64]uint64{}}
				return
			}
			if m, err := parseModel(strings.TrimSpace(rest), s.x); err == nil {
				ch <- ans{SAT, m}
				return
			}
		}
		ch <- ans{UNKNOWN, nil}
	}
	if d := os.Getenv("SYMGO_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, fbGen), []byte(script), 0644)
	}
	n := 2
	go run("z3-new", "-in", "-smt2")
	go run("cvc5", "--lang", "smt2", "--produce-models", "-")
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r != UNKNOWN {
			return a.r, a.m
		}
	}
	return UNKNOWN, nil
}

// dumpSlow writes a query as a standalone script (development aid)
func (s *Solver) dumpSlow(dir string, cs []*Expr, dt time.Duration) {
	fbGen++
	var sb strings.Builder
	logic := "QF_BV"
	if hasFP(cs, s.x) {
		logic = "QF_BVFP"
	}
	sb.WriteString("(set-logic " + logic + ")\n")
	for _, c := range cs {
		s.x.Emit(&sb, c, fbGen)
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", s.x.ref(c))
	}
	sb.WriteString("(check-sat)\n")
	os.WriteFile(fmt.Sprintf("%s/s%05d_%d.smt2", dir, dt.Milliseconds(), fbGen), []byte(sb.String()), 0644)
	s.start()
}
