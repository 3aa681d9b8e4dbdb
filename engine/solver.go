package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental SMT-LIB2 process.
type Solver struct {
	argv     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	gen      uint32
	stack    []*Term // asserted constraints, one push level each
	defs     int
	queries  int
	sat      int
	unsat    int
	unknown  int
	dur      time.Duration
	timeout  int // ms per query
	deadline time.Time
	shortMS  int // the limit the solver has been told
}

// firstMS limits an incremental query; a query beyond it gets a fresh solver
// for bit-vectors, which handles hard arithmetic better.
const firstMS = 4000

// left is how long a query may take, at most ms.
func (s *Solver) left(ms int) int {
	if s.deadline.IsZero() {
		return ms
	}
	if l := int(time.Until(s.deadline)/time.Millisecond) + 500; l < ms {
		return l
	}
	return ms
}

// limit prepares the next incremental query, unless time is up.
func (s *Solver) limit(most int) bool {
	ms := s.left(most)
	if ms <= 0 {
		s.unknown++
		return false
	}
	if ms < most {
		ms = (ms + 499) / 500 * 500
	}
	if ms != s.shortMS && strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
		s.shortMS = ms
	}
	return true
}

// oneShot decides the disjunction of conjunctions with a fresh solver.
func (s *Solver) oneShot(conjs [][]*Term, vars []*Term) (string, []uint64) {
	ms := s.left(s.timeout)
	if ms < 500 || !strings.Contains(s.argv[0], "z3") {
		return "unknown", nil
	}
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	var emit func(t *Term)
	emit = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			fmt.Fprintf(&b, "(declare-const v%d %s)\n", t.id, sortName(t.w))
			return
		}
		emit(t.a)
		emit(t.b)
		emit(t.c)
		fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	}
	for _, c := range conjs {
		for _, t := range c {
			emit(t)
		}
	}
	for _, v := range vars {
		emit(v)
	}
	if len(conjs) == 1 {
		for _, t := range conjs[0] {
			fmt.Fprintf(&b, "(assert %s)\n", t.ref())
		}
	} else {
		b.WriteString("(assert (or false")
		for _, c := range conjs {
			b.WriteString(" (and true")
			for _, t := range c {
				b.WriteByte(' ')
				b.WriteString(t.ref())
			}
			b.WriteByte(')')
		}
		b.WriteString("))\n")
	}
	b.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(v.ref())
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
	}
	cmd := exec.Command(s.argv[0], fmt.Sprintf("-T:%d", (ms+999)/1000), "-in")
	cmd.Stdin = strings.NewReader(b.String())
	out, _ := cmd.Output()
	res, rest, _ := strings.Cut(string(out), "\n")
	switch res = strings.TrimSpace(res); res {
	case "sat":
		if len(vars) == 0 {
			return res, nil
		}
		t := Solver{out: bufio.NewReader(strings.NewReader(rest))}
		return res, t.readModel(len(vars))
	case "unsat":
		return res, nil
	}
	return "unknown", nil
}

var solverGen uint32 = 1

func newSolver(argv []string, timeoutMS int) *Solver {
	s := &Solver{argv: argv, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.stack = s.stack[:0]
	s.defs = 0
	s.shortMS = 0
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	var w io.Writer = in
	if d := os.Getenv("SMT_LOG"); d != "" {
		f, _ := os.CreateTemp(d, "smt*.smt2")
		w = io.MultiWriter(in, f)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if !strings.Contains(s.argv[0], "z3") {
		// z3 answers these incremental queries far faster without a logic.
		fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst || t.emitted == s.gen {
		return
	}
	if t.op == OpVar {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.id, sortName(t.w))
	} else {
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x != nil {
				s.emit(x)
			}
		}
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	}
	t.emitted = s.gen
	s.defs++
}

func (s *Solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineError("solver died: " + err.Error() + " " + line))
	}
	return strings.TrimSpace(line)
}

type engineError string

func (e engineError) Error() string { return string(e) }

// check decides PC ∧ extra. On sat, it returns values for vars.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (res string, model []uint64) {
	start := time.Now()
	defer func() { s.dur += time.Since(start) }()
	if s.defs > 60000 {
		s.close()
		s.start()
	}
	if !s.limit(firstMS) {
		return "unknown", nil
	}
	// Sync the assertion stack.
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, c := range pc[n:] {
		s.emit(c)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", c.ref())
		s.stack = append(s.stack, c)
	}
	s.emit(extra)
	for _, v := range vars {
		s.emit(v)
	}
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n", extra.ref())
	s.in.Flush()
	s.queries++
	res = s.readLine()
	switch res {
	case "sat":
		s.sat++
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteString(v.ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			model = s.readModel(len(vars))
		}
	case "unsat":
		s.unsat++
	case "unknown", "timeout":
		res, model = s.oneShot([][]*Term{append(append([]*Term(nil), pc...), extra)}, vars)
		s.count(res)
	default:
		panic(engineError("solver said: " + res))
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, model
}

// checkAny decides pc ∧ (any of the groups' conjunctions).
func (s *Solver) checkAny(pc []*Term, groups [][]*Term) string {
	start := time.Now()
	defer func() { s.dur += time.Since(start) }()
	if s.defs > 60000 {
		s.close()
		s.start()
	}
	if !s.limit(3 * firstMS) {
		return "unknown"
	}
	if len(s.stack) > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack))
		s.stack = s.stack[:0]
	}
	for _, c := range pc {
		s.emit(c)
	}
	for _, g := range groups {
		for _, c := range g {
			s.emit(c)
		}
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range pc {
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	s.in.WriteString("(assert (or")
	for _, g := range groups {
		s.in.WriteString(" (and true")
		for _, c := range g {
			s.in.WriteByte(' ')
			s.in.WriteString(c.ref())
		}
		s.in.WriteByte(')')
	}
	s.in.WriteString(" false))\n(check-sat)\n(pop 1)\n")
	s.in.Flush()
	s.queries++
	res := s.readLine()
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	case "unknown", "timeout":
		// The paths are decided one by one.
		s.count("unknown")
		res = "unknown"
	default:
		panic(engineError("solver said: " + res))
	}
	return res
}

func (s *Solver) count(res string) {
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
	}
}

// readModel parses ((v1 #x..) (v2 true) ...) in order.
func (s *Solver) readModel(n int) []uint64 {
	depth := 0
	var sb strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic(engineError("solver died in get-value"))
		}
		if depth == 0 && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		sb.WriteByte(c)
		if depth == 0 {
			break
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic(engineError(txt))
	}
	model := make([]uint64, 0, n)
	// Tokens: each entry is (name value).
	i := 1
	for i < len(txt) {
		for i < len(txt) && txt[i] != '(' {
			i++
		}
		if i >= len(txt) {
			break
		}
		i++
		for txt[i] != ' ' && txt[i] != '\n' {
			i++
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		var v uint64
		switch {
		case strings.HasPrefix(txt[i:], "true"):
			v = 1
			i += 4
		case strings.HasPrefix(txt[i:], "false"):
			i += 5
		case strings.HasPrefix(txt[i:], "#x"):
			j := i + 2
			for txt[j] != ')' {
				j++
			}
			v, _ = strconv.ParseUint(txt[i+2:j], 16, 64)
			i = j
		case strings.HasPrefix(txt[i:], "#b"):
			j := i + 2
			for txt[j] != ')' {
				j++
			}
			v, _ = strconv.ParseUint(txt[i+2:j], 2, 64)
			i = j
		case strings.HasPrefix(txt[i:], "(_ bv"):
			j := i + 5
			for txt[j] != ' ' {
				j++
			}
			v, _ = strconv.ParseUint(txt[i+5:j], 10, 64)
			for txt[j] != ')' {
				j++
			}
			i = j + 1
		default:
			panic(engineError("cannot parse model: " + txt[i:]))
		}
		model = append(model, v)
		i++
	}
	if len(model) != n {
		panic(engineError(fmt.Sprintf("model has %d values, want %d: %s", len(model), n, txt)))
	}
	return model
}
