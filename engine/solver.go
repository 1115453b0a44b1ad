package main

// One long-lived incremental SMT solver process per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	em      emitter
	stack   []*Term
	queries int
	sat     int
	unsat   int
	unk     int
	wall    time.Duration
	trace   io.Writer
	tmo     int
	prog    string
	args    []string
	// cross-solver sampling
	sample func(pc []*Term, extra *Term, r SatRes)
}

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{tmo: timeoutMs}
	s.prog, s.args = "z3-new", []string{"-in"}
	if p := os.Getenv("SYMGO_SOLVER"); p != "" {
		f := strings.Fields(p)
		s.prog, s.args = f[0], f[1:]
	}
	if _, err := exec.LookPath(s.prog); err != nil {
		s.prog, s.args = "z3", []string{"-in"}
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.prog, s.args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver: %v", err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.em = emitter{sb: &strings.Builder{}, named: map[uint32]bool{}}
	s.stack = nil
	var pre string
	if strings.Contains(s.prog, "cvc5") {
		pre = "(set-option :produce-models true)\n(set-option :global-declarations true)\n(set-logic ALL)\n"
	} else {
		pre = fmt.Sprintf("(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.tmo)
	}
	s.send(pre)
}

func (s *Solver) send(str string) {
	if s.trace != nil {
		io.WriteString(s.trace, str)
	}
	io.WriteString(s.in, str)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset restarts the process (used when the term table is flushed).
func (s *Solver) Reset() {
	s.Close()
	s.start()
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	sb := s.em.sb
	if len(s.stack) > n {
		fmt.Fprintf(sb, "(pop %d)\n", len(s.stack)-n)
	}
	s.stack = s.stack[:n]
	for _, t := range pc[n:] {
		s.em.prepare(t)
		sb.WriteString("(push 1)\n(assert ")
		s.em.ref(t, sb)
		sb.WriteString(")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides PC /\ extra. On Sat, fills model for the vars given.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatRes, []uint64) {
	t0 := time.Now()
	s.queries++
	s.sync(pc)
	sb := s.em.sb
	s.em.prepare(extra)
	sb.WriteString("(push 1)\n(assert ")
	s.em.ref(extra, sb)
	sb.WriteString(")\n(check-sat)\n")
	s.send(sb.String())
	sb.Reset()
	line := s.readLine()
	var model []uint64
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.sat++
		var q strings.Builder
		var asked []*Term
		for _, v := range vars {
			if s.em.named[v.id] {
				asked = append(asked, v)
			}
		}
		mx := -1
		for _, v := range vars {
			if int(v.val) > mx {
				mx = int(v.val)
			}
		}
		model = make([]uint64, mx+1)
		if len(asked) > 0 {
			q.WriteString("(get-value (")
			for _, v := range asked {
				q.WriteString(varName(v))
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			s.send(q.String())
			s.parseValues(s.readSexp(), model)
		}
	case "unsat":
		res = Unsat
		s.unsat++
	default:
		s.unk++
		if line != "unknown" && line != "timeout" {
			fmt.Fprintf(os.Stderr, "solver said: %s\n", line)
			if line == "" { // died
				s.Reset()
				s.wall += time.Since(t0)
				return Unknown, nil
			}
		}
	}
	s.send("(pop 1)\n")
	s.wall += time.Since(t0)
	if s.sample != nil {
		s.sample(pc, extra, res)
	}
	return res, model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l != "" {
			if strings.HasPrefix(l, "(error") {
				fatal("solver error: %s", l)
			}
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			fatal("solver died while reading model")
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	r := b.String()
	if strings.HasPrefix(strings.TrimSpace(r), "(error") {
		fatal("solver error: %s", r)
	}
	return r
}

func (s *Solver) parseValues(str string, model []uint64) {
	// ((v0_64 #x...) (v1_0 true) ...)
	f := strings.FieldsFunc(str, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		name, val := f[i], f[i+1]
		if val == "_" { // (_ bvN w)
			val = f[i+2]
			i += 2
		}
		us := strings.IndexByte(name, '_')
		idx, err := strconv.Atoi(name[1:us])
		if err != nil {
			fatal("bad model %q", str)
		}
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		case strings.HasPrefix(val, "bv"):
			v, err = strconv.ParseUint(val[2:], 10, 64)
		default:
			fatal("bad model value %q in %q", val, str)
		}
		if err != nil {
			fatal("bad model value %q", val)
		}
		if idx < len(model) {
			model[idx] = v
		}
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ENGINE ERROR: "+f+"\n", a...)
	os.Exit(2)
}
