package main

// Re-decides a random sample of the solver's queries with an independent
// solver (cvc5); a disagreement is an engine error.

import (
	"fmt"
	"math/rand"
	"os/exec"
	"strings"
	"time"
)

type crossQ struct {
	text string
	res  SatRes
}

type cross struct {
	qs   []crossQ
	seen int
	n    int
	unk  int
	wall time.Duration
}

func newCross(s *Solver, tb *TermTable, max int, rng *rand.Rand) *cross {
	c := &cross{}
	if max <= 0 {
		s.sample = nil
		return c
	}
	if _, err := exec.LookPath("cvc5"); err != nil {
		s.sample = nil
		return c
	}
	s.sample = func(pc []*Term, extra *Term, r SatRes) {
		if r == Unknown {
			return
		}
		c.seen++
		k := len(c.qs)
		if k >= max {
			k = rng.Intn(c.seen)
			if k >= max {
				return
			}
		}
		e := emitter{sb: &strings.Builder{}, named: map[uint32]bool{}}
		for _, t := range append(append([]*Term(nil), pc...), extra) {
			e.prepare(t)
			e.sb.WriteString("(assert ")
			e.ref(t, e.sb)
			e.sb.WriteString(")\n")
		}
		q := crossQ{e.sb.String(), r}
		if len(q.text) > 200000 {
			return
		}
		if k == len(c.qs) {
			c.qs = append(c.qs, q)
		} else {
			c.qs[k] = q
		}
	}
	return c
}

func (c *cross) finish() {
	if len(c.qs) == 0 {
		return
	}
	t0 := time.Now()
	var b strings.Builder
	for _, q := range c.qs {
		b.WriteString("(set-logic ALL)\n")
		b.WriteString(q.text)
		b.WriteString("(check-sat)\n(reset)\n")
	}
	cmd := exec.Command("cvc5", "--lang", "smt2", "--incremental", "--tlimit-per=3000", "-q")
	cmd.Stdin = strings.NewReader(b.String())
	out, _ := cmd.Output()
	lines := strings.Fields(string(out))
	for i, q := range c.qs {
		if i >= len(lines) {
			c.unk++
			continue
		}
		switch lines[i] {
		case "sat":
			if q.res != Sat {
				fatal("solver disagreement: cvc5 says sat, z3 unsat for\n%s", q.text)
			}
			c.n++
		case "unsat":
			if q.res != Unsat {
				fatal("solver disagreement: cvc5 says unsat, z3 sat for\n%s", q.text)
			}
			c.n++
		default:
			c.unk++
			if strings.HasPrefix(lines[i], "(error") {
				c.unk += len(c.qs) - i - 1
				c.wall = time.Since(t0)
				fmt.Println("note: cvc5 error:", string(out))
				return
			}
		}
	}
	c.wall = time.Since(t0)
}
