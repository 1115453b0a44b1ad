package main

// Threads of the code under test: schedule choices are explored by forking;
// a vector-clock detector reports unsynchronised accesses.

import (
	"fmt"
	"go/token"
)

func (m *Machine) spawn(d deferred) int {
	cur := m.cur
	th := &Thread{id: len(m.threads), joinOn: -1}
	f := m.pushFrame(th, d.fn, -1)
	copy(f.regs, d.args)
	copy(f.regs[d.fn.nparams:], d.free)
	if cur.vc == nil {
		cur.vc = []uint32{1}
	}
	th.vc = append([]uint32(nil), cur.vc...)
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	th.vc[th.id]++
	m.tick(cur)
	m.threads = append(m.threads, th)
	return th.id
}

func (m *Machine) tick(t *Thread) {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (m *Machine) runnable(t *Thread) bool {
	if t.done || t.blocked {
		return false
	}
	if t.joinOn >= 0 {
		for _, o := range m.threads {
			if o != t && !o.done {
				return false
			}
		}
	}
	return true
}

// schedule picks the next thread to run (current one first).
func (m *Machine) schedule() {
	var en []*Thread
	if m.runnable(m.cur) {
		en = append(en, m.cur)
	}
	for _, t := range m.threads {
		if t != m.cur && m.runnable(t) {
			en = append(en, t)
		}
	}
	if len(en) == 0 {
		m.flushAsserts()
		m.violated("deadlock", "deadlock: every goroutine is blocked", m.model)
		panic(pathAbort{kind: "violation"})
	}
	k := 0
	if len(en) > 1 {
		k = m.choice(len(en), "sched")
	}
	t := en[k]
	if t.joinOn >= 0 {
		for _, o := range m.threads {
			t.vc = joinVC(t.vc, o.vc)
		}
		t.joinOn = -1
		m.threads = m.threads[:1]
		m.hbClocks = nil
	}
	m.cur = t
	m.swtch = true
}

func (m *Machine) threadExit(t *Thread) {
	m.schedule()
}

func (m *Machine) hb(o *Obj) []hbCell {
	if o.hb == nil {
		o.hb = make([]hbCell, len(o.cells))
	}
	return o.hb
}

func (m *Machine) raceR(fr *Frame, o *Obj, off, n int, pos token.Pos) {
	if fr.fn.norace || len(o.cells) == 0 {
		return
	}
	t := m.cur
	h := m.hb(o)
	for i := off; i < off+n && i < len(h); i++ {
		c := &h[i]
		if c.wt > 0 && int(c.wt-1) != t.id && (int(c.wt-1) >= len(t.vc) || t.vc[c.wt-1] < c.wc) {
			m.raceFound("read", fr, pos, "write", c.wpos)
		}
		for len(c.r) <= t.id {
			c.r = append(c.r, 0)
		}
		c.r[t.id] = t.vc[t.id]
		c.rpos = pos
	}
}

func (m *Machine) raceW(fr *Frame, o *Obj, off, n int, pos token.Pos) {
	if fr.fn.norace || len(o.cells) == 0 {
		return
	}
	t := m.cur
	h := m.hb(o)
	for i := off; i < off+n && i < len(h); i++ {
		c := &h[i]
		if c.wt > 0 && int(c.wt-1) != t.id && (int(c.wt-1) >= len(t.vc) || t.vc[c.wt-1] < c.wc) {
			m.raceFound("write", fr, pos, "write", c.wpos)
		}
		for j, rc := range c.r {
			if j != t.id && rc > 0 && (j >= len(t.vc) || t.vc[j] < rc) {
				m.raceFound("write", fr, pos, "read", c.rpos)
			}
		}
		c.wt, c.wc, c.wpos = int32(t.id+1), t.vc[t.id], pos
	}
}

func (m *Machine) raceFound(k1 string, fr *Frame, p1 token.Pos, k2 string, p2 token.Pos) {
	fs := m.sh.P.fset
	s := func(p token.Pos) string {
		q := fs.Position(p)
		return fmt.Sprintf("%s:%d", shortPath(q.Filename), q.Line)
	}
	m.flushAsserts()
	m.violated("race", fmt.Sprintf("data race: %s in %s (%s) unordered with an earlier %s (%s)", k1, fr.fn.name, s(p1), k2, s(p2)), m.model)
	panic(pathAbort{kind: "violation"})
}

// ptrKey identifies the cell an interface value holding a pointer points to.
func ptrKey(v Value) hbKey {
	p := v.P.(*Iface).v
	return hbKey{p.P.(*Obj), p.N}
}

func (m *Machine) hbAcquire(p Value) {
	k := ptrKey(p)
	m.cur.vc = joinVC(m.cur.vc, m.hbClocks[k])
}
func (m *Machine) hbRelease(p Value) {
	if m.hbClocks == nil {
		m.hbClocks = map[hbKey][]uint32{}
	}
	k := ptrKey(p)
	m.hbClocks[k] = joinVC(append([]uint32(nil), m.hbClocks[k]...), m.cur.vc)
	m.tick(m.cur)
}
