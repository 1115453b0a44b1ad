// Package c25: goroutine-safe containers under every schedule.
package c25

import "verif.local/h/nd"

// inst performs operation op with key a and value v on one container and
// gives the results. Operation -1 dumps the contents with calls that need
// every lock.
type inst func(op, a, v int) []int

// call is one operation of a thread.
type call struct{ op, a, v int }

var crash = []int{-1 << 40}

func (c call) on(x inst) (r []int) {
	if nd.Panics(func() { r = x(c.op, c.a, c.v) }) {
		return crash
	}
	return r
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = nd.And(ok, a[i] == b[i])
	}
	return ok
}

// linear runs the threads concurrently on one container under every schedule
// and compares what each call returned and what is left with every order of
// the calls, one at a time, that agrees with real time.
func linear(mk func() inst, threads [][]call) {
	x := mk()
	n := len(threads)
	res := make([][][]int, n)
	beg := make([][]int, n)
	end := make([][]int, n)
	for t := range threads {
		t := t
		k := len(threads[t])
		res[t], beg[t], end[t] = make([][]int, k), make([]int, k), make([]int, k)
	}
	for t := range threads {
		t := t
		nd.Go(func() {
			for i, c := range threads[t] {
				if i > 0 {
					nd.Sched()
				}
				beg[t][i] = nd.Stamp()
				res[t][i] = c.on(x)
				end[t][i] = nd.Stamp()
			}
		})
	}
	nd.Join()
	rest := call{op: -1}.on(x)

	found := false
	at := make([]int, n)
	var order []int
	var walk func()
	walk = func() {
		done := true
		for t := range threads {
			if at[t] == len(threads[t]) {
				continue
			}
			done = false
			early := false // a call not yet made had ended before this one began
			for u := range threads {
				if u != t && at[u] < len(threads[u]) && end[u][at[u]] < beg[t][at[t]] {
					early = true
				}
			}
			if early {
				continue
			}
			at[t]++
			order = append(order, t)
			walk()
			order = order[:len(order)-1]
			at[t]--
		}
		if !done {
			return
		}
		y := mk()
		next := make([]int, n)
		ok := true
		for _, t := range order {
			i := next[t]
			next[t]++
			ok = nd.And(ok, same(threads[t][i].on(y), res[t][i]))
		}
		ok = nd.And(ok, same(call{op: -1}.on(y), rest))
		found = nd.Or(found, ok)
	}
	walk()
	nd.Assert(found, "the results fit no order of the calls one at a time")
}

// thing is a kind of container: its instances with pre elements, how many
// operations there are, and those that tell most.
type thing struct {
	mk   func(pre int) inst
	n    int
	core []int
}

var pres = []int{1, 0, 2, 3, 18}

func arg() int { return nd.IntIn(0, 2) }

// pair runs every two operations against each other.
func (g thing) pair() {
	pre := pres[nd.Choice(nd.Param("pres", 5, 5))]
	p := nd.Choice(g.n)
	q := nd.ChoiceIn(p, g.n-1)
	a, b := arg(), arg()
	linear(func() inst { return g.mk(pre) }, [][]call{{{p, a, 101}}, {{q, b, 202}}})
}

// more runs longer threads and more of them on the core operations.
func (g thing) more() {
	pre := pres[nd.Choice(nd.Param("pres", 2, 4))]
	m := len(g.core)
	pick := func() int { return g.core[nd.Choice(m)] }
	switch nd.Choice(nd.Param("shapes", 2, 3)) {
	case 0:
		a, b := arg(), arg()
		linear(func() inst { return g.mk(pre) }, [][]call{{{pick(), a, 101}, {pick(), b, 102}}, {{pick(), a, 201}}})
	case 1:
		a := arg()
		p := nd.Choice(m)
		q := nd.ChoiceIn(p, m-1)
		r := nd.ChoiceIn(q, m-1)
		linear(func() inst { return g.mk(pre) }, [][]call{{{g.core[p], a, 101}}, {{g.core[q], 1, 201}}, {{g.core[r], a, 301}}})
	default:
		a, b := arg(), arg()
		linear(func() inst { return g.mk(pre) }, [][]call{{{pick(), a, 101}, {pick(), b, 102}}, {{pick(), a, 201}, {pick(), b, 202}}})
	}
}

func b2i(b bool) int { return nd.B2I(b) }

func runes(s string) []int {
	r := []int{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}
