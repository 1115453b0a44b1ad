package x

import "verif.local/h/nd"

// Ord is a reference for large ordered containers: entries in increasing key
// order, equal keys (Multi) in insertion order. Its keys are concrete.
type Ord struct {
	S     []E
	Multi bool
}

func (o *Ord) search(k int, after bool) int {
	i, j := 0, len(o.S)
	for i < j {
		m := (i + j) / 2
		if o.S[m].K < k || after && o.S[m].K == k {
			i = m + 1
		} else {
			j = m
		}
	}
	return i
}

// Lower is the position of the first entry not less than k, Upper that of the
// first greater one.
func (o *Ord) Lower(k int) int { return o.search(k, false) }
func (o *Ord) Upper(k int) int { return o.search(k, true) }

// Put inserts; without Multi the value of an equal key is replaced if replace.
func (o *Ord) Put(k, v int, replace bool) {
	p := o.Upper(k)
	if !o.Multi && p > 0 && o.S[p-1].K == k {
		if replace {
			o.S[p-1].ID = v
		}
		return
	}
	o.S = append(o.S, E{})
	copy(o.S[p+1:], o.S[p:])
	o.S[p] = E{k, v}
}

// Cut removes the entries from p to q.
func (o *Ord) Cut(p, q int) { o.S = append(o.S[:p], o.S[q:]...) }

// Del removes all entries of the key.
func (o *Ord) Del(k int) { o.Cut(o.Lower(k), o.Upper(k)) }

// IsLower: p is the position of the first entry not less than any key q.
func (o *Ord) IsLower(p, q int) bool {
	ok := p >= 0 && p <= len(o.S)
	if ok && p > 0 {
		ok = nd.And(ok, o.S[p-1].K < q)
	}
	if p >= 0 && p < len(o.S) {
		ok = nd.And(ok, o.S[p].K >= q)
	}
	return ok
}

// IsUpper: p is the position of the first entry greater than any key q.
func (o *Ord) IsUpper(p, q int) bool {
	ok := p >= 0 && p <= len(o.S)
	if ok && p > 0 {
		ok = nd.And(ok, o.S[p-1].K <= q)
	}
	if p >= 0 && p < len(o.S) {
		ok = nd.And(ok, o.S[p].K > q)
	}
	return ok
}

// Pos is the position of the entry with value id and any key, len(S) if there
// is none.
func (o *Ord) Pos(id int) int {
	for i, e := range o.S {
		if e.ID == id {
			return i
		}
	}
	return len(o.S)
}
