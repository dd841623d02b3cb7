package main

import "math/big"

// A witness is an assignment of integers to atoms that satisfies the facts
// about them. It shows that a goal is not refuted without elimination.
type witness struct {
	v map[*Atom]i128
}

type stateWit struct {
	w      *witness
	nf, nn int // facts and disequalities that are known to hold
}

// eval returns the value of l, or ok == false if an atom is unknown.
func (w *witness) eval(l Lin) (r i128, ok bool) {
	r, ok = i128big(l.c)
	if !ok {
		return
	}
	for _, x := range l.t {
		v, has := w.v[x.a]
		if !has || !x.k.IsInt64() {
			return r, false
		}
		k := x.k.Int64()
		if k >= coefMax || k <= -coefMax {
			return r, false
		}
		p, fits := v.mul(k)
		if !fits {
			return r, false
		}
		r = r.add(p)
		if !r.small() {
			return r, false
		}
	}
	return r, true
}

func (w *witness) sat(c Con) bool {
	r, ok := w.eval(c.l)
	if !ok {
		return false
	}
	if c.eq {
		return r.sign() == 0
	}
	return r.sign() >= 0
}

// holds checks all constraints.
func (w *witness) holds(cons []Con) bool {
	for i := range cons {
		if !w.sat(cons[i]) {
			return false
		}
	}
	return true
}

func (s *State) addWit(w *witness) {
	for i := range s.wits {
		if s.wits[i].w == w {
			return
		}
	}
	// Disequalities must hold as well.
	for _, d := range s.ne {
		if !w.neOK(d) {
			return
		}
	}
	n := append([]stateWit{}, s.wits...)
	if len(n) >= 10 {
		n = n[1:]
	}
	s.wits = append(n, stateWit{w, len(s.facts), len(s.ne)})
}

func (w *witness) neOK(d Lin) bool {
	for _, x := range d.t {
		if _, has := w.v[x.a]; !has {
			return true
		}
	}
	r, ok := w.eval(d)
	return ok && r.sign() != 0
}

// witnessed reports whether some witness of the state satisfies the goal.
func (s *State) witnessed(goal []Con) bool {
	for i := len(s.wits) - 1; i >= 0; i-- {
		sw := s.wits[i]
		ok := true
		for _, f := range s.facts[sw.nf:] {
			hit := false
			for _, x := range f.l.t {
				if _, has := sw.w.v[x.a]; has {
					hit = true
					break
				}
			}
			if hit && !sw.w.sat(f) {
				ok = false
				break
			}
		}
		if ok {
			for _, d := range s.ne[sw.nn:] {
				if !sw.w.neOK(d) {
					ok = false
					break
				}
			}
		}
		n := append([]stateWit{}, s.wits...)
		if !ok {
			s.wits = append(n[:i:i], n[i+1:]...)
			continue
		}
		if sw.nf != len(s.facts) || sw.nn != len(s.ne) {
			n[i].nf, n[i].nn = len(s.facts), len(s.ne)
			s.wits = n
		}
		if sw.w.holds(goal) {
			return true
		}
	}
	return false
}

// divCeil and divFloor for bounds.
func (a i128) divCeil(g int64) i128 {
	q, exact := a.divFloor(g)
	if !exact {
		q = q.add(i128of(1))
	}
	return q
}

var _ = big.NewInt
