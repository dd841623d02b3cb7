package main

import "math/big"

// The same elimination with 128 bit coefficients, for constraints that involve
// arithmetic modulo 2^64.

var one128, minus128 = i128of(1), i128of(-1)

func (a i128) abs() i128 {
	if a.hi < 0 {
		return a.neg()
	}
	return a
}

func (a i128) big() *big.Int {
	n := a.hi < 0
	a = a.abs()
	r := new(big.Int).Lsh(big.NewInt(a.hi), 64)
	r.Or(r, new(big.Int).SetUint64(a.lo))
	if n {
		r.Neg(r)
	}
	return r
}

func (a i128) sg(s i128) i128 {
	if s.hi < 0 {
		return a.neg()
	}
	return a
}

func (a i128) isInt64() bool { return a.hi == int64(a.lo)>>63 }

func (a i128) mulW(b i128) (i128, bool) {
	if b.isInt64() && b.lo != 1<<63 {
		return a.mul(int64(b.lo))
	}
	if a.isInt64() && a.lo != 1<<63 {
		return b.mul(int64(a.lo))
	}
	return a, false
}

func gcd128(a, b i128) i128 {
	if a.sign() == 0 {
		return b
	}
	if b.sign() == 0 {
		return a
	}
	if a.hi == 0 && b.hi == 0 && int64(a.lo) > 0 && int64(b.lo) > 0 {
		return i128of(gcd64(int64(a.lo), int64(b.lo)))
	}
	r, _ := i128big(new(big.Int).GCD(nil, nil, a.big(), b.big()))
	return r
}

type fmRowW struct {
	k []i128
	c i128
	h uint64
}

type fmW struct {
	n    int
	rows []fmRowW
	idx  []int32 // hash table: row index + 1
	pool []i128
	slab [][]i128
	ns   int
	over bool
	bad  bool
}

var fmPoolW = &fmW{}

func (f *fmW) reset(n int) {
	f.n = n
	f.rows = f.rows[:0]
	f.over, f.bad = false, false
	f.ns = 0
	f.pool = nil
	f.clearIdx(64)
}

func (f *fmW) clearIdx(n int) {
	if cap(f.idx) < n {
		f.idx = make([]int32, n)
		return
	}
	f.idx = f.idx[:n]
	for i := range f.idx {
		f.idx[i] = 0
	}
}

func (f *fmW) newRow() []i128 {
	if len(f.pool) < f.n {
		if f.ns == len(f.slab) {
			f.slab = append(f.slab, make([]i128, 1<<13))
		}
		f.pool = f.slab[f.ns]
		f.ns++
	}
	r := f.pool[:f.n:f.n]
	f.pool = f.pool[f.n:]
	for i := range r {
		r[i] = i128{}
	}
	return r
}

// norm divides a row by the gcd of its coefficients.
func (f *fmW) norm(r *fmRowW, eq bool) (trivial bool) {
	var g i128
	for _, k := range r.k {
		if k.sign() != 0 {
			k = k.abs()
			if k == one128 {
				g = k
				break
			}
			g = gcd128(g, k)
		}
	}
	if g.sign() == 0 {
		s := r.c.sign()
		if s < 0 || (eq && s != 0) {
			f.bad = true
		}
		return true
	}
	if g != one128 {
		gb := g.big()
		for i := range r.k {
			if r.k[i].sign() != 0 {
				r.k[i], _ = i128big(new(big.Int).Quo(r.k[i].big(), gb))
			}
		}
		q, m := new(big.Int).DivMod(r.c.big(), gb, new(big.Int))
		if eq && m.Sign() != 0 {
			f.bad = true
			return true
		}
		r.c, _ = i128big(q)
	}
	h := uint64(14695981039346656037)
	for i, k := range r.k {
		if k.sign() != 0 {
			h = (h ^ k.lo ^ uint64(k.hi)) * 1099511628211
			h = (h ^ uint64(i)) * 1099511628211
		}
	}
	r.h = h ^ h>>29
	return false
}

func (f *fmW) grow() {
	f.clearIdx(4 * len(f.idx))
	m := uint64(len(f.idx) - 1)
	for i := range f.rows {
		p := f.rows[i].h & m
		for f.idx[p] != 0 {
			p = (p + 1) & m
		}
		f.idx[p] = int32(i + 1)
	}
}

// add inserts the inequality r >= 0.
func (f *fmW) add(r fmRowW) {
	if f.norm(&r, false) {
		return
	}
	if 2*len(f.rows) >= len(f.idx) {
		f.grow()
	}
	m := uint64(len(f.idx) - 1)
	p := r.h & m
	for f.idx[p] != 0 {
		o := &f.rows[f.idx[p]-1]
		if o.h == r.h {
			same := true
			for i, k := range r.k {
				if o.k[i] != k {
					same = false
					break
				}
			}
			if same {
				if r.c.less(o.c) {
					o.c = r.c
				}
				return
			}
		}
		p = (p + 1) & m
	}
	f.rows = append(f.rows, r)
	f.idx[p] = int32(len(f.rows))
}

// comb returns fx*x + fy*y.
func (f *fmW) comb(x *fmRowW, fx i128, y *fmRowW, fy i128) (r fmRowW) {
	r.k = f.newRow()
	for i := range r.k {
		a, b := x.k[i], y.k[i]
		if a.sign() == 0 && b.sign() == 0 {
			continue
		}
		l1, ok1 := a.mulW(fx)
		l2, ok2 := b.mulW(fy)
		s := l1.add(l2)
		if !ok1 || !ok2 || !s.small() {
			f.over = true
			return
		}
		r.k[i] = s
	}
	c1, ok1 := x.c.mulW(fx)
	c2, ok2 := y.c.mulW(fy)
	r.c = c1.add(c2)
	if !ok1 || !ok2 || !r.c.small() {
		f.over = true
	}
	return
}

// infeasibleWide returns ok == false if it cannot decide.
// If there is a solution it may return one.
func infeasibleWide(cons []Con) (infeas, ok bool, w *witness) {
	f := fmPoolW
	loc := map[*Atom]int{}
	for i := range cons {
		for _, x := range cons[i].l.t {
			if _, ok := loc[x.a]; !ok {
				loc[x.a] = len(loc)
			}
		}
	}
	f.reset(len(loc))
	var eqs []fmRowW
	for i := range cons {
		c := &cons[i]
		r := fmRowW{k: f.newRow()}
		var ok bool
		r.c, ok = i128big(c.l.c)
		if !ok {
			return false, false, nil
		}
		for _, x := range c.l.t {
			v, ok := i128big(x.k)
			if !ok {
				return false, false, nil
			}
			r.k[loc[x.a]] = v
		}
		if c.eq {
			if f.norm(&r, true) {
				if f.bad {
					return true, true, nil
				}
				continue
			}
			eqs = append(eqs, r)
		} else {
			f.add(r)
			if f.bad {
				return true, true, nil
			}
		}
	}
	alive := make([]bool, f.n)
	for i := range alive {
		alive[i] = true
	}
	// Equalities with a unit coefficient are substituted away.
	for len(eqs) > 0 {
		best, bj := -1, -1
		for i := range eqs {
			for j, k := range eqs[i].k {
				if k == one128 || k == minus128 {
					best, bj = i, j
					break
				}
			}
			if best >= 0 {
				break
			}
		}
		if best < 0 {
			for i := range eqs {
				n := fmRowW{k: f.newRow(), c: eqs[i].c.neg()}
				for j, k := range eqs[i].k {
					n.k[j] = k.neg()
				}
				f.add(eqs[i])
				f.add(n)
			}
			if f.bad {
				return true, true, nil
			}
			break
		}
		e := eqs[best]
		eqs = append(eqs[:best:best], eqs[best+1:]...)
		sg := e.k[bj]
		w := 0
		for i := range eqs {
			r := eqs[i]
			if r.k[bj].sign() != 0 {
				r = f.comb(&r, one128, &e, r.k[bj].neg().sg(sg))
				if f.over {
					return false, false, nil
				}
				if f.norm(&r, true) {
					if f.bad {
						return true, true, nil
					}
					continue
				}
			}
			eqs[w] = r
			w++
		}
		eqs = eqs[:w]
		hit := false
		for i := range f.rows {
			if f.rows[i].k[bj].sign() != 0 {
				hit = true
				break
			}
		}
		alive[bj] = false
		if !hit {
			continue
		}
		old := f.rows
		f.rows = make([]fmRowW, 0, len(old))
		f.clearIdx(len(f.idx))
		for i := range old {
			r := old[i]
			if r.k[bj].sign() != 0 {
				r = f.comb(&r, one128, &e, r.k[bj].neg().sg(sg))
				if f.over {
					return false, false, nil
				}
			}
			f.add(r)
			if f.bad {
				return true, true, nil
			}
		}
	}
	pos, neg := make([]int, f.n), make([]int, f.n)
	for len(f.rows) > 0 {
		for j := range pos {
			pos[j], neg[j] = 0, 0
		}
		for i := range f.rows {
			for j, k := range f.rows[i].k {
				if k.sign() > 0 {
					pos[j]++
				} else if k.sign() < 0 {
					neg[j]++
				}
			}
		}
		// Variables bounded on one side only take all their constraints along.
		ba, cost := -1, 0
		for j := range pos {
			if pos[j]+neg[j] == 0 {
				continue
			}
			c := pos[j]*neg[j] - pos[j] - neg[j]
			if ba < 0 || c < cost {
				ba, cost = j, c
			}
		}
		if ba < 0 {
			break
		}
		if pos[ba]*neg[ba]+len(f.rows)-pos[ba]-neg[ba] > fmLimit {
			statFMBig++
			return false, true, nil
		}
		old := f.rows
		f.rows = make([]fmRowW, 0, len(old)+8)
		f.clearIdx(len(f.idx))
		var p, n []int
		for i := range old {
			switch k := old[i].k[ba].sign(); {
			case k > 0:
				p = append(p, i)
			case k < 0:
				n = append(n, i)
			default:
				f.add(old[i])
			}
		}
		for _, i := range p {
			for _, j := range n {
				x, y := &old[i], &old[j]
				kx, ky := x.k[ba], y.k[ba].neg()
				if kx != one128 && ky != one128 {
					if g := gcd128(kx, ky); g != one128 {
						kx, _ = i128big(new(big.Int).Quo(kx.big(), g.big()))
						ky, _ = i128big(new(big.Int).Quo(ky.big(), g.big()))
					}
				}
				r := f.comb(x, ky, y, kx)
				if f.over {
					return false, false, nil
				}
				f.add(r)
				if f.bad {
					return true, true, nil
				}
			}
		}
	}
	return false, true, nil
}
