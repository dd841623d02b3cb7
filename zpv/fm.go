package main

import (
	"math/big"
	"math/bits"
)

// Fourier-Motzkin elimination on machine integers. Coefficients are int64 and
// constants 128 bit; anything that would overflow makes the caller use the
// arbitrary precision version instead.

type i128 struct {
	hi int64
	lo uint64
}

func i128of(n int64) i128 {
	return i128{n >> 63, uint64(n)}
}

func (a i128) neg() i128 {
	lo, c := bits.Add64(^a.lo, 1, 0)
	return i128{int64(uint64(^a.hi) + c), lo}
}

func (a i128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}

// small reports whether a is well inside the 128 bit range.
func (a i128) small() bool { return a.hi < 1<<60 && a.hi > -(1<<60) }

func (a i128) add(b i128) i128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return i128{int64(uint64(a.hi) + uint64(b.hi) + c), lo}
}

func (a i128) less(b i128) bool {
	if a.hi != b.hi {
		return a.hi < b.hi
	}
	return a.lo < b.lo
}

// mul multiplies by k, ok is false if the product may not fit.
func (a i128) mul(k int64) (i128, bool) {
	if k == 1 {
		return a, true
	}
	neg := false
	if a.hi < 0 {
		a = a.neg()
		neg = true
	}
	if k < 0 {
		k = -k
		neg = !neg
	}
	h, l := bits.Mul64(a.lo, uint64(k))
	hh, hl := bits.Mul64(uint64(a.hi), uint64(k))
	if hh != 0 {
		return a, false
	}
	s, c := bits.Add64(h, hl, 0)
	if c != 0 || s >= 1<<60 {
		return a, false
	}
	r := i128{int64(s), l}
	if neg {
		r = r.neg()
	}
	return r, true
}

// divFloor divides by g > 0 and reports whether the division was exact.
func (a i128) divFloor(g int64) (i128, bool) {
	neg := a.hi < 0
	if neg {
		a = a.neg()
	}
	qh := uint64(a.hi) / uint64(g)
	rh := uint64(a.hi) % uint64(g)
	ql, r := bits.Div64(rh, a.lo, uint64(g))
	q := i128{int64(qh), ql}
	if neg {
		q = q.neg()
		if r != 0 {
			q = q.add(i128of(-1))
		}
	}
	return q, r == 0
}

var statA int
var mask64 = new(big.Int).SetUint64(^uint64(0))

func i128big(b *big.Int) (i128, bool) {
	if b.IsInt64() {
		return i128of(b.Int64()), true
	}
	if b.BitLen() > 120 {
		return i128{}, false
	}
	m := new(big.Int).Abs(b)
	lo := new(big.Int).And(m, mask64).Uint64()
	hi := new(big.Int).Rsh(m, 64).Int64()
	r := i128{hi, lo}
	if b.Sign() < 0 {
		r = r.neg()
	}
	return r, true
}

type fmRow struct {
	k []int64
	c i128
	h uint64
}

type fm struct {
	n    int
	rows []fmRow
	idx  []int32 // hash table: row index + 1
	pool []int64
	slab [][]int64
	ns   int
	over bool
	bad  bool
}

const coefMax = 1 << 62

var fmPool = &fm{}

func (f *fm) reset(n int) {
	f.n = n
	f.rows = f.rows[:0]
	f.over, f.bad = false, false
	f.ns = 0
	f.pool = nil
	f.clearIdx(64)
}

func (f *fm) clearIdx(n int) {
	if cap(f.idx) < n {
		f.idx = make([]int32, n)
		return
	}
	f.idx = f.idx[:n]
	for i := range f.idx {
		f.idx[i] = 0
	}
}

func (f *fm) newRow() []int64 {
	if len(f.pool) < f.n {
		if f.ns == len(f.slab) {
			f.slab = append(f.slab, make([]int64, 1<<14))
		}
		f.pool = f.slab[f.ns]
		f.ns++
	}
	r := f.pool[:f.n:f.n]
	f.pool = f.pool[f.n:]
	for i := range r {
		r[i] = 0
	}
	return r
}

func gcd64(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides a row by the gcd of its coefficients.
func (f *fm) norm(r *fmRow, eq bool) (trivial bool) {
	var g int64
	h := uint64(14695981039346656037)
	for _, k := range r.k {
		if k != 0 {
			if k < 0 {
				k = -k
			}
			if k == 1 {
				g = 1
				break
			}
			g = gcd64(g, k)
		}
	}
	if g == 0 {
		s := r.c.sign()
		if s < 0 || (eq && s != 0) {
			f.bad = true
		}
		return true
	}
	if g > 1 {
		for i := range r.k {
			r.k[i] /= g
		}
		q, exact := r.c.divFloor(g)
		if eq && !exact {
			f.bad = true
			return true
		}
		r.c = q
	}
	for i, k := range r.k {
		if k != 0 {
			h = (h ^ uint64(k)) * 1099511628211
			h = (h ^ uint64(i)) * 1099511628211
		}
	}
	r.h = h ^ h>>29
	return false
}

func (f *fm) grow() {
	f.clearIdx(4 * len(f.idx))
	m := uint64(len(f.idx) - 1)
	for i := range f.rows {
		p := f.rows[i].h & m
		for f.idx[p] != 0 {
			p = (p + 1) & m
		}
		f.idx[p] = int32(i + 1)
	}
}

// add inserts the inequality r >= 0.
func (f *fm) add(r fmRow) {
	if f.norm(&r, false) {
		return
	}
	if 2*len(f.rows) >= len(f.idx) {
		f.grow()
	}
	m := uint64(len(f.idx) - 1)
	p := r.h & m
	for f.idx[p] != 0 {
		o := &f.rows[f.idx[p]-1]
		if o.h == r.h {
			same := true
			for i, k := range r.k {
				if o.k[i] != k {
					same = false
					break
				}
			}
			if same {
				if r.c.less(o.c) {
					o.c = r.c
				}
				return
			}
		}
		p = (p + 1) & m
	}
	f.rows = append(f.rows, r)
	f.idx[p] = int32(len(f.rows))
}

// comb returns fx*x + fy*y.
func (f *fm) comb(x *fmRow, fx int64, y *fmRow, fy int64) (r fmRow) {
	r.k = f.newRow()
	for i := range r.k {
		a, b := x.k[i], y.k[i]
		if a|b == 0 {
			continue
		}
		h1, l1 := mul64(a, fx)
		h2, l2 := mul64(b, fy)
		if h1 || h2 {
			f.over = true
			return
		}
		s := l1 + l2
		if s >= coefMax || s <= -coefMax {
			f.over = true
			return
		}
		r.k[i] = s
	}
	c1, ok1 := x.c.mul(fx)
	c2, ok2 := y.c.mul(fy)
	r.c = c1.add(c2)
	if !ok1 || !ok2 || !r.c.small() {
		f.over = true
	}
	return
}

// mul64 multiplies, the first result reports a product of 2^61 or more.
func mul64(a, b int64) (bool, int64) {
	if a == 0 || b == 0 {
		return false, 0
	}
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = -ua
	}
	if b < 0 {
		ub = -ub
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l >= 1<<61 {
		return true, 0
	}
	return false, a * b
}

// infeasibleFast returns ok == false if it cannot decide.
// If there is a solution it may return one.
func infeasibleFast(cons []Con) (infeas, ok bool, w *witness) {
	f := fmPool
	loc := map[*Atom]int{}
	for i := range cons {
		for _, x := range cons[i].l.t {
			if _, ok := loc[x.a]; !ok {
				loc[x.a] = len(loc)
			}
		}
	}
	f.reset(len(loc))
	var eqs []fmRow
	type elim struct {
		j    int
		eq   bool
		rows []fmRow
	}
	var steps []elim
	for i := range cons {
		c := &cons[i]
		r := fmRow{k: f.newRow()}
		var ok bool
		r.c, ok = i128big(c.l.c)
		if !ok {
			return false, false, nil
		}
		for _, x := range c.l.t {
			if !x.k.IsInt64() {
				return false, false, nil
			}
			v := x.k.Int64()
			if v >= coefMax || v <= -coefMax {
				return false, false, nil
			}
			r.k[loc[x.a]] = v
		}
		if c.eq {
			if f.norm(&r, true) {
				if f.bad {
					return true, true, nil
				}
				continue
			}
			eqs = append(eqs, r)
		} else {
			f.add(r)
			if f.bad {
				return true, true, nil
			}
		}
	}
	alive := make([]bool, f.n)
	for i := range alive {
		alive[i] = true
	}
	// Equalities with a unit coefficient are substituted away.
	for len(eqs) > 0 {
		best, bj := -1, -1
		for i := range eqs {
			for j, k := range eqs[i].k {
				if k == 1 || k == -1 {
					best, bj = i, j
					break
				}
			}
			if best >= 0 {
				break
			}
		}
		if best < 0 {
			for i := range eqs {
				n := fmRow{k: f.newRow(), c: eqs[i].c.neg()}
				for j, k := range eqs[i].k {
					n.k[j] = -k
				}
				f.add(eqs[i])
				f.add(n)
			}
			if f.bad {
				return true, true, nil
			}
			break
		}
		e := eqs[best]
		eqs = append(eqs[:best:best], eqs[best+1:]...)
		sg := e.k[bj]
		steps = append(steps, elim{bj, true, []fmRow{e}})
		w := 0
		for i := range eqs {
			r := eqs[i]
			if r.k[bj] != 0 {
				r = f.comb(&r, 1, &e, -r.k[bj]*sg)
				if f.over {
					return false, false, nil
				}
				if f.norm(&r, true) {
					if f.bad {
						return true, true, nil
					}
					continue
				}
			}
			eqs[w] = r
			w++
		}
		eqs = eqs[:w]
		hit := false
		for i := range f.rows {
			if f.rows[i].k[bj] != 0 {
				hit = true
				break
			}
		}
		alive[bj] = false
		if !hit {
			continue
		}
		old := f.rows
		f.rows = make([]fmRow, 0, len(old))
		f.clearIdx(len(f.idx))
		for i := range old {
			r := old[i]
			if r.k[bj] != 0 {
				r = f.comb(&r, 1, &e, -r.k[bj]*sg)
				if f.over {
					return false, false, nil
				}
			}
			f.add(r)
			if f.bad {
				return true, true, nil
			}
		}
	}
	pos, neg := make([]int, f.n), make([]int, f.n)
	for len(f.rows) > 0 {
		for j := range pos {
			pos[j], neg[j] = 0, 0
		}
		for i := range f.rows {
			for j, k := range f.rows[i].k {
				if k > 0 {
					pos[j]++
				} else if k < 0 {
					neg[j]++
				}
			}
		}
		// Variables bounded on one side only take all their constraints along.
		ba, cost := -1, 0
		for j := range pos {
			if pos[j]+neg[j] == 0 {
				continue
			}
			c := pos[j]*neg[j] - pos[j] - neg[j]
			if ba < 0 || c < cost {
				ba, cost = j, c
			}
		}
		if ba < 0 {
			break
		}
		if pos[ba]*neg[ba]+len(f.rows)-pos[ba]-neg[ba] > fmLimit {
			statFMBig++
			return false, true, nil
		}
		old := f.rows
		f.rows = make([]fmRow, 0, len(old)+8)
		f.clearIdx(len(f.idx))
		var p, n []int
		el := elim{j: ba}
		for i := range old {
			switch k := old[i].k[ba]; {
			case k > 0:
				p = append(p, i)
				el.rows = append(el.rows, old[i])
			case k < 0:
				n = append(n, i)
				el.rows = append(el.rows, old[i])
			default:
				f.add(old[i])
			}
		}
		steps = append(steps, el)
		for _, i := range p {
			for _, j := range n {
				x, y := &old[i], &old[j]
				kx, ky := x.k[ba], -y.k[ba]
				g := gcd64(kx, ky)
				r := f.comb(x, ky/g, y, kx/g)
				if f.over {
					return false, false, nil
				}
				f.add(r)
				if f.bad {
					return true, true, nil
				}
			}
		}
	}
	// Choose values in reverse order.
	val := make([]i128, f.n)
	for i := len(steps) - 1; i >= 0; i-- {
		st := &steps[i]
		var lo, hi i128
		hasLo, hasHi := false, false
		for r := range st.rows {
			row := &st.rows[r]
			rest := row.c
			for j, k := range row.k {
				if k == 0 || j == st.j {
					continue
				}
				p, ok := val[j].mul(k)
				rest = rest.add(p)
				if !ok || !rest.small() {
					return false, true, nil
				}
			}
			k := row.k[st.j]
			if k > 0 { // k x >= -rest
				b := rest.neg().divCeil(k)
				if !hasLo || lo.less(b) {
					lo, hasLo = b, true
				}
			} else {
				b, _ := rest.divFloor(-k)
				if !hasHi || b.less(hi) {
					hi, hasHi = b, true
				}
			}
			if st.eq {
				if k > 0 {
					rest = rest.neg()
				}
				lo, hasLo, hasHi = rest, true, false
			}
		}
		switch {
		case hasLo && hasHi && hi.less(lo):
			return false, true, nil
		case hasLo:
			val[st.j] = lo
		case hasHi:
			val[st.j] = hi
		}
	}
	w = &witness{v: make(map[*Atom]i128, len(loc))}
	for a, j := range loc {
		w.v[a] = val[j]
	}
	if !w.holds(cons) {
		return false, true, nil
	}
	return false, true, w
}
