package main

import "math/big"

// propagated reports whether facts contradict each other, by substitution of
// the equalities and propagation of bounds. It finds less than elimination but
// does not depend on the number of facts.
func propagated(facts []Con) bool {
	fs := append([]Con{}, facts...)
	seen := map[*Atom]bool{}
	for i := 0; i < len(fs) && i < 2000; i++ {
		for _, t := range fs[i].l.t {
			if !seen[t.a] {
				seen[t.a] = true
				fs = append(fs, t.a.ax...)
			}
		}
	}
	var atoms []*Atom
	lo, hi := map[*Atom]*big.Int{}, map[*Atom]*big.Int{}
	for _, f := range fs {
		for _, t := range f.l.t {
			if _, ok := lo[t.a]; !ok {
				lo[t.a], hi[t.a] = t.a.lo, t.a.hi
				atoms = append(atoms, t.a)
			}
		}
	}
	// Bounds of substituted atoms become facts.
	for round := 0; round < 64; round++ {
		var eq Con
		var x *Atom
		for i, f := range fs {
			if !f.eq {
				continue
			}
			for _, t := range f.l.t {
				if t.k.CmpAbs(bigOne) == 0 {
					eq, x = f, t.a
				}
			}
			if x != nil {
				fs = append(fs[:i:i], fs[i+1:]...)
				break
			}
		}
		if x == nil {
			break
		}
		// k*x + rest = 0
		k := eq.l.coef(x)
		m := eq.l.sub(la(x).scale(k)).scale(new(big.Int).Neg(k))
		if lo[x] != nil {
			fs = append(fs, ge(la(x).sub(lbig(lo[x]))))
		}
		if hi[x] != nil {
			fs = append(fs, ge(lbig(hi[x]).sub(la(x))))
		}
		for i, f := range fs {
			if f.l.coef(x).Sign() != 0 {
				fs[i] = Con{f.l.subst(x, m), f.eq}
			}
		}
	}
	// sum is the greatest value of l without the atom x, or nil.
	for round := 0; round < 12; round++ {
		changed := false
		for _, f := range fs {
			sides := []Lin{f.l}
			if f.eq {
				sides = append(sides, f.l.neg())
			}
			for _, l := range sides {
				// l >= 0
				top := new(big.Int).Set(l.c)
				open := 0
				var last *Atom
				for _, t := range l.t {
					b := hi[t.a]
					if t.k.Sign() < 0 {
						b = lo[t.a]
					}
					if b == nil {
						open++
						last = t.a
						continue
					}
					top.Add(top, new(big.Int).Mul(t.k, b))
				}
				if open == 0 && top.Sign() < 0 {
					return true
				}
				if open > 1 {
					continue
				}
				for _, t := range l.t {
					if open == 1 && t.a != last {
						continue
					}
					// k*a >= -(rest)
					rest := new(big.Int).Set(top)
					if open == 0 {
						b := hi[t.a]
						if t.k.Sign() < 0 {
							b = lo[t.a]
						}
						rest.Sub(rest, new(big.Int).Mul(t.k, b))
					}
					if t.k.Sign() > 0 {
						// a >= ceil(-rest/k)
						n := new(big.Int).Neg(rest)
						q, r := new(big.Int), new(big.Int)
						q.DivMod(n, t.k, r)
						if r.Sign() != 0 {
							q.Add(q, bigOne)
						}
						if lo[t.a] == nil || q.Cmp(lo[t.a]) > 0 {
							lo[t.a] = q
							changed = true
						}
					} else {
						// a <= floor(rest/-k)
						q, r := new(big.Int), new(big.Int)
						q.DivMod(rest, new(big.Int).Neg(t.k), r)
						if hi[t.a] == nil || q.Cmp(hi[t.a]) < 0 {
							hi[t.a] = q
							changed = true
						}
					}
					if lo[t.a] != nil && hi[t.a] != nil && lo[t.a].Cmp(hi[t.a]) > 0 {
						return true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return false
}
