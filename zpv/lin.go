package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Atoms and linear expressions over them (mathematical integers).

// An Atom is an unknown integer. Atoms are hash-consed by key, so the same
// value computed twice is the same atom.
type Atom struct {
	id     int
	key    string
	lo, hi *big.Int // static bounds, nil if unbounded
	ax     []Con    // facts that hold in every state in which the atom is meaningful
	wrapOf *Lin     // atom = wrapOf modulo 2^wrapBits (mapped into lo..hi)
	wrapB  int
	fn     string // for uninterpreted functions
	args   []Lin
}

type lterm struct {
	a *Atom
	k *big.Int
}

// Lin is c + sum k*a; immutable, terms sorted by atom id, no zero coefficients.
type Lin struct {
	c *big.Int
	t []lterm
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func lc(n int64) Lin        { return Lin{c: big.NewInt(n)} }
func lbig(n *big.Int) Lin   { return Lin{c: n} }
func la(a *Atom) Lin        { return Lin{c: bigZero, t: []lterm{{a, bigOne}}} }
func (l Lin) isConst() bool { return len(l.t) == 0 }
func (l Lin) isZero() bool  { return len(l.t) == 0 && l.c.Sign() == 0 }
func (l Lin) add(m Lin) Lin { return l.comb(m, bigOne) }
func (l Lin) sub(m Lin) Lin { return l.comb(m, big.NewInt(-1)) }
func (l Lin) addc(n int64) Lin {
	return Lin{c: new(big.Int).Add(l.c, big.NewInt(n)), t: l.t}
}
func (l Lin) neg() Lin { return l.scale(big.NewInt(-1)) }
func (l Lin) scale(k *big.Int) Lin {
	if k.Sign() == 0 {
		return lc(0)
	}
	r := Lin{c: new(big.Int).Mul(l.c, k), t: make([]lterm, len(l.t))}
	for i, x := range l.t {
		r.t[i] = lterm{x.a, new(big.Int).Mul(x.k, k)}
	}
	return r
}
func (l Lin) scaleN(n int64) Lin { return l.scale(big.NewInt(n)) }

// comb returns l + f*m.
func (l Lin) comb(m Lin, f *big.Int) Lin {
	r := Lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(m.c, f))}
	if len(l.t) == 0 && len(m.t) == 0 {
		return r
	}
	r.t = make([]lterm, 0, len(l.t)+len(m.t))
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j == len(m.t) || (i < len(l.t) && l.t[i].a.id < m.t[j].a.id):
			r.t = append(r.t, l.t[i])
			i++
		case i == len(l.t) || m.t[j].a.id < l.t[i].a.id:
			k := new(big.Int).Mul(m.t[j].k, f)
			if k.Sign() != 0 {
				r.t = append(r.t, lterm{m.t[j].a, k})
			}
			j++
		default:
			k := new(big.Int).Add(l.t[i].k, new(big.Int).Mul(m.t[j].k, f))
			if k.Sign() != 0 {
				r.t = append(r.t, lterm{l.t[i].a, k})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) coef(a *Atom) *big.Int {
	for _, x := range l.t {
		if x.a == a {
			return x.k
		}
	}
	return bigZero
}

// subst replaces atom a by m.
func (l Lin) subst(a *Atom, m Lin) Lin {
	k := l.coef(a)
	if k.Sign() == 0 {
		return l
	}
	r := Lin{c: l.c, t: make([]lterm, 0, len(l.t))}
	for _, x := range l.t {
		if x.a != a {
			r.t = append(r.t, x)
		}
	}
	return r.comb(m, k)
}

func (l Lin) eq(m Lin) bool {
	if l.c.Cmp(m.c) != 0 || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i].a != m.t[i].a || l.t[i].k.Cmp(m.t[i].k) != 0 {
			return false
		}
	}
	return true
}

func (l Lin) key() string {
	b := make([]byte, 0, 16*len(l.t)+20)
	for _, x := range l.t {
		if x.k.IsInt64() {
			b = strconv.AppendInt(b, x.k.Int64(), 10)
		} else {
			b = append(b, x.k.String()...)
		}
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(x.a.id), 10)
		b = append(b, '+')
	}
	if l.c.IsInt64() {
		b = strconv.AppendInt(b, l.c.Int64(), 10)
	} else {
		b = append(b, l.c.String()...)
	}
	return string(b)
}

func (l Lin) String() string {
	var b strings.Builder
	for _, x := range l.t {
		s := x.k.Sign()
		if b.Len() > 0 {
			if s > 0 {
				b.WriteString(" + ")
			} else {
				b.WriteString(" - ")
			}
		} else if s < 0 {
			b.WriteString("-")
		}
		k := new(big.Int).Abs(x.k)
		if k.Cmp(bigOne) != 0 {
			b.WriteString(k.String() + "*")
		}
		b.WriteString(x.a.key)
	}
	if b.Len() == 0 {
		return l.c.String()
	}
	if s := l.c.Sign(); s > 0 {
		b.WriteString(" + " + l.c.String())
	} else if s < 0 {
		b.WriteString(" - " + new(big.Int).Neg(l.c).String())
	}
	return b.String()
}

// interval returns static bounds of l (nil = unbounded).
func (l Lin) interval() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, x := range l.t {
		al, ah := x.a.lo, x.a.hi
		if x.k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(al, x.k))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, x.k))
			}
		}
	}
	return
}

// Con is the constraint l >= 0, or l == 0 if eq.
type Con struct {
	l  Lin
	eq bool
}

func ge(l Lin) Con     { return Con{l: l} }             // l >= 0
func geq(a, b Lin) Con { return ge(a.sub(b)) }          // a >= b
func gtr(a, b Lin) Con { return ge(a.sub(b).addc(-1)) } // a > b
func eqc(a, b Lin) Con { return Con{a.sub(b), true} }

func (c Con) String() string {
	if c.eq {
		return c.l.String() + " == 0"
	}
	return c.l.String() + " >= 0"
}

// ---------------------------------------------------------------------------
// Atom table.

type atomTable struct {
	byKey map[string]*Atom
	n     int
	fresh int
}

var atoms = &atomTable{byKey: map[string]*Atom{}}

func (t *atomTable) get(key string) (*Atom, bool) {
	if a, ok := t.byKey[key]; ok {
		return a, true
	}
	t.n++
	a := &Atom{id: t.n, key: key}
	t.byKey[key] = a
	return a, false
}

func (t *atomTable) newFresh(name string) *Atom {
	t.fresh++
	a, _ := t.get(fmt.Sprintf("%s'%d", name, t.fresh))
	return a
}

// ---------------------------------------------------------------------------
// Infeasibility of a conjunction of linear constraints over the integers:
// substitution of equalities and Fourier-Motzkin elimination with integer
// tightening. Returns true only if there is certainly no solution.

const fmLimit = 1500

func tighten(c Con) (Con, bool /*infeasible*/, bool /*trivial*/) {
	if len(c.l.t) == 0 {
		if c.eq {
			return c, c.l.c.Sign() != 0, c.l.c.Sign() == 0
		}
		return c, c.l.c.Sign() < 0, c.l.c.Sign() >= 0
	}
	g := new(big.Int).Abs(c.l.t[0].k)
	for _, x := range c.l.t[1:] {
		if g.Cmp(bigOne) == 0 {
			break
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(x.k))
	}
	if g.Cmp(bigOne) == 0 {
		return c, false, false
	}
	r := Lin{t: make([]lterm, len(c.l.t))}
	for i, x := range c.l.t {
		r.t[i] = lterm{x.a, new(big.Int).Quo(x.k, g)}
	}
	q, m := new(big.Int).DivMod(c.l.c, g, new(big.Int)) // Euclidean = floor for g > 0
	if c.eq && m.Sign() != 0 {
		return c, true, false
	}
	r.c = q
	return Con{r, c.eq}, false, false
}

var statFM, statFMBig, statFMSlow int

func infeasible(cons []Con) (bool, *witness) {
	statFM++
	if r, ok, w := infeasibleFast(cons); ok {
		return r, w
	}
	if r, ok, w := infeasibleWide(cons); ok {
		statFMSlow++
		return r, w
	}
	statA++
	return infeasibleSlow(cons), nil
}

func infeasibleSlow(cons []Con) bool {
	var eqs []Con
	ineq := map[string]Con{}
	bad := false
	var addIneq func(c Con)
	addIneq = func(c Con) {
		c, inf, triv := tighten(c)
		if inf {
			bad = true
			return
		}
		if triv {
			return
		}
		var kb strings.Builder
		for _, x := range c.l.t {
			fmt.Fprintf(&kb, "%s*%d,", x.k, x.a.id)
		}
		k := kb.String()
		if o, ok := ineq[k]; !ok || c.l.c.Cmp(o.l.c) < 0 {
			ineq[k] = c
		}
	}
	for _, c := range cons {
		if c.eq {
			eqs = append(eqs, c)
		} else {
			addIneq(c)
		}
	}
	if bad {
		return true
	}
	// Equalities with a unit coefficient are substituted away.
	for len(eqs) > 0 {
		best := -1
		var ba *Atom
		for i := range eqs {
			c, inf, triv := tighten(eqs[i])
			if inf {
				return true
			}
			eqs[i] = c
			if triv {
				best, ba = i, nil
				break
			}
			for _, x := range c.l.t {
				if x.k.CmpAbs(bigOne) == 0 {
					best, ba = i, x.a
					break
				}
			}
			if best >= 0 {
				break
			}
		}
		if best < 0 {
			for _, c := range eqs {
				addIneq(ge(c.l))
				addIneq(ge(c.l.neg()))
			}
			eqs = nil
			break
		}
		e := eqs[best]
		eqs = append(eqs[:best:best], eqs[best+1:]...)
		if ba == nil {
			continue
		}
		// e = k*ba + rest == 0, k = +-1  =>  ba = -k*rest
		k := e.l.coef(ba)
		rest := e.l.subst(ba, lc(0))
		m := rest.scale(new(big.Int).Neg(k))
		for i := range eqs {
			eqs[i].l = eqs[i].l.subst(ba, m)
		}
		old := ineq
		ineq = map[string]Con{}
		for _, c := range old {
			if c.l.coef(ba).Sign() != 0 {
				c.l = c.l.subst(ba, m)
			}
			addIneq(c)
			if bad {
				return true
			}
		}
	}
	// Fourier-Motzkin.
	for len(ineq) > 0 {
		pos, negs := map[*Atom]int{}, map[*Atom]int{}
		for _, c := range ineq {
			for _, x := range c.l.t {
				if x.k.Sign() > 0 {
					pos[x.a]++
				} else {
					negs[x.a]++
				}
			}
		}
		var ba *Atom
		bestCost := 0
		for _, m := range []map[*Atom]int{pos, negs} {
			for a := range m {
				cost := pos[a]*negs[a] - pos[a] - negs[a]
				if ba == nil || cost < bestCost || (cost == bestCost && a.id < ba.id) {
					ba, bestCost = a, cost
				}
			}
		}
		var p, n []Con
		keys := make([]string, 0, len(ineq))
		for k := range ineq {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, kk := range keys {
			c := ineq[kk]
			switch c.l.coef(ba).Sign() {
			case 1:
				p = append(p, c)
				delete(ineq, kk)
			case -1:
				n = append(n, c)
				delete(ineq, kk)
			}
		}
		if len(p)*len(n)+len(ineq) > fmLimit {
			statFMBig++
			return false
		}
		for _, x := range p {
			for _, y := range n {
				kx, ky := x.l.coef(ba), y.l.coef(ba)
				l := x.l.scale(new(big.Int).Neg(ky)).add(y.l.scale(kx))
				addIneq(ge(l))
				if bad {
					return true
				}
			}
		}
	}
	return false
}
