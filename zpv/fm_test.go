package main

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestFM(t *testing.T) {
	var as []*Atom
	for i := 0; i < 5; i++ {
		as = append(as, atoms.newFresh("t"))
	}
	r := rand.New(rand.NewSource(1))
	n1, n2, nw, diff := 0, 0, 0, 0
	for i := 0; i < 200000; i++ {
		var cons []Con
		for j := 0; j < 3+r.Intn(8); j++ {
			l := lc(int64(r.Intn(21) - 10))
			if r.Intn(8) == 0 {
				l = l.add(lbig(new(big.Int).Mul(pow2(64), bi(int64(r.Intn(3)-1)))))
			}
			for _, a := range as {
				if r.Intn(3) == 0 {
					k := int64(r.Intn(7) - 3)
					if r.Intn(10) == 0 {
						l = l.add(la(a).scale(new(big.Int).Mul(pow2(63), bi(k))))
					} else {
						l = l.add(la(a).scaleN(k))
					}
				}
			}
			cons = append(cons, Con{l, r.Intn(5) == 0})
		}
		s := infeasibleSlow(cons)
		x, ok, w := infeasibleFast(cons)
		y, ok2, _ := infeasibleWide(cons)
		if ok {
			n1++
		}
		if ok2 {
			n2++
		}
		if w != nil {
			nw++
			if s || (ok2 && y) || x {
				t.Fatal(s, x, y, cons)
			}
		}
		if (ok && x != s) || (ok2 && y != s) {
			diff++
		}
	}
	t.Log(n1, n2, nw, diff)
}
