package main

import (
	"math/big"
)

// Equality of two values under a guard, decided part by part: cases on which
// either depends are taken one at a time, and values of the same shape are equal
// when their parts are.

type equality struct {
	steps int
	seen  map[[3]int]bool
}

const equalSteps = 4000

func equalUnder(a, b, g *Term) bool {
	old := amb
	defer func() { amb = old }()
	e := &equality{seen: map[[3]int]bool{}}
	return e.eq(a, b, g, 0)
}

func (e *equality) eq(a, b, g *Term, depth int) (r bool) {
	if a == b || g == tFalse {
		return true
	}
	if e.steps++; e.steps > equalSteps || depth > 60 {
		return false
	}
	amb = g
	a, b = simp(a, g), simp(b, g)
	if a == b {
		return true
	}
	key := [3]int{a.id, b.id, g.id}
	if r, ok := e.seen[key]; ok {
		return r
	}
	e.seen[key] = false
	defer func() { e.seen[key] = r }()
	if isInt(a) || isInt(b) || isSeq(a) && isSeq(b) {
		if simp(asBoolT(tEq(a, b)), g) == tTrue {
			return true
		}
	}
	for _, t := range []*Term{a, b} {
		if t.op == OIte {
			c := asBDD(t.args[0])
			for _, g2 := range []*Term{and(g, c), and(g, not(c))} {
				x, y := a, b
				if t.args[0].op == OLe && g2 != tFalse {
					x, y, g2 = pinned(x, y, g2)
				}
				if !e.eq(x, y, g2, depth+1) {
					return false
				}
			}
			return true
		}
	}
	if a.op != b.op || a.name != b.name || a.k != b.k || a.k2 != b.k2 || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	if a.typ != b.typ && (a.typ == nil || b.typ == nil || typeKey(a.typ) != typeKey(b.typ)) {
		return false
	}
	switch a.op {
	case OGen, OFilt:
		if !e.eq(a.args[0], b.args[0], g, depth+1) {
			return false
		}
		amb = g
		s := freshInt("g")
		g2 := and(g, and(le(tZero, s), lt(s, a.args[0])))
		for i := 1; i < len(a.args); i++ {
			if !e.eq(bindOpen(a.args[i], a.k, s), bindOpen(b.args[i], b.k, s), g2, depth+1) {
				return false
			}
		}
		return true
	case OExists, OFirst, OIter, OLin, OLe, OEq, OBound:
		return false
	}
	for i := range a.args {
		if !e.eq(a.args[i], b.args[i], g, depth+1) {
			return false
		}
	}
	return true
}

// pinned puts in the numbers that a guard leaves only one value.
func pinned(a, b, g *Term) (*Term, *Term, *Term) {
	amb = tTrue
	type rng struct{ lo, hi *big.Int }
	m := map[*Term]*rng{}
	for _, l := range cubeOf(g).lins {
		if len(l.m) != 1 {
			continue
		}
		for v, c := range l.m {
			if c.CmpAbs(bigOne) != 0 {
				continue
			}
			r := m[v]
			if r == nil {
				r = &rng{}
				r.lo, r.hi = bounds(v)
				m[v] = r
			}
			if c.Sign() > 0 { // v <= -c
				if x := new(big.Int).Neg(l.c); r.hi == nil || x.Cmp(r.hi) < 0 {
					r.hi = x
				}
			} else if r.lo == nil || l.c.Cmp(r.lo) > 0 {
				r.lo = l.c
			}
		}
	}
	for v, r := range m {
		if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 && v.op == OFn {
			g = subst(g, v, tBig(r.lo))
			a, b = subst(a, v, tBig(r.lo)), subst(b, v, tBig(r.lo))
		}
	}
	return a, b, g
}
