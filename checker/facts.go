package main

import (
	"math/big"
	"sort"
	"strings"
)

// amb is the guard under which terms are currently being built.
var amb *Term

// cube holds what a guard forces.
type cube struct {
	lit  map[*Term]bool
	lins []lin // each <= 0
	ex   []*Term
}

var cubeCache = map[int]*cube{}
var forcedCache = map[int]map[*Term]bool{}

func forced(g *Term) map[*Term]bool {
	if r, ok := forcedCache[g.id]; ok {
		return r
	}
	r := map[*Term]bool{}
	if g.op == OIte {
		a, hi, lo := g.args[0], g.args[1], g.args[2]
		switch {
		case lo == tFalse:
			for k, v := range forced(hi) {
				r[k] = v
			}
			r[a] = true
		case hi == tFalse:
			for k, v := range forced(lo) {
				r[k] = v
			}
			r[a] = false
		default:
			fl := forced(lo)
			for k, v := range forced(hi) {
				if w, ok := fl[k]; ok && v == w {
					r[k] = v
				}
			}
		}
	}
	forcedCache[g.id] = r
	return r
}

func cubeOf(g *Term) *cube {
	if c, ok := cubeCache[g.id]; ok {
		return c
	}
	c := &cube{lit: forced(g)}
	cubeCache[g.id] = c
	// what exists holds at its first index
	for done := map[*Term]bool{}; ; {
		var e *Term
		for a, v := range c.lit {
			if v && a.op == OExists && !done[a] && (e == nil || a.id < e.id) {
				e = a
			}
		}
		if e == nil {
			break
		}
		done[e] = true
		old := amb
		amb = tTrue
		w := asBoolT(bindOpen(e.args[1], e.k, mk(&Term{op: OFirst, k: e.k, args: e.args})))
		amb = old
		if len(done) == 1 {
			l := map[*Term]bool{}
			for k, v := range c.lit {
				l[k] = v
			}
			c.lit = l
		}
		for k, v := range forced(w) {
			if _, ok := c.lit[k]; !ok {
				c.lit[k] = v
			}
		}
	}
	var as []*Term
	for a := range c.lit {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		v := c.lit[a]
		switch a.op {
		case OLe:
			l := toLin(a.args[0])
			if !v {
				l = negLe(l)
			}
			c.lins = append(c.lins, l)
		case OExists:
			c.ex = append(c.ex, a)
			if n := a.args[0]; v && n.op != OIte {
				c.lins = append(c.lins, linAdd(lin{c: big.NewInt(1), m: map[*Term]*big.Int{}}, toLin(n), bigMinus))
			}
		case OIsNil:
			if v && a.args[0].op == OPtr {
				// a nil slice is empty
				if ln := bases[a.args[0].k].lenOf(a.args[0]); ln != nil && ln.op != OInt {
					c.lins = append(c.lins, toLin(ln))
				}
			}
		case OEq:
			if v && isSeq(a.args[0]) && isSeq(a.args[1]) {
				d := linAdd(toLin1(tLen(a.args[0])), toLin1(tLen(a.args[1])), bigMinus)
				c.lins = append(c.lins, d, linAdd(lin{c: new(big.Int), m: map[*Term]*big.Int{}}, d, bigMinus))
			}
		}
	}
	cubeCache[g.id] = c
	return c
}

func toLin1(t *Term) lin {
	if t.op == OIte {
		return lin{c: new(big.Int), m: map[*Term]*big.Int{t: big.NewInt(1)}}
	}
	return toLin(t)
}

// negLe is the linear form of not (l <= 0): -l + 1 <= 0.
func negLe(l lin) lin {
	r := linAdd(lin{c: big.NewInt(1), m: map[*Term]*big.Int{}}, l, bigMinus)
	return r
}

func withAmb(a *Term, v bool, f func()) {
	old := amb
	b := asBDD(a)
	if !v {
		b = not(b)
	}
	if amb == nil {
		amb = tTrue
	}
	amb = and(amb, b)
	defer func() { amb = old }()
	f()
}

func underGuard(g *Term, f func()) {
	old := amb
	amb = g
	defer func() { amb = old }()
	f()
}

func underRange(s, n *Term, f func() *Term) *Term {
	old := amb
	if amb == nil {
		amb = tTrue
	}
	amb = and(amb, and(le(tZero, s), lt(s, n)))
	defer func() { amb = old }()
	return f()
}

func resimp(t *Term) *Term { return simp(t, amb) }

// decide gives the truth of a boolean under the ambient guard: 1, -1 or 0.
func decide(b *Term) int {
	if b == tTrue {
		return 1
	}
	if b == tFalse {
		return -1
	}
	if b.isAtom() {
		b = asBDD(b)
	}
	s := simp(b, amb)
	if s == tTrue {
		return 1
	}
	if s == tFalse {
		return -1
	}
	return 0
}

var simpCache = map[[2]int]*Term{}
var atomCache = map[[2]int]int8{}

// simp is t restricted to the cases in which g holds.
func simp(t, g *Term) *Term {
	if g == nil {
		g = tTrue
	}
	if !t.hasIte || g == tFalse {
		return t
	}
	key := [2]int{t.id, g.id}
	if r, ok := simpCache[key]; ok {
		return r
	}
	var r *Term
	switch {
	case t.op == OIte:
		a := t.args[0]
		switch atomUnder(a, g) {
		case 1:
			r = simp(t.args[1], g)
		case -1:
			r = simp(t.args[2], g)
		default:
			ab := asBDD(a)
			hi := simp(t.args[1], and(g, ab))
			lo := simp(t.args[2], and(g, not(ab)))
			r = ite(ab, hi, lo)
		}
	case len(t.args) == 0 || t.isAtom():
		if t.isAtom() {
			switch atomUnder(t, g) {
			case 1:
				r = tTrue
			case -1:
				r = tFalse
			default:
				r = t
			}
		} else {
			r = t
		}
	case t.op == OGen || t.op == OFilt || t.op == OFirst || t.op == OIter:
		r = t
		ch := false
		args := append([]*Term(nil), t.args...)
		n := 1
		if t.op == OIter {
			n = 2
		}
		for i := 0; i < n; i++ {
			args[i] = simp(t.args[i], g)
			ch = ch || args[i] != t.args[i]
		}
		if t.op == OGen && t.args[1].hasIte {
			s := freshInt("g")
			b := bindOpen(t.args[1], t.k, s)
			g2 := and(g, and(le(tZero, s), lt(s, args[0])))
			b2 := simp(b, g2)
			if b2 != b {
				r = tGen(args[0], b2, s)
				ch = false
			}
		}
		if ch || t.op == OFilt {
			old := amb
			amb = g
			r = rebuild(t, args)
			amb = old
		}
	default:
		args := make([]*Term, len(t.args))
		ch := strings.HasPrefix(t.name, "wrap:") || t.op == OSub
		for i, a := range t.args {
			args[i] = simp(a, g)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			old := amb
			amb = g
			r = rebuild(t, args)
			amb = old
		} else {
			r = t
		}
	}
	simpCache[key] = r
	return r
}

// simpDeep also restricts what uninterpreted conditions depend on.
func simpDeep(t, g *Term) *Term {
	seen := map[*Term]*Term{}
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if len(x.args) == 0 || !x.hasIte {
			return x
		}
		if r, ok := seen[x]; ok {
			return r
		}
		r := x
		if x.op == OFn && x.isAtom() {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = simp(a, g)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(x, args)
			}
		} else {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = f(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = rebuild(x, args)
			}
		}
		seen[x] = r
		return r
	}
	return simp(f(simp(t, g)), g)
}

// atomUnder decides an atom under a guard: 1 true, -1 false, 0 unknown.
func atomUnder(a, g *Term) int {
	if g == nil || g == tFalse {
		return 0
	}
	key := [2]int{a.id, g.id}
	if r, ok := atomCache[key]; ok {
		return int(r)
	}
	atomCache[key] = 0 // while computing
	r := atomUnder1(a, g)
	atomCache[key] = int8(r)
	return r
}

var instDepth int

func atomUnder1(a, g *Term) int {
	c := cubeOf(g)
	if v, ok := c.lit[a]; ok {
		if v {
			return 1
		}
		return -1
	}
	ab := asBDD(a)
	if and(g, ab) == tFalse {
		return -1
	}
	if and(g, not(ab)) == tFalse {
		return 1
	}
	switch a.op {
	case OLe:
		q := toLin(a.args[0])
		if unsat(c, negLe(q)) {
			return 1
		}
		if unsat(c, q) {
			return -1
		}
	case OIsNil:
		if p := a.args[0]; p.op == OPtr {
			if ln := bases[p.k].lenOf(p); ln != nil {
				if ln.op == OInt && ln.n.Sign() > 0 {
					return -1
				}
				if ln.op != OIte && unsat(c, toLin(ln)) {
					return -1
				}
			}
		}
	case OEq:
		x, y := a.args[0], a.args[1]
		if isSeq(x) && isSeq(y) {
			lx, ly := tLen(x), tLen(y)
			if lx.op != OIte && ly.op != OIte {
				d := linAdd(toLin(lx), toLin(ly), bigMinus)
				if unsat2(c, d) {
					return -1
				}
			}
		}
		// constants are distinct
		if r := eqViaFacts(x, y, c); r != 0 {
			return r
		}
	case OExists:
		if n := a.args[0]; n.op != OIte && unsat(c, linAdd(lin{c: big.NewInt(1), m: map[*Term]*big.Int{}}, toLin(n), bigMinus)) {
			return -1
		}
		if r := existsUnder(a, c, g); r != 0 {
			return r
		}
	}
	if len(c.ex) > 0 && instDepth < 2 {
		instDepth++
		r := instantiate(a, c, g)
		instDepth--
		if r != 0 {
			return r
		}
	}
	return 0
}

// eqViaFacts uses the known equalities as rewrite steps.
func eqViaFacts(x, y *Term, c *cube) int {
	// union-find over the equalities
	par := map[*Term]*Term{}
	var find func(*Term) *Term
	find = func(t *Term) *Term {
		if p, ok := par[t]; ok && p != t {
			r := find(p)
			par[t] = r
			return r
		}
		return t
	}
	n := 0
	for a, v := range c.lit {
		if v && a.op == OEq {
			p, q := find(a.args[0]), find(a.args[1])
			if p != q {
				par[p] = q
				n++
			}
		}
	}
	if n == 0 {
		return 0
	}
	fx, fy := find(x), find(y)
	if fx == fy {
		return 1
	}
	// a disequality between the classes
	for a, v := range c.lit {
		if !v && a.op == OEq {
			p, q := find(a.args[0]), find(a.args[1])
			if p == fx && q == fy || p == fy && q == fx {
				return -1
			}
		}
	}
	// different constants
	var cx, cy *Term
	for t := range par {
		if t.op == OBytes {
			if find(t) == fx {
				cx = t
			}
			if find(t) == fy {
				cy = t
			}
		}
	}
	for _, p := range []**Term{&cx, &cy} {
		if *p == nil {
			if p == &cx && x.op == OBytes {
				cx = x
			} else if p == &cy && y.op == OBytes {
				cy = y
			}
		}
	}
	if cx != nil && cy != nil && cx != cy {
		return -1
	}
	return 0
}

// matchBody finds t with pattern[Bound d := t] = a.
func unify(pat, a *Term, b *Term) (*Term, bool) {
	var res *Term
	var f func(p, x *Term) bool
	f = func(p, x *Term) bool {
		if p == b {
			if res != nil && res != x {
				return false
			}
			res = x
			return true
		}
		if p == x && p.bd < b.k {
			return true
		}
		if p.op == OLin || p.op == OFn && p.name != x.name && isInt(p) {
			// p = b*1 + rest (without b)
			lp := toLin(p)
			cc, ok := lp.m[b]
			if !ok || cc.CmpAbs(bigOne) != 0 {
				return p == x
			}
			delete(lp.m, b)
			rest := fromLin(lp)
			if rest.bd >= b.k || x.op == OIte {
				return false
			}
			v := sub(x, rest)
			if cc.Sign() < 0 {
				v = sub(rest, x)
			}
			if res != nil && res != v {
				return false
			}
			res = v
			return true
		}
		if p.op != x.op || p.name != x.name || p.k != x.k || p.k2 != x.k2 || len(p.args) != len(x.args) || p.fn != x.fn {
			return false
		}
		if p.n != nil && (x.n == nil || p.n.Cmp(x.n) != 0) {
			return false
		}
		for i := range p.args {
			if !f(p.args[i], x.args[i]) {
				return false
			}
		}
		return len(p.args) > 0 || p == x
	}
	if !f(pat, a) || res == nil {
		return nil, false
	}
	return res, true
}

func atomsOf(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(x *Term) {
		if seen[x] || x.op != OIte {
			return
		}
		seen[x] = true
		out = append(out, x.args[0])
		f(x.args[1])
		f(x.args[2])
	}
	f(asBoolT(t))
	return out
}

// instantiate uses "no i in [0,n) satisfies p" at the index that makes one of
// p's atoms equal to a.
func instantiate(a *Term, c *cube, g *Term) int {
	for _, e := range c.ex {
		n, body := e.args[0], e.args[1]
		if c.lit[e] {
			// nothing before the first index satisfies it
			n = mk(&Term{op: OFirst, k: e.k, args: e.args})
		}
		b := mk(&Term{op: OBound, k: e.k})
		for _, pa := range atomsOf(body) {
			var ts []*Term
			if pa.op == OEq {
				// equalities match in both orders
				if a.op != OEq {
					continue
				}
				for _, o := range [][2]int{{0, 1}, {1, 0}} {
					p := mk(&Term{op: OTuple, args: []*Term{pa.args[0], pa.args[1]}})
					x := mk(&Term{op: OTuple, args: []*Term{a.args[o[0]], a.args[o[1]]}})
					if t, ok := unify(p, x, b); ok {
						ts = append(ts, t)
					}
				}
			} else if t, ok := unify(pa, a, b); ok {
				ts = append(ts, t)
			} else if pa.op == OExists && a.op == OExists {
				// the ranges tell the index; the bodies bind their own
				if t, ok := unify(pa.args[0], a.args[0], b); ok {
					ts = append(ts, t)
				}
			} else if pa.op == OLe && a.op == OLe {
				lp, la := toLin(pa.args[0]), toLin(a.args[0])
				if t, ok := unifyLin(lp, la, b); ok {
					ts = append(ts, t)
				}
			}
			for _, t := range ts {
				if simp(and(le(tZero, t), lt(t, n)), g) != tTrue {
					continue
				}
				var pt *Term
				underGuard(g, func() { pt = simp(asBoolT(bindOpen(body, e.k, t)), g) })
				if pt == asBDD(a) || pt == tTrue {
					return -1
				}
				if pt == not(asBDD(a)) {
					return 1
				}
				// pt is false: conclude a's value if pt forces it
				if and(not(pt), asBDD(a)) == tFalse {
					return -1
				}
				if and(not(pt), not(asBDD(a))) == tFalse {
					return 1
				}
			}
		}
	}
	return 0
}

// instances adds to a guard what the conditions it rules out for a whole range
// say of the indices it mentions.
func instances(g *Term) *Term {
	as := atomsOf(g)
	for _, e := range as {
		if e.op != OExists || and(g, asBDD(e)) != tFalse {
			continue
		}
		n, body := e.args[0], e.args[1]
		b := mk(&Term{op: OBound, k: e.k})
		seen := map[*Term]bool{}
		for _, pa := range atomsOf(body) {
			for _, a := range as {
				if a == e {
					continue
				}
				t, ok := unify(pa, a, b)
				if !ok && pa.op == OExists && a.op == OExists {
					t, ok = unify(pa.args[0], a.args[0], b)
				}
				if !ok || t == nil || seen[t] {
					continue
				}
				seen[t] = true
				if simp(and(le(tZero, t), lt(t, n)), g) == tTrue {
					underGuard(g, func() { g = and(g, not(asBoolT(bindOpen(body, e.k, t)))) })
				}
			}
		}
	}
	return g
}

// unifyLin matches two linear forms that differ in the sub-terms holding b.
func unifyLin(p, a lin, b *Term) (*Term, bool) {
	if p.c.Cmp(a.c) != 0 || len(p.m) != len(a.m) {
		return nil, false
	}
	var res *Term
	used := map[*Term]bool{}
	for k, v := range p.m {
		if k.bd < b.k && k != b {
			if w, ok := a.m[k]; !ok || w.Cmp(v) != 0 {
				return nil, false
			}
			used[k] = true
			continue
		}
		ok := false
		for k2, w := range a.m {
			if used[k2] || w.Cmp(v) != 0 {
				continue
			}
			if t, o := unify(k, k2, b); o && (res == nil || res == t) {
				res = t
				used[k2] = true
				ok = true
				break
			}
		}
		if !ok {
			return nil, false
		}
	}
	return res, res != nil
}

// existsUnder compares an existence atom with the known ones.
func existsUnder(a *Term, c *cube, g *Term) int {
	n, body := a.args[0], a.args[1]
	s := fn("ex:idx")
	fnBounds["ex:idx"] = [2]*big.Int{big.NewInt(0), nil}
	qb := bindOpen(body, a.k, s)
	for _, e := range c.ex {
		if e.k == 0 {
			continue
		}
		b := mk(&Term{op: OBound, k: e.k})
		eb := e.args[1]
		// index map from a's range to e's range
		var t *Term
		for _, pa := range atomsOf(eb) {
			for _, qa := range atomsOf(qb) {
				if x, ok := unify(pa, qa, b); ok {
					t = x
				} else if pa.op == OLe && qa.op == OLe {
					if x, ok := unifyLin(toLin(pa.args[0]), toLin(qa.args[0]), b); ok {
						t = x
					}
				} else if pa.op == OEq && qa.op == OEq {
					p := mk(&Term{op: OTuple, args: []*Term{pa.args[0], pa.args[1]}})
					q := mk(&Term{op: OTuple, args: []*Term{qa.args[1], qa.args[0]}})
					if x, ok := unify(p, q, b); ok {
						t = x
					}
				}
				if t != nil {
					break
				}
			}
			if t != nil {
				break
			}
		}
		if t == nil {
			continue
		}
		rng := and(g, and(le(tZero, s), lt(s, n)))
		eBody := asBoolT(bindOpen(eb, e.k, t))
		if !c.lit[e] {
			// a's range maps into e's range, and a's body implies e's body
			if simp(and(le(tZero, t), lt(t, e.args[0])), rng) == tTrue && and(asBoolT(qb), not(eBody)) == tFalse {
				return -1
			}
		} else if t == s && n == e.args[0] && and(eBody, not(asBoolT(qb))) == tFalse {
			return 1
		}
	}
	return 0
}

// ---------- linear arithmetic ----------

// unsat2: the constraints exclude q = 0.
func unsat2(c *cube, q lin) bool {
	neg := linAdd(lin{c: new(big.Int), m: map[*Term]*big.Int{}}, q, bigMinus)
	return unsatL(c, []lin{q, neg})
}

func unsat(c *cube, q lin) bool { return unsatL(c, []lin{q}) }

// unsatL reports whether the constraints of the cube, the bounds of the terms
// involved and qs (each <= 0) have no common solution (Fourier-Motzkin over
// the constraints connected to qs).
func unsatL(c *cube, qs []lin) bool {
	cons := append([]lin(nil), qs...)
	vars := map[*Term]bool{}
	var todo []*Term
	addVars := func(l lin) {
		for k := range l.m {
			if !vars[k] {
				vars[k] = true
				todo = append(todo, k)
			}
		}
	}
	for _, q := range qs {
		addVars(q)
	}
	used := make([]bool, len(c.lins))
	seenAx := map[*Term]bool{}
	for rounds := 0; rounds < 6; rounds++ {
		grew := false
		for i, l := range c.lins {
			if used[i] {
				continue
			}
			for k := range l.m {
				if vars[k] {
					used[i] = true
					grew = true
					cons = append(cons, l)
					addVars(l)
					break
				}
			}
		}
		for _, v := range todo {
			if seenAx[v] {
				continue
			}
			seenAx[v] = true
			for _, l := range axioms(v, c) {
				cons = append(cons, l)
				addVars(l)
				grew = true
			}
		}
		todo = nil
		for v := range vars {
			if !seenAx[v] {
				todo = append(todo, v)
			}
		}
		if !grew && len(todo) == 0 {
			break
		}
		if len(cons) > 60 {
			break
		}
	}
	return fm(cons)
}

func single(t *Term, coef int64, c *big.Int) lin {
	return lin{c: new(big.Int).Set(c), m: map[*Term]*big.Int{t: big.NewInt(coef)}}
}

// axioms of one integer term.
func axioms(v *Term, c *cube) []lin {
	var out []lin
	lo, hi := bounds(v)
	if lo != nil {
		out = append(out, single(v, -1, lo)) // lo - v <= 0
	}
	if hi != nil {
		out = append(out, single(v, 1, new(big.Int).Neg(hi)))
	}
	if v.op == OFn && v.name == "div" && v.args[0].op != OIte {
		d := v.args[1].n
		// 0 <= x - d*v <= d-1
		x := toLin(v.args[0])
		e := linAdd(x, single(v, 1, new(big.Int)), new(big.Int).Neg(d))
		up := linAdd(e, lin{c: new(big.Int).Sub(d, bigOne), m: map[*Term]*big.Int{}}, bigMinus)
		dn := linAdd(lin{c: new(big.Int), m: map[*Term]*big.Int{}}, e, bigMinus)
		out = append(out, up, dn)
	}
	if v.op == OFirst {
		ex := mk(&Term{op: OExists, k: v.k, args: v.args})
		if c.lit[ex] && v.args[0].op != OIte {
			l := linAdd(single(v, 1, big.NewInt(1)), toLin(v.args[0]), bigMinus)
			out = append(out, l)
		}
	}
	return out
}

// fm decides infeasibility of a conjunction of (lin <= 0).
func fm(cons []lin) bool {
	for iter := 0; iter < 40; iter++ {
		// constants
		var next []lin
		seen := map[string]bool{}
		vars := map[*Term][2]int{}
		for _, l := range cons {
			if len(l.m) == 0 {
				if l.c.Sign() > 0 {
					return true
				}
				continue
			}
			l = normLin(l)
			k := linKey(l)
			if seen[k] {
				continue
			}
			seen[k] = true
			next = append(next, l)
			for v, co := range l.m {
				p := vars[v]
				if co.Sign() > 0 {
					p[0]++
				} else {
					p[1]++
				}
				vars[v] = p
			}
		}
		cons = next
		if len(vars) == 0 {
			return false
		}
		// eliminate the cheapest variable
		rough := map[*Term]bool{}
		var best *Term
		bestCost := 1 << 30
		for _, l := range cons {
			for v, co := range l.m {
				if co.CmpAbs(bigOne) != 0 {
					rough[v] = true
				}
			}
		}
		for v, p := range vars {
			cost := p[0]*p[1] - p[0] - p[1]
			if rough[v] {
				cost += 60 // eliminating it would lose integrality
			}
			if cost < bestCost || cost == bestCost && v.id < best.id {
				best, bestCost = v, cost
			}
		}
		if bestCost > 180 || len(cons) > 250 {
			return false
		}
		var pos, neg, rest []lin
		for _, l := range cons {
			if co, ok := l.m[best]; ok {
				if co.Sign() > 0 {
					pos = append(pos, l)
				} else {
					neg = append(neg, l)
				}
			} else {
				rest = append(rest, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				cp := p.m[best]
				cn := new(big.Int).Neg(n.m[best])
				a := linAdd(lin{c: new(big.Int), m: map[*Term]*big.Int{}}, p, cn)
				rest = append(rest, linAdd(a, n, cp))
			}
		}
		cons = rest
	}
	return false
}

// normLin divides by the gcd of the coefficients and tightens the constant.
func normLin(l lin) lin {
	g := new(big.Int)
	for _, v := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
	}
	if g.Cmp(bigOne) <= 0 {
		return l
	}
	m := map[*Term]*big.Int{}
	for k, v := range l.m {
		m[k] = new(big.Int).Quo(v, g)
	}
	q := new(big.Int)
	q.DivMod(new(big.Int).Neg(l.c), g, new(big.Int))
	return lin{c: q.Neg(q), m: m}
}

func linKey(l lin) string {
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(l.m[k].String())
		sb.WriteString("*")
		sb.WriteString(big.NewInt(int64(k.id)).String())
		sb.WriteString(" ")
	}
	sb.WriteString(l.c.String())
	return sb.String()
}

// restrict is a guard without a condition whose value is given.
func restrict(g, a *Term, v bool) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if t.op != OIte {
			return t
		}
		if t.args[0] == a {
			if v {
				return t.args[1]
			}
			return t.args[2]
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := ite(asBDD(t.args[0]), f(t.args[1]), f(t.args[2]))
		memo[t] = r
		return r
	}
	return f(g)
}

// impossible tells whether every way a guard can come true contradicts itself;
// n bounds the cases tried.
func impossible(g *Term, n *int) bool {
	old := amb
	defer func() { amb = old }()
	amb = nil
	if g == tFalse {
		return true
	}
	if *n--; *n < 0 {
		return false
	}
	lits := forced(g)
	var as []*Term
	for a := range lits {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id > as[j].id })
	for _, a := range as {
		if r := atomUnder(a, restrict(g, a, lits[a])); r != 0 && (r == 1) != lits[a] {
			return true
		}
	}
	var pick *Term
	for _, a := range atomsOf(g) {
		if _, ok := lits[a]; !ok && (pick == nil || a.id > pick.id) {
			pick = a
		}
	}
	if pick == nil {
		return false
	}
	return impossible(and(g, asBDD(pick)), n) && impossible(and(g, not(asBDD(pick))), n)
}
