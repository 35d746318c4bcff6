package main

// Polynomials over integer atoms, used by the analysis of the curve
// arithmetic: every machine integer is a polynomial with exact coefficients
// together with an interval, and a shift introduces an atom with its
// definition, so that what the carries move about cancels algebraically.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type apoly map[string]*big.Int

type avp struct {
	id int
	e  *big.Int
}

var monoCache = map[string][]avp{"": nil}

func monoParse(m string) []avp {
	if r, ok := monoCache[m]; ok {
		return r
	}
	var r []avp
	for _, x := range strings.Split(m, ".") {
		i := strings.IndexByte(x, '^')
		id, _ := strconv.Atoi(x[:i])
		e, _ := new(big.Int).SetString(x[i+1:], 10)
		r = append(r, avp{id, e})
	}
	monoCache[m] = r
	return r
}

func monoKey(vs []avp) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte('.')
		}
		b.WriteString(strconv.Itoa(v.id))
		b.WriteByte('^')
		b.WriteString(v.e.String())
	}
	return b.String()
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x, y := monoParse(a), monoParse(b)
	var r []avp
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j == len(y) || i < len(x) && x[i].id < y[j].id:
			r = append(r, x[i])
			i++
		case i == len(x) || y[j].id < x[i].id:
			r = append(r, y[j])
			j++
		default:
			r = append(r, avp{x[i].id, new(big.Int).Add(x[i].e, y[j].e)})
			i++
			j++
		}
	}
	return monoKey(r)
}

var (
	biOne  = big.NewInt(1)
	biZero = new(big.Int)
)

func pow2(k uint) *big.Int { return new(big.Int).Lsh(biOne, k) }

func pConst(c *big.Int) apoly {
	if c.Sign() == 0 {
		return apoly{}
	}
	return apoly{"": c}
}

func pInt(c int64) apoly { return pConst(big.NewInt(c)) }

func pVar(id int) apoly { return apoly{strconv.Itoa(id) + "^1": biOne} }

// addTo adds k·b into a copy of a.
func pAddK(a, b apoly, k *big.Int) apoly {
	r := make(apoly, len(a)+len(b))
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		d := c
		if k != nil {
			d = new(big.Int).Mul(c, k)
		}
		if o, ok := r[m]; ok {
			d = new(big.Int).Add(o, d)
		}
		if d.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = d
		}
	}
	return r
}

func pAdd(a, b apoly) apoly { return pAddK(a, b, nil) }
func pSub(a, b apoly) apoly { return pAddK(a, b, big.NewInt(-1)) }

func pScale(a apoly, k *big.Int) apoly {
	if k.Sign() == 0 {
		return apoly{}
	}
	r := make(apoly, len(a))
	for m, c := range a {
		r[m] = new(big.Int).Mul(c, k)
	}
	return r
}

func pMul(a, b apoly) apoly {
	r := apoly{}
	for m, c := range a {
		for n, d := range b {
			k := monoMul(m, n)
			x := new(big.Int).Mul(c, d)
			if o, ok := r[k]; ok {
				x.Add(x, o)
			}
			if x.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = x
			}
		}
	}
	return r
}

func pMod(a apoly, p *big.Int) apoly {
	r := apoly{}
	for m, c := range a {
		x := new(big.Int).Mod(c, p)
		if x.Sign() != 0 {
			r[m] = x
		}
	}
	return r
}

func (a apoly) constant() (*big.Int, bool) {
	switch len(a) {
	case 0:
		return biZero, true
	case 1:
		c, ok := a[""]
		return c, ok
	}
	return nil, false
}

func (a apoly) c0() *big.Int {
	if c, ok := a[""]; ok {
		return c
	}
	return biZero
}

func (a apoly) key() string {
	ks := make([]string, 0, len(a))
	for m := range a {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, m := range ks {
		b.WriteString(a[m].String())
		b.WriteByte('*')
		b.WriteString(m)
		b.WriteByte(' ')
	}
	return b.String()
}

// linearAtoms lists the atoms that occur, with whether each occurs only as a
// monomial of its own.
func (a apoly) atoms() map[int]bool {
	r := map[int]bool{}
	for m := range a {
		vs := monoParse(m)
		for _, v := range vs {
			alone := len(vs) == 1 && v.e.Cmp(biOne) == 0
			if o, ok := r[v.id]; ok {
				alone = alone && o
			}
			r[v.id] = alone
		}
	}
	return r
}

type ivl struct{ lo, hi *big.Int }

func (a ivl) in(lo, hi *big.Int) bool { return a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 }

func (a ivl) meet(b ivl) ivl {
	r := a
	if b.lo.Cmp(r.lo) > 0 {
		r.lo = b.lo
	}
	if b.hi.Cmp(r.hi) < 0 {
		r.hi = b.hi
	}
	return r
}

func ivlMul(a, b ivl) ivl {
	var r ivl
	for _, x := range []*big.Int{a.lo, a.hi} {
		for _, y := range []*big.Int{b.lo, b.hi} {
			z := new(big.Int).Mul(x, y)
			if r.lo == nil || z.Cmp(r.lo) < 0 {
				r.lo = z
			}
			if r.hi == nil || z.Cmp(r.hi) > 0 {
				r.hi = z
			}
		}
	}
	return r
}

// Atoms.

const (
	atInput = iota
	atShift // floor(def / 2^k)
	atLow   // def, known to be def mod 2^k of the shift atom `of`
	atShort // a name for def
	atOpaque
	atXor
)

type aatom struct {
	id   int
	kind int
	r    ivl
	def  apoly
	k    uint
	name string
	xor  map[string]apoly
	wrap bool // what does not fit a machine type: not to be taken for a carry
}

type atoms struct {
	l     []*aatom
	memo  map[string]int
	lowOf map[int]int // shift atom -> its low part
}

func newAtoms() *atoms { return &atoms{memo: map[string]int{}, lowOf: map[int]int{}} }

func (t *atoms) add(kind int, r ivl, name string) *aatom {
	a := &aatom{id: len(t.l), kind: kind, r: r, name: name}
	t.l = append(t.l, a)
	return a
}

func (t *atoms) input(name string, lo, hi *big.Int) apoly {
	return pVar(t.add(atInput, ivl{lo, hi}, name).id)
}

// quick is the interval of p from the intervals of its atoms.
func (t *atoms) quick(p apoly) ivl {
	lo, hi := new(big.Int), new(big.Int)
	for m, c := range p {
		v := ivl{biOne, biOne}
		for _, x := range monoParse(m) {
			n := int(x.e.Int64())
			if n%2 == 0 {
				s := ivlMul(t.l[x.id].r, t.l[x.id].r)
				if t.l[x.id].r.lo.Sign() <= 0 && t.l[x.id].r.hi.Sign() >= 0 {
					s.lo = biZero
				}
				for ; n > 0; n -= 2 {
					v = ivlMul(v, s)
				}
			}
			for ; n > 0; n-- {
				v = ivlMul(v, t.l[x.id].r)
			}
		}
		v = ivlMul(v, ivl{c, c})
		lo.Add(lo, v.lo)
		hi.Add(hi, v.hi)
	}
	return ivl{lo, hi}
}

// divIvl divides an interval by den, rounding to the integers inside.
func divIvl(a ivl, den *big.Int) ivl {
	lo, m := new(big.Int).DivMod(a.lo, den, new(big.Int))
	if m.Sign() != 0 {
		lo.Add(lo, biOne)
	}
	hi, _ := new(big.Int).DivMod(a.hi, den, new(big.Int))
	return ivl{lo, hi}
}

// rng bounds p, also by writing the shift atoms in it as (def-low)/2^k.
func (t *atoms) rng(p apoly) ivl {
	best := t.quick(p)
	den := new(big.Int).Set(biOne)
	cur := p
	for step := 0; step < 400; step++ {
		at, id := cur.atoms(), -1
		for a, alone := range at {
			if alone && (t.l[a].kind == atShift || t.l[a].kind == atShort) && a > id {
				id = a
			}
		}
		if id < 0 {
			break
		}
		a := t.l[id]
		key := strconv.Itoa(id) + "^1"
		c := cur[key]
		rest := make(apoly, len(cur))
		for m, x := range cur {
			if m != key {
				rest[m] = x
			}
		}
		if a.kind == atShort {
			cur = pAddK(rest, a.def, c)
		} else {
			low := t.low(id)
			cur = pAddK(pScale(rest, pow2(a.k)), pAddK(a.def, low, big.NewInt(-1)), c)
			den = new(big.Int).Mul(den, pow2(a.k))
		}
		if len(cur) > 600 {
			break
		}
		best = best.meet(divIvl(t.quick(cur), den))
	}
	return best
}

// low is the atom for def mod 2^k of a shift atom.
func (t *atoms) low(shift int) apoly {
	if id, ok := t.lowOf[shift]; ok {
		return pVar(id)
	}
	s := t.l[shift]
	a := t.add(atLow, ivl{biZero, new(big.Int).Sub(pow2(s.k), biOne)}, "low")
	a.def = pAddK(s.def, pVar(shift), new(big.Int).Neg(pow2(s.k)))
	t.lowOf[shift] = a.id
	return pVar(a.id)
}

// simplify replaces X - 2^k·(X>>k) by the atom of the low bits.
func (t *atoms) simplify(p apoly) apoly {
again:
	for m, c := range p {
		vs := monoParse(m)
		if len(vs) != 1 || vs[0].e.Cmp(biOne) != 0 {
			continue
		}
		a := t.l[vs[0].id]
		if a.kind != atShift || a.wrap {
			continue
		}
		q, rem := new(big.Int).QuoRem(c, new(big.Int).Neg(pow2(a.k)), new(big.Int))
		if rem.Sign() != 0 || q.Sign() == 0 {
			continue
		}
		low := t.low(a.id)
		def := t.l[t.lowOf[a.id]].def
		n := pAddK(pAddK(p, def, new(big.Int).Neg(q)), low, q)
		if len(n) < len(p) || len(n) == len(p) && len(n) <= 2 {
			p = n
			goto again
		}
	}
	return p
}

const shortLimit = 64

func (t *atoms) shorten(p apoly, r ivl) apoly {
	if len(p) <= shortLimit {
		return p
	}
	k := "short " + p.key()
	id, ok := t.memo[k]
	if !ok {
		a := t.add(atShort, r, "short")
		a.def = p
		id = a.id
		t.memo[k] = id
	}
	return pVar(id)
}

// split separates the monomials whose coefficients are multiples of m.
func split(p apoly, m *big.Int) (mult, rest apoly) {
	mult, rest = apoly{}, apoly{}
	for k, c := range p {
		q, r := new(big.Int).DivMod(c, m, new(big.Int))
		if k == "" {
			if q.Sign() != 0 {
				mult[k] = q
			}
			if r.Sign() != 0 {
				rest[k] = r
			}
			continue
		}
		if r.Sign() == 0 {
			mult[k] = q
		} else {
			rest[k] = c
		}
	}
	return
}

// shift is floor(p / 2^k).
func (t *atoms) shift(p apoly, k uint) apoly {
	if k == 0 {
		return p
	}
	p = t.simplify(p)
	m := pow2(k)
	if c, ok := p.constant(); ok {
		return pConst(new(big.Int).Div(c, m))
	}
	out, r := split(p, m)
	def, defK := r, k
	nested := false
	for round := 0; round < 200; round++ {
		m = pow2(k)
		mu, r2 := split(r, m)
		if len(mu) > 0 {
			out, r = pAdd(out, mu), r2
			if nested {
				def, defK = r, k
			} else {
				def = r
			}
		}
		if c, ok := r.constant(); ok {
			return pAdd(out, pConst(new(big.Int).Div(c, m)))
		}
		v := t.quick(r)
		if v.in(biZero, new(big.Int).Sub(m, biOne)) {
			return out
		}
		if v.in(new(big.Int).Neg(m), big.NewInt(-1)) {
			return pAdd(out, pInt(-1))
		}
		// the lowest bits do not matter when they cannot carry
		changed := false
		for j := k - 1; j >= 1; j-- {
			mj := pow2(j)
			hi, lo := split(r, mj)
			if len(hi) == 0 || len(lo) == 0 && j > 1 && false {
				continue
			}
			if t.quick(lo).in(biZero, new(big.Int).Sub(mj, biOne)) {
				r, k = hi, k-j
				def, defK = r, k
				changed = true
				break
			}
		}
		if changed {
			continue
		}
		// floor((A + floor(B/2^j))/2^k) = floor((2^j·A + B)/2^(j+k))
		for _, id := range sortedAtoms(r) {
			a := t.l[id]
			key := strconv.Itoa(id) + "^1"
			if a.kind == atShift && r.atoms()[id] && r[key].Cmp(biOne) == 0 && k+a.k <= 600 {
				rest := pAddK(r, pVar(id), big.NewInt(-1))
				r = t.simplify(pAdd(pScale(rest, pow2(a.k)), a.def))
				k += a.k
				changed, nested = true, true
				break
			}
		}
		if changed {
			continue
		}
		break
	}
	m = pow2(k)
	key := fmt.Sprintf("%s>>%d", r.key(), k)
	if id, ok := t.memo[key]; ok {
		return pAdd(out, pVar(id))
	}
	for _, id := range sortedAtoms(r) {
		a := t.l[id]
		if a.kind == atShift && r.atoms()[id] {
			if t.rng(pAddK(r, pVar(id), new(big.Int).Neg(m))).in(biZero, new(big.Int).Sub(m, biOne)) {
				return pAdd(out, pVar(id))
			}
		}
	}
	v := t.rng(r)
	iv := ivl{new(big.Int).Div(v.lo, m), new(big.Int).Div(v.hi, m)}
	if defK != k || nested {
		w := t.rng(def)
		md := pow2(defK)
		iv = iv.meet(ivl{new(big.Int).Div(w.lo, md), new(big.Int).Div(w.hi, md)})
	}
	if iv.lo.Cmp(iv.hi) == 0 {
		return pAdd(out, pConst(iv.lo))
	}
	a := t.add(atShift, iv, "shift")
	a.def, a.k = def, defK
	t.memo[key] = a.id
	return pAdd(out, pVar(a.id))
}

func sortedAtoms(p apoly) []int {
	var r []int
	for id := range p.atoms() {
		r = append(r, id)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(r)))
	return r
}

// expand writes p over inputs and shift atoms.
func (t *atoms) expand(p apoly) apoly {
	for {
		id := -1
		for a := range p.atoms() {
			if (t.l[a].kind == atLow || t.l[a].kind == atShort) && a > id {
				id = a
			}
		}
		if id < 0 {
			return p
		}
		r := apoly{}
		pows := map[string]apoly{}
		for m, c := range p {
			vs := monoParse(m)
			var rest []avp
			e := -1
			for _, v := range vs {
				if v.id == id {
					e = int(v.e.Int64())
				} else {
					rest = append(rest, v)
				}
			}
			if e < 0 {
				r = pAddIn(r, m, c)
				continue
			}
			ek := strconv.Itoa(e)
			d, ok := pows[ek]
			if !ok {
				d = t.l[id].def
				for i := 1; i < e; i++ {
					d = pMul(d, t.l[id].def)
				}
				pows[ek] = d
			}
			rk := monoKey(rest)
			for n, x := range d {
				r = pAddIn(r, monoMul(rk, n), new(big.Int).Mul(c, x))
			}
		}
		p = r
	}
}

func pAddIn(r apoly, m string, c *big.Int) apoly {
	if o, ok := r[m]; ok {
		c = new(big.Int).Add(o, c)
	}
	if c.Sign() == 0 {
		delete(r, m)
	} else {
		r[m] = c
	}
	return r
}

func (t *atoms) show(p apoly, n int) string {
	var ks []string
	for m := range p {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var b []string
	for i, m := range ks {
		if i == n {
			b = append(b, "...")
			break
		}
		s := p[m].String()
		for _, v := range monoParse(m) {
			s += "*" + t.l[v.id].name
			if v.e.Cmp(biOne) != 0 {
				s += "^" + v.e.String()
			}
		}
		b = append(b, s)
	}
	if len(b) == 0 {
		return "0"
	}
	return strings.Join(b, " + ")
}
