package main

// Hash-consed terms: the value domain of the analysis. Every abstract value
// (booleans, integers, byte strings, structures, pointers, ...) is a Term, and
// two values that the normal form proves equal are the same Term.
//
// Gated values are Shannon nodes (OIte) whose conditions are atoms ordered by
// identity, so booleans are BDDs and gated scalars are MTBDDs.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OIte    // atom, hi, lo
	OInt    // big
	OLin    // const + sum coef*arg
	OFn     // uninterpreted function / symbol: name, args
	OBound  // bound variable number k
	OBytes  // constant bytes in name
	OCat    // concatenation
	OSub    // base, off, len
	OUnit   // one element
	OGen    // n, body[Bound k]
	OFilt   // n, cond[Bound k], elem[Bound k]: elements whose condition holds
	ORep    // elem, n
	OExists // n, body[Bound k]: a boolean atom
	OFirst  // n, body[Bound k]: an integer
	OIter   // k, init, body[Bound ka = iteration, Bound kb = current]
	OLe     // args[0] <= 0: an atom
	OEq     // equality atom
	OIsNil  // nilness atom
	OStruct // typ, fields
	OTuple
	ONil
	OPtr   // object k (base id), index args
	OFAddr // pointer, field k
	OIAddr // pointer, index
	OSlc   // pointer to array content, off, len, cap
	OIface // typ = dynamic type, value
	OFunc  // fn, bindings
	OObj   // snapshot of what a pointer points to
	OSeqv  // snapshot of a slice: nilness, content
	OUnk   // an undetermined value
)

var opNames = map[Op]string{OTrue: "true", OFalse: "false", OIte: "ite", OInt: "int", OLin: "lin", OFn: "fn", OBound: "b", OBytes: "bytes", OCat: "cat", OSub: "sub", OUnit: "unit", OGen: "gen", OFilt: "filt", ORep: "rep", OExists: "exists", OFirst: "first", OIter: "iter", OLe: "le0", OEq: "eq", OIsNil: "isnil", OStruct: "struct", OTuple: "tuple", ONil: "nil", OPtr: "ptr", OFAddr: "faddr", OIAddr: "iaddr", OSlc: "slc", OIface: "iface", OFunc: "func", OObj: "obj", OSeqv: "seqv", OUnk: "unknown"}

type Term struct {
	id   int
	op   Op
	name string
	k    int
	k2   int
	n    *big.Int
	co   []*big.Int
	args []*Term
	typ  types.Type
	fn   *ssa.Function

	hasIte bool // contains an OIte anywhere
	bd     int  // highest binder number contained
	syms   bool
}

var table = map[string]*Term{}
var allTerms []*Term

type tooBig struct{}

var termLimit = 4000000

func mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%d|", t.op, t.name, t.k, t.k2)
	if t.n != nil {
		sb.WriteString(t.n.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, c := range t.co {
		sb.WriteString(";")
		sb.WriteString(c.String())
	}
	if t.typ != nil {
		sb.WriteString("#")
		sb.WriteString(typeKey(t.typ))
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "@%p", t.fn)
	}
	key := sb.String()
	if x, ok := table[key]; ok {
		return x
	}
	t.id = len(allTerms)
	if t.id > termLimit {
		panic(undecided("term table limit reached"))
	}
	t.hasIte = t.op == OIte || t.op == OLe || t.op == OEq || t.op == OIsNil || t.op == OExists || (t.op == OFn && isBoolFn(t.name))
	if t.op == OBound {
		t.bd = t.k
	}
	for _, a := range t.args {
		if a.hasIte {
			t.hasIte = true
		}
		if a.bd > t.bd {
			t.bd = a.bd
		}
	}
	if (t.op == OGen || t.op == OFilt || t.op == OExists || t.op == OFirst || t.op == OIter) && t.k > t.bd {
		t.bd = t.k
	}
	if t.op == OIter && t.k2 > t.bd {
		t.bd = t.k2
	}
	if t.op == OFn && strings.HasPrefix(t.name, "wrap:") {
		t.hasIte = true
	}
	table[key] = t
	allTerms = append(allTerms, t)
	return t
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeys[t] = s
	return s
}

var tTrue, tFalse, tNil, tZero, tOne, tEmpty *Term

func initTerms() {
	table = map[string]*Term{}
	allTerms = nil
	iteCache = map[[3]int]*Term{}
	notCache = map[int]*Term{}
	simpCache = map[[2]int]*Term{}
	cubeCache = map[int]*cube{}
	substCache = nil
	tTrue = mk(&Term{op: OTrue})
	tFalse = mk(&Term{op: OFalse})
	tNil = mk(&Term{op: ONil})
	tZero = tInt(0)
	tOne = tInt(1)
	tEmpty = mk(&Term{op: OCat})
}

func tInt(i int64) *Term    { return mk(&Term{op: OInt, n: big.NewInt(i)}) }
func tBig(i *big.Int) *Term { return mk(&Term{op: OInt, n: new(big.Int).Set(i)}) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OInt }
func (t *Term) i64() int64    { return t.n.Int64() }
func (t *Term) isAtom() bool {
	switch t.op {
	case OLe, OEq, OIsNil, OExists:
		return true
	case OFn:
		return isBoolFn(t.name)
	case OUnk:
		return t.name == "bool"
	}
	return false
}

// boolFns names the uninterpreted functions and symbols of sort bool.
var boolFns = map[string]bool{}

func isBoolFn(n string) bool { return boolFns[n] }

// ---------- gated values ----------

var iteCache = map[[3]int]*Term{}
var notCache = map[int]*Term{}

// asBDD turns a boolean atom into a node.
func asBDD(c *Term) *Term {
	switch c.op {
	case OTrue, OFalse, OIte:
		return c
	}
	if !c.isAtom() {
		panic(undecided("not a boolean: " + str(c)))
	}
	return mk(&Term{op: OIte, args: []*Term{c, tTrue, tFalse}})
}

func top(t *Term) *Term {
	if t.op == OIte {
		return t.args[0]
	}
	return nil
}

// cof returns the cofactors of t with respect to atom a (a is not above the
// top atom of t).
func cof(t, a *Term) (*Term, *Term) {
	if t.op == OIte && t.args[0] == a {
		return t.args[1], t.args[2]
	}
	return t, t
}

func node(a, hi, lo *Term) *Term {
	if hi == tEmpty && a.op == OLe && isSeq(lo) && a.args[0] == tLen(lo) {
		return lo // empty exactly when it has no elements
	}
	if hi == lo {
		return hi
	}
	// keep structures apart from their gates, so that fields stay separate
	if r := pushIte(a, hi, lo); r != nil {
		return r
	}
	return mk(&Term{op: OIte, args: []*Term{a, hi, lo}})
}

func pushIte(a, hi, lo *Term) *Term {
	if hi.op == lo.op && (hi.op == OStruct || hi.op == OTuple || hi.op == OUnit) && len(hi.args) == len(lo.args) {
		args := make([]*Term, len(hi.args))
		ab := asBDD(a)
		for i := range args {
			args[i] = ite(ab, hi.args[i], lo.args[i])
		}
		return mk(&Term{op: hi.op, typ: hi.typ, args: args})
	}
	if hi.op == OIface && lo.op == OIface && typeKey(hi.typ) == typeKey(lo.typ) {
		return mk(&Term{op: OIface, typ: hi.typ, args: []*Term{ite(asBDD(a), hi.args[0], lo.args[0])}})
	}
	return nil
}

func ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	c = asBDD(c)
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.isAtom() {
		a = asBDD(a)
	}
	if b.isAtom() {
		b = asBDD(b)
	}
	key := [3]int{c.id, a.id, b.id}
	if r, ok := iteCache[key]; ok {
		return r
	}
	t := top(c)
	if x := top(a); x != nil && x.id < t.id {
		t = x
	}
	if x := top(b); x != nil && x.id < t.id {
		t = x
	}
	ch, cl := cof(c, t)
	ah, al := cof(a, t)
	bh, bl := cof(b, t)
	r := node(t, ite(ch, ah, bh), ite(cl, al, bl))
	iteCache[key] = r
	return r
}

func and(a, b *Term) *Term { return ite(a, b, tFalse) }
func or(a, b *Term) *Term  { return ite(a, tTrue, b) }
func not(a *Term) *Term    { return ite(a, tFalse, tTrue) }
func implies(a, b *Term) *Term {
	return ite(a, b, tTrue)
}

// lift applies f to the leaves of gated arguments.
func lift(f func([]*Term) *Term, args ...*Term) *Term {
	var t *Term
	for _, a := range args {
		if x := top(a); x != nil && (t == nil || x.id < t.id) {
			t = x
		}
	}
	if t == nil {
		return f(args)
	}
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i], lo[i] = cof(a, t)
	}
	// respect the ambient guard, so that impossible combinations are not built
	switch atomUnder(t, amb) {
	case 1:
		return lift(f, hi...)
	case -1:
		return lift(f, lo...)
	}
	h, failed := liftCase(f, hi, t, true)
	l, failed2 := liftCase(f, lo, t, false)
	switch {
	case failed != nil && failed2 != nil:
		panic(failed)
	case failed != nil:
		return l
	case failed2 != nil:
		return h
	}
	return ite(asBDD(t), h, l)
}

// liftCase is lift for one value of the condition t. Where the analysis cannot
// describe a case, the case may still turn out to be impossible.
func liftCase(f func([]*Term) *Term, args []*Term, t *Term, v bool) (r *Term, failed interface{}) {
	withAmb(t, v, func() {
		g := amb
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			u, ok := e.(undecided)
			if !ok {
				panic(e)
			}
			n := 200
			if strings.HasSuffix(string(u), possible) || !impossible(g, &n) {
				panic(undecided(strings.TrimSuffix(string(u), possible) + possible))
			}
			failed = u
		}()
		r = lift(f, args...)
	})
	return
}

// possible ends the description of what cannot be described in a case that may arise.
const possible = "\u200b"

// ---------- integers ----------

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{c: new(big.Int), m: map[*Term]*big.Int{}}
	switch t.op {
	case OInt:
		l.c.Set(t.n)
	case OLin:
		l.c.Set(t.n)
		for i, a := range t.args {
			l.m[a] = t.co[i]
		}
	default:
		l.m[t] = big.NewInt(1)
	}
	return l
}

func fromLin(l lin) *Term {
	var ks []*Term
	for k, c := range l.m {
		if c.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return tBig(l.c)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && l.c.Sign() == 0 && l.m[ks[0]].Cmp(big.NewInt(1)) == 0 {
		return ks[0]
	}
	co := make([]*big.Int, len(ks))
	for i, k := range ks {
		co[i] = new(big.Int).Set(l.m[k])
	}
	return mk(&Term{op: OLin, n: new(big.Int).Set(l.c), args: ks, co: co})
}

func linAdd(a, b lin, f *big.Int) lin {
	r := lin{c: new(big.Int).Set(a.c), m: map[*Term]*big.Int{}}
	for k, v := range a.m {
		r.m[k] = v
	}
	r.c.Add(r.c, new(big.Int).Mul(b.c, f))
	for k, v := range b.m {
		x := new(big.Int).Mul(v, f)
		if y, ok := r.m[k]; ok {
			x.Add(x, y)
		}
		if x.Sign() == 0 {
			delete(r.m, k)
		} else {
			r.m[k] = x
		}
	}
	return r
}

var bigOne = big.NewInt(1)
var bigMinus = big.NewInt(-1)

func add(a, b *Term) *Term {
	return lift(func(x []*Term) *Term { return fromLin(linAdd(toLin(x[0]), toLin(x[1]), bigOne)) }, a, b)
}
func sub(a, b *Term) *Term {
	return lift(func(x []*Term) *Term { return fromLin(linAdd(toLin(x[0]), toLin(x[1]), bigMinus)) }, a, b)
}
func mulc(a *Term, c *big.Int) *Term {
	return lift(func(x []*Term) *Term {
		return fromLin(linAdd(lin{c: new(big.Int), m: map[*Term]*big.Int{}}, toLin(x[0]), c))
	}, a)
}
func addi(a *Term, i int64) *Term { return add(a, tInt(i)) }

// le is the truth of a <= b.
func le(a, b *Term) *Term {
	return lift(func(x []*Term) *Term {
		l := linAdd(toLin(x[0]), toLin(x[1]), bigMinus)
		return leZero(l)
	}, a, b)
}
func lt(a, b *Term) *Term { return le(addi(a, 1), b) }

// leZero builds the truth of l <= 0 over integers, normalised.
func leZero(l lin) *Term {
	if len(l.m) == 0 {
		return tBool(l.c.Sign() <= 0)
	}
	if r := boundLe(l); r != 0 {
		return tBool(r > 0)
	}
	// divide by gcd of the coefficients, rounding the constant
	g := new(big.Int)
	for _, v := range l.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
	}
	m := map[*Term]*big.Int{}
	for k, v := range l.m {
		m[k] = new(big.Int).Quo(v, g)
	}
	// sum + c/g <= 0  ->  sum <= floor(-c/g)
	negc := new(big.Int).Neg(l.c)
	q := new(big.Int)
	q.DivMod(negc, g, new(big.Int))
	c := new(big.Int).Neg(q)
	var first *Term
	for k := range m {
		if first == nil || k.id < first.id {
			first = k
		}
	}
	if m[first].Sign() > 0 {
		t := fromLin(lin{c: c, m: m})
		return asBDD(mk(&Term{op: OLe, args: []*Term{t}}))
	}
	// not (-sum - c + 1 <= 0)
	nm := map[*Term]*big.Int{}
	for k, v := range m {
		nm[k] = new(big.Int).Neg(v)
	}
	nc := new(big.Int).Neg(c)
	nc.Add(nc, bigOne)
	t := fromLin(lin{c: nc, m: nm})
	return not(asBDD(mk(&Term{op: OLe, args: []*Term{t}})))
}

func eqInt(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return and(le(a, b), le(b, a))
}

// bounds of an integer leaf term; nil means unbounded.
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OInt:
		return t.n, t.n
	case OFn:
		if b, ok := fnBounds[t.name]; ok {
			return b[0], b[1]
		}
		if t.name == "len" && t.args[0].op == OFn && t.args[0].name == "decimal" {
			// at most the digits of the largest value, when none is negative
			if l, h := bounds(t.args[0].args[0]); l != nil && h != nil && l.Sign() >= 0 {
				return big.NewInt(1), big.NewInt(int64(len(h.String())))
			}
			return big.NewInt(1), big.NewInt(20)
		}
		if t.name == "len" || t.name == "cap" {
			return big.NewInt(0), big.NewInt(1 << 48)
		}
		if t.name == "at" {
			if b, ok := elemBounds(t.args[0]); ok {
				return b[0], b[1]
			}
		}
		if strings.HasPrefix(t.name, "wrap:") {
			return intRange(t.name[5:])
		}
		if strings.HasPrefix(t.name, "mask:") {
			// (x & and) | or of a byte or wider word
			return big.NewInt(0), big.NewInt(int64(t.k | t.k2))
		}
		if t.name == "div" {
			lo, hi := bounds(t.args[0])
			d := t.args[1].n
			var l2, h2 *big.Int
			if lo != nil && lo.Sign() >= 0 {
				l2 = new(big.Int).Quo(lo, d)
				if hi != nil {
					h2 = new(big.Int).Quo(hi, d)
				}
			}
			return l2, h2
		}
	case OFirst:
		return big.NewInt(0), nil
	case OLin:
		// a remainder
		for i, a := range t.args {
			if a.op == OFn && a.name == "div" && t.co[i].Sign() < 0 && t.co[i].CmpAbs(a.args[1].n) == 0 && sub(t, mulc(a, t.co[i])) == a.args[0] {
				if l, _ := bounds(a.args[0]); l != nil && l.Sign() >= 0 {
					return new(big.Int), new(big.Int).Sub(a.args[1].n, bigOne)
				}
			}
		}
		lo, hi := new(big.Int).Set(t.n), new(big.Int).Set(t.n)
		for i, a := range t.args {
			l, h := bounds(a)
			if t.co[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil && l != nil {
				lo.Add(lo, new(big.Int).Mul(l, t.co[i]))
			} else {
				lo = nil
			}
			if hi != nil && h != nil {
				hi.Add(hi, new(big.Int).Mul(h, t.co[i]))
			} else {
				hi = nil
			}
		}
		return lo, hi
	case OIte:
		l1, h1 := bounds(t.args[1])
		l2, h2 := bounds(t.args[2])
		var lo, hi *big.Int
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return lo, hi
	}
	return nil, nil
}

var fnBounds = map[string][2]*big.Int{}

func intRange(kind string) (*big.Int, *big.Int) {
	switch kind {
	case "uint8", "byte":
		return big.NewInt(0), big.NewInt(255)
	case "uint16":
		return big.NewInt(0), big.NewInt(65535)
	case "uint32":
		return big.NewInt(0), big.NewInt(1<<32 - 1)
	case "uint64", "uint", "uintptr":
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(bigOne, 64), bigOne)
	case "int8":
		return big.NewInt(-128), big.NewInt(127)
	case "int16":
		return big.NewInt(-32768), big.NewInt(32767)
	case "int32", "rune":
		return big.NewInt(-1 << 31), big.NewInt(1<<31 - 1)
	}
	return big.NewInt(-1 << 63), big.NewInt(1<<63 - 1)
}

// boundLe decides l <= 0 from the bounds of its terms: 1 true, -1 false.
func boundLe(l lin) int {
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for k, v := range l.m {
		a, b := bounds(k)
		if v.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil && a != nil {
			lo.Add(lo, new(big.Int).Mul(a, v))
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi.Add(hi, new(big.Int).Mul(b, v))
		} else {
			hi = nil
		}
	}
	if hi != nil && hi.Sign() <= 0 {
		return 1
	}
	if lo != nil && lo.Sign() > 0 {
		return -1
	}
	return 0
}

// wrap reduces an integer to the range of a Go integer type.
func wrap(kind string, t *Term) *Term {
	return lift(func(x []*Term) *Term {
		v := x[0]
		lo, hi := intRange(kind)
		if v.op == OInt {
			if v.n.Cmp(lo) >= 0 && v.n.Cmp(hi) <= 0 {
				return v
			}
			size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
			r := new(big.Int).Mod(new(big.Int).Sub(v.n, lo), size)
			return tBig(r.Add(r, lo))
		}
		if kind == "int" || kind == "int64" {
			return v // lengths and counters do not overflow 64 bits
		}
		l, h := bounds(v)
		if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return v
		}
		if decide(le(tBig(lo), v)) == 1 && decide(le(v, tBig(hi))) == 1 {
			return v
		}
		// wrapping twice is wrapping once
		if v.op == OLin && v.n.Sign() >= 0 {
			ok, changed := true, false
			acc := tBig(v.n)
			for i, a := range v.args {
				if a.op == OFn && a.name == "wrap:"+kind {
					acc = add(acc, mulc(a.args[0], v.co[i]))
					changed = true
				} else {
					acc = add(acc, mulc(a, v.co[i]))
				}
			}
			if ok && changed {
				return wrap(kind, acc)
			}
		}
		return fn("wrap:"+kind, v)
	}, t)
}

func divc(a *Term, d int64) *Term {
	return lift(func(x []*Term) *Term {
		l := toLin(x[0])
		dd := big.NewInt(d)
		// only non-negative dividends are normalised
		nonneg := decide(le(tZero, x[0])) == 1
		if x[0].op == OInt {
			return tBig(new(big.Int).Quo(x[0].n, dd))
		}
		if !nonneg {
			return fn("sdiv", x[0], tInt(d))
		}
		q := lin{c: new(big.Int), m: map[*Term]*big.Int{}}
		r := lin{c: new(big.Int), m: map[*Term]*big.Int{}}
		qc, rc := new(big.Int).DivMod(l.c, dd, new(big.Int))
		q.c, r.c = qc, rc
		for k, v := range l.m {
			qq, rr := new(big.Int).DivMod(v, dd, new(big.Int))
			if qq.Sign() != 0 {
				q.m[k] = qq
			}
			if rr.Sign() != 0 {
				r.m[k] = rr
			}
		}
		rest := fromLin(r)
		if decide(lt(rest, tInt(d))) == 1 && decide(le(tZero, rest)) == 1 {
			return fromLin(q)
		}
		return add(fromLin(q), fn("div", rest, tInt(d)))
	}, a)
}

func modc(a *Term, d int64) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].op == OInt {
			return tBig(new(big.Int).Rem(x[0].n, big.NewInt(d)))
		}
		if decide(le(tZero, x[0])) != 1 {
			return fn("smod", x[0], tInt(d))
		}
		return sub(x[0], mulc(divc(x[0], d), big.NewInt(d)))
	}, a)
}

// ---------- uninterpreted functions ----------

func fn(name string, args ...*Term) *Term {
	return mk(&Term{op: OFn, name: name, args: args})
}

func fnL(name string, args ...*Term) *Term {
	return lift(func(x []*Term) *Term { return mk(&Term{op: OFn, name: name, args: append([]*Term(nil), x...)}) }, args...)
}

func fnBool(name string, args ...*Term) *Term {
	boolFns[name] = true
	return lift(func(x []*Term) *Term {
		return asBDD(mk(&Term{op: OFn, name: name, args: append([]*Term(nil), x...)}))
	}, args...)
}

// mask is (x & a) | o for constants a, o.
func mask(x *Term, a, o int) *Term {
	return lift(func(v []*Term) *Term {
		t := v[0]
		if t.op == OInt {
			return tInt(t.n.Int64()&int64(a) | int64(o))
		}
		a &^= o
		if t.op == OFn && strings.HasPrefix(t.name, "mask:") {
			// ((y & a2) | o2) & a | o
			a2, o2 := t.k, t.k2
			return mask(t.args[0], a2&a&^o, (o2&a)|o)
		}
		_, hi := bounds(t)
		if hi != nil && hi.IsInt64() && o == 0 {
			h := int(hi.Int64())
			full := 1
			for full <= h {
				full *= 2
			}
			if a&(full-1) == full-1 {
				return t
			}
		}
		if a == 0 {
			return tInt(int64(o))
		}
		return mk(&Term{op: OFn, name: "mask:", k: a, k2: o, args: []*Term{t}})
	}, x)
}

// ---------- nested binders ----------

// abstract replaces the symbol s by a bound variable and returns the binder
// number.
func abstract(body, s *Term) (int, *Term) {
	d := body.bd + 1
	return d, subst(body, s, mk(&Term{op: OBound, k: d}))
}

func bindOpen(body *Term, d int, v *Term) *Term {
	return subst(body, mk(&Term{op: OBound, k: d}), v)
}

func tGen(n, body, s *Term) *Term {
	d, b := abstract(body, s)
	return genN(n, d, b)
}

func genN(n *Term, d int, b *Term) *Term {
	if n == tZero {
		return tEmpty
	}
	// a copy of consecutive elements is the sub-sequence itself
	if b.op == OFn && b.name == "at" {
		l := toLin(b.args[1])
		bv := mk(&Term{op: OBound, k: d})
		if c, ok := l.m[bv]; ok && c.Cmp(bigOne) == 0 && b.args[0].bd < d {
			delete(l.m, bv)
			off := fromLin(l)
			if off.bd < d {
				return tSub(b.args[0], off, n)
			}
		}
	}
	if b.bd < d && isInt(b) {
		return tRep(b, n)
	}
	// a copy of one sequence or another
	if a := top(b); a != nil && a.bd < d && n.op == OInt {
		hi, lo := cof(b, a)
		var x, y *Term
		withAmb(a, true, func() { x = genN(n, d, hi) })
		withAmb(a, false, func() { y = genN(n, d, lo) })
		if moved(x) && moved(y) {
			return ite(asBDD(a), x, y)
		}
	}
	return mk(&Term{op: OGen, k: d, args: []*Term{n, b}})
}

// moved tells whether a sequence is not made element by element.
func moved(t *Term) bool {
	if t.op == OIte {
		return moved(t.args[1]) && moved(t.args[2])
	}
	return t.op != OGen
}

func tFilt(n, cond, elem, s *Term) *Term {
	if cond == tFalse || n == tZero {
		return tEmpty
	}
	if cond == tTrue {
		return tGen(n, elem, s)
	}
	if a := top(cond); a != nil && !contains(a, s) {
		hi, lo := cof(cond, a)
		var x, y *Term
		withAmb(a, true, func() { x = tFilt(n, hi, elem, s) })
		withAmb(a, false, func() { y = tFilt(n, lo, elem, s) })
		return ite(asBDD(a), x, y)
	}
	if q := firstOnly(not(cond), s); q != nil {
		// all but the first that satisfies q
		g, h := freshInt("g"), freshInt("g")
		q = subst(q, s, h)
		f := tFirst(n, q, h)
		f1 := addi(f, 1)
		r := sub(n, f1)
		var some, all *Term
		ex := tExists(n, q, h)
		withAmbT(ex, func() {
			l := underRange(s, f, func() *Term { return tGen(f, elem, s) })
			e2 := subst(elem, s, add(g, f1))
			some = tCat(l, underRange(g, r, func() *Term { return tGen(r, e2, g) }))
		})
		withAmbT(not(ex), func() { all = tGen(n, elem, s) })
		return ite(ex, some, all)
	}
	if q := firstOnly(cond, s); q != nil {
		h := freshInt("g")
		q = subst(q, s, h)
		return ite(tExists(n, q, h), tUnit(subst(elem, s, tFirst(n, q, h))), tEmpty)
	}
	if m, lo, hi := threshold(cond, s, n); m != nil {
		// the condition changes at a known place of the range
		g := freshInt("g")
		l := underRange(s, m, func() *Term { return tFilt(m, lo, elem, s) })
		r := underRange(g, sub(n, m), func() *Term {
			return tFilt(sub(n, m), asBoolT(resimp(subst(hi, s, add(g, m)))), subst(elem, s, add(g, m)), g)
		})
		return tCat(l, r)
	}
	d := cond.bd
	if elem.bd > d {
		d = elem.bd
	}
	d++
	b := mk(&Term{op: OBound, k: d})
	return mk(&Term{op: OFilt, k: d, args: []*Term{n, subst(cond, s, b), subst(elem, s, b)}})
}

// firstOnly reads cond over s as: s is the first to satisfy q.
func firstOnly(cond, s *Term) (q *Term) {
	cond = asBoolT(cond)
	for _, a := range atomsOf(cond) {
		if a.op != OExists || a.args[0] != s {
			continue
		}
		ab := asBDD(a)
		if simp(cond, ab) != tFalse {
			continue
		}
		q := simp(cond, not(ab))
		if q != tFalse && tExistsUpTo(s, q, s) == ab {
			return q
		}
	}
	return nil
}

func withAmbT(g *Term, f func()) {
	old := amb
	defer func() { amb = old }()
	amb = and(old, g)
	f()
}

// threshold finds a place m, known to lie in [0,n], below which the condition
// over s reads lo and from which on it reads hi.
func threshold(cond, s, n *Term) (m, lo, hi *Term) {
	for _, a := range atomsOf(asBoolT(cond)) {
		if a.op != OLe {
			continue
		}
		l := toLin(a.args[0])
		c, ok := l.m[s]
		if !ok || c.CmpAbs(bigOne) != 0 {
			continue
		}
		rest := fromLin(linAdd(l, lin{c: new(big.Int), m: map[*Term]*big.Int{s: c}}, bigMinus))
		if contains(rest, s) {
			continue
		}
		ab := asBDD(a)
		h, w := simp(asBoolT(cond), ab), simp(asBoolT(cond), not(ab))
		if c.Sign() > 0 { // s + rest <= 0: s < 1 - rest
			m, lo, hi = sub(tOne, rest), h, w
		} else { // rest - s <= 0: s >= rest
			m, lo, hi = rest, w, h
		}
		if decide(le(tZero, m)) == 1 && decide(le(m, n)) == 1 {
			return m, lo, hi
		}
	}
	return nil, nil, nil
}

var freshCount int

func freshInt(name string) *Term {
	freshCount++
	return fn(fmt.Sprintf("%s#%d", name, freshCount))
}

// tExists is the truth of: some i in [0,n) satisfies body (written over s).
func tExists(n, body, s *Term) *Term {
	body = asBoolT(body)
	if body == tFalse || n == tZero {
		return tFalse
	}
	if body == tTrue {
		return le(tOne, n)
	}
	if n.op == OInt && n.i64() <= 8 {
		r := tFalse
		for i := int64(0); i < n.i64(); i++ {
			r = or(r, asBoolT(subst(body, s, tInt(i))))
		}
		return r
	}
	if n.op == OIte {
		return lift(func(x []*Term) *Term { return tExists(x[0], body, s) }, n)
	}
	// split along the parts of a concatenation that the body ranges over
	if q := rangedSeq(body, s, n); q != nil {
		r := tFalse
		off := tZero
		for _, p := range q.args {
			ln := tLen(p)
			b2 := subst(body, s, add(s, off))
			b2 = underRange(s, ln, func() *Term { return resimp(b2) })
			r = or(r, tExists(ln, b2, s))
			off = add(off, ln)
		}
		return r
	}
	if startsApart(body, s, n) {
		b0 := asBoolT(resimp(subst(body, s, tZero)))
		return or(b0, tExists(addi(n, -1), rest(body, s, n), s))
	}
	// conditions that do not depend on s move out
	if t := top(body); t != nil && !contains(t, s) {
		hi, lo := cof(body, t)
		return ite(asBDD(t), tExists(n, hi, s), tExists(n, lo, s))
	}
	if f := firstIndexUse(body, s); f < 0 {
		// the same range, walked forwards
		g := freshInt("g")
		fwd := subst(body, s, sub(addi(n, -1), g))
		if firstIndexUse(fwd, g) > 0 {
			body, s = fwd, g
		}
	}
	for _, f := range firstsIn(body, s) {
		if f.args[0] == n && simp(asBoolT(lt(f, n)), amb) == tTrue && simp(asBoolT(subst(body, s, f)), amb) == tTrue {
			return tTrue
		}
	}
	// the last one may be known to satisfy it
	if simp(asBoolT(le(tOne, n)), amb) == tTrue && simp(asBoolT(subst(body, s, addi(n, -1))), amb) == tTrue {
		return tTrue
	}
	d, b := abstract(body, s)
	return asBDD(mk(&Term{op: OExists, k: d, args: []*Term{n, b}}))
}

// firstIndexUse is the sign with which s occurs in the first element read.
func firstIndexUse(t, s *Term) int {
	seen := map[*Term]bool{}
	r := 0
	var f func(*Term)
	f = func(x *Term) {
		if r != 0 || seen[x] {
			return
		}
		seen[x] = true
		var ix *Term
		if x.op == OFn && x.name == "at" {
			ix = x.args[1]
		} else if x.op == OPtr && len(x.args) > 0 {
			ix = x.args[len(x.args)-1]
		}
		if ix != nil && ix.op != OIte {
			if c, ok := toLin(ix).m[s]; ok {
				r = c.Sign()
				return
			}
		}
		for _, a := range x.args {
			f(a)
		}
	}
	f(t)
	return r
}

func asBoolT(t *Term) *Term {
	if t.isAtom() {
		return asBDD(t)
	}
	return t
}

// tFirst is the least i in [0,n) satisfying body (meaningful if one exists).
func tFirst(n, body, s *Term) *Term {
	body = asBoolT(body)
	if body == tTrue {
		return tZero
	}
	if n.op == OIte {
		return lift(func(x []*Term) *Term { return tFirst(x[0], body, s) }, n)
	}
	if n == tOne {
		return tZero
	}
	if q := rangedSeq(body, s, n); q != nil {
		// the first part in which it exists
		type part struct{ ex, first *Term }
		var ps []part
		off := tZero
		for _, p := range q.args {
			ln := tLen(p)
			b2 := subst(body, s, add(s, off))
			b2 = underRange(s, ln, func() *Term { return resimp(b2) })
			ps = append(ps, part{tExists(ln, b2, s), add(off, tFirst(ln, b2, s))})
			off = add(off, ln)
		}
		r := ps[len(ps)-1].first
		for i := len(ps) - 2; i >= 0; i-- {
			r = ite(ps[i].ex, ps[i].first, r)
		}
		return r
	}
	if startsApart(body, s, n) {
		b0 := asBoolT(resimp(subst(body, s, tZero)))
		return ite(b0, tZero, addi(tFirst(addi(n, -1), rest(body, s, n), s), 1))
	}
	if t := top(body); t != nil && !contains(t, s) {
		hi, lo := cof(body, t)
		return ite(asBDD(t), tFirst(n, hi, s), tFirst(n, lo, s))
	}
	if f := firstUpdated(n, body, s); f != nil {
		return f
	}
	d, b := abstract(body, s)
	return mk(&Term{op: OFirst, k: d, args: []*Term{n, b}})
}

// firstsIn are the first-index terms a condition compares s with.
func firstsIn(body, s *Term) []*Term {
	var r []*Term
	for _, a := range atomsOf(body) {
		if a.op != OLe {
			continue
		}
		l := toLin(a.args[0])
		if len(l.m) != 2 || l.m[s] == nil {
			continue
		}
		for k := range l.m {
			if k.op == OFirst {
				dup := false
				for _, x := range r {
					dup = dup || x == k
				}
				if !dup {
					r = append(r, k)
				}
			}
		}
	}
	return r
}

// firstUpdated: the condition was changed only at (or after) the first index F
// at which it held before, and still holds there.
func firstUpdated(n, body, s *Term) *Term {
	for _, f := range firstsIn(body, s) {
		if f.args[0] != n {
			continue
		}
		if simp(asBoolT(lt(f, n)), amb) != tTrue || simp(asBoolT(subst(body, s, f)), amb) != tTrue {
			continue
		}
		b := asBoolT(bindOpen(f.args[1], f.k, s))
		lo := simp(body, and(amb, and(le(tZero, s), lt(s, f))))
		if and(lo, not(b)) == tFalse {
			return f
		}
	}
	return nil
}

func contains(t, s *Term) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if x == s {
			return true
		}
		if seen[x] || len(x.args) == 0 {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// startsApart: what body holds at the start of the range differs from the rest.
func startsApart(body, s, n *Term) bool {
	if simp(le(tOne, n), amb) != tTrue {
		return false
	}
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.op == OLe && x.args[0] == s {
			return true
		}
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(body)
}

// rest is body in the range after its start.
func rest(body, s, n *Term) *Term {
	start := s
	seen := map[*Term]*Term{}
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if len(x.args) == 0 {
			return x
		}
		if r, ok := seen[x]; ok {
			return r
		}
		var r *Term
		if x.op == OLe && x.args[0] == start {
			r = tFalse
		} else {
			args := make([]*Term, len(x.args))
			ch := false
			for i, a := range x.args {
				args[i] = f(a)
				ch = ch || args[i] != a
			}
			r = x
			if ch {
				r = rebuild(x, args)
			}
		}
		seen[x] = r
		return r
	}
	b := subst(f(body), s, addi(s, 1))
	return underRange(s, addi(n, -1), func() *Term { return resimp(b) })
}

// rangedSeq finds a concatenation of length n that body reads at index s.
func rangedSeq(body, s, n *Term) *Term {
	var res *Term
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(x *Term) {
		if res != nil || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OFn && x.name == "at" && x.args[1] == s && x.args[0].op == OCat && tLen(x.args[0]) == n {
			res = x.args[0]
			return
		}
		for _, a := range x.args {
			f(a)
		}
	}
	f(body)
	return res
}

// ---------- substitution ----------

var substCache map[[3]int]*Term

func subst(t, s, v *Term) *Term {
	if s == v {
		return t
	}
	return substMany(t, []*Term{s}, []*Term{v})
}

func substMany(t *Term, ss, vs []*Term) *Term {
	memo := map[*Term]*Term{}
	for i, s := range ss {
		memo[s] = vs[i]
	}
	minS := 1 << 30
	for _, s := range ss {
		if s.id < minS {
			minS = s.id
		}
	}
	var f func(*Term) *Term
	f = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		if x.id < minS || len(x.args) == 0 {
			return x
		}
		if x.op == OGen || x.op == OFilt || x.op == OExists || x.op == OFirst || x.op == OIter {
			r := f2(x, f, ss)
			memo[x] = r
			return r
		}
		args := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return f(t)
}

// f2 substitutes below a binder. The body is opened first: what is put in may
// bind variables of the same level.
func f2(x *Term, f func(*Term) *Term, ss []*Term) *Term {
	n0 := 1
	if x.op == OIter {
		n0 = 2
	}
	any := false
	for _, a := range x.args[n0:] {
		any = any || containsAny(a, ss)
	}
	args := append([]*Term(nil), x.args...)
	ch := false
	for i := 0; i < n0; i++ {
		args[i] = f(x.args[i])
		ch = ch || args[i] != x.args[i]
	}
	if !any {
		if !ch {
			return x
		}
		return rebuild(x, args)
	}
	s := freshInt("g")
	switch x.op {
	case OGen:
		return tGen(args[0], f(bindOpen(x.args[1], x.k, s)), s)
	case OFilt:
		return tFilt(args[0], f(bindOpen(x.args[1], x.k, s)), f(bindOpen(x.args[2], x.k, s)), s)
	case OExists:
		return tExists(args[0], f(bindOpen(x.args[1], x.k, s)), s)
	case OFirst:
		return tFirst(args[0], f(bindOpen(x.args[1], x.k, s)), s)
	}
	c := freshInt("g")
	b := substRaw(x.args[2], map[*Term]*Term{mk(&Term{op: OBound, k: x.k}): s, mk(&Term{op: OBound, k: x.k2}): c})
	return tIter(args[0], args[1], f(b), s, c)
}

func containsAny(t *Term, ss []*Term) bool {
	for _, s := range ss {
		if contains(t, s) {
			return true
		}
	}
	return false
}

// substRaw replaces variables by symbols; the shape of the term stays.
func substRaw(t *Term, memo map[*Term]*Term) *Term {
	var f func(*Term) *Term
	f = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		args := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			y := *x
			y.args = args
			r = mk(&y)
		}
		memo[x] = r
		return r
	}
	return f(t)
}

// rebuild makes a term like x with other arguments, through the normalising
// constructors.
func rebuild(x *Term, args []*Term) *Term {
	switch x.op {
	case OIte:
		return ite(asBoolT(args[0]), args[1], args[2])
	case OLin:
		r := tBig(x.n)
		for i, a := range args {
			r = add(r, mulc(a, x.co[i]))
		}
		return r
	case OFn:
		switch {
		case x.name == "len":
			return tLen(args[0])
		case x.name == "at":
			return tAt(args[0], args[1])
		case x.name == "div":
			return divc(args[0], args[1].i64())
		case x.name == "sdiv":
			return divc(args[0], args[1].i64())
		case x.name == "smod":
			return modc(args[0], args[1].i64())
		case x.name == "mask:":
			return mask(args[0], x.k, x.k2)
		case strings.HasPrefix(x.name, "wrap:"):
			return wrap(x.name[5:], args[0])
		case isBoolFn(x.name):
			return fnBool(x.name, args...)
		}
		return fnL(x.name, args...)
	case OCat:
		return tCat(args...)
	case OSub:
		return tSub(args[0], args[1], args[2])
	case OUnit:
		return tUnit(args[0])
	case ORep:
		return tRep(args[0], args[1])
	case OGen:
		s := freshInt("g")
		return tGen(args[0], bindOpen(args[1], x.k, s), s)
	case OFilt:
		s := freshInt("g")
		return tFilt(args[0], bindOpen(args[1], x.k, s), bindOpen(args[2], x.k, s), s)
	case OExists:
		s := freshInt("g")
		return tExists(args[0], bindOpen(args[1], x.k, s), s)
	case OFirst:
		s := freshInt("g")
		return tFirst(args[0], bindOpen(args[1], x.k, s), s)
	case OIter:
		s, c := freshInt("g"), freshInt("g")
		b := substMany(args[2], []*Term{mk(&Term{op: OBound, k: x.k}), mk(&Term{op: OBound, k: x.k2})}, []*Term{s, c})
		return tIter(args[0], args[1], b, s, c)
	case OLe:
		return le(args[0], tZero)
	case OEq:
		return tEq(args[0], args[1])
	case OIsNil:
		return isNil(args[0])
	case OSlc:
		return lift(func(a []*Term) *Term {
			return mk(&Term{op: OSlc, args: append([]*Term(nil), a...), k: x.k})
		}, args...)
	case OPtr, OFAddr, OIAddr:
		return lift(func(a []*Term) *Term {
			return mk(&Term{op: x.op, k: x.k, args: append([]*Term(nil), a...)})
		}, args...)
	}
	return mk(&Term{op: x.op, name: x.name, k: x.k, k2: x.k2, n: x.n, typ: x.typ, fn: x.fn, args: args})
}

// tIter is the value of cur after n iterations of cur = body(iteration, cur).
func tIter(n, init, body, ks, cs *Term) *Term {
	if n == tZero {
		return init
	}
	d := body.bd + 1
	b := substMany(body, []*Term{ks, cs}, []*Term{mk(&Term{op: OBound, k: d}), mk(&Term{op: OBound, k: d + 1})})
	return lift(func(x []*Term) *Term {
		if x[0] == tZero {
			return x[1]
		}
		if x[0].op == OInt && x[0].n.IsInt64() && 0 < x[0].n.Int64() && x[0].n.Int64() <= 6 {
			v := x[1]
			for i := int64(0); i < x[0].n.Int64(); i++ {
				v = substMany(body, []*Term{ks, cs}, []*Term{tInt(i), v})
			}
			return v
		}
		return mk(&Term{op: OIter, k: d, k2: d + 1, args: []*Term{x[0], x[1], b}})
	}, n, init)
}

// ---------- printing ----------

func str(t *Term) string { return strD(t, 7) }

func strD(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OTrue, OFalse, ONil:
		return opNames[t.op]
	case OInt:
		return t.n.String()
	case OBytes:
		return fmt.Sprintf("%q", t.name)
	case OBound:
		return fmt.Sprintf("b%d", t.k)
	case OUnk:
		return "?" + t.name
	}
	if d == 0 {
		return fmt.Sprintf("%s~%d", opNames[t.op], t.id)
	}
	if t.op == OLin {
		var p []string
		for i, a := range t.args {
			c := t.co[i].String()
			if c == "1" {
				c = ""
			} else if c == "-1" {
				c = "-"
			} else {
				c += "*"
			}
			p = append(p, c+strD(a, d-1))
		}
		if t.n.Sign() != 0 {
			p = append(p, t.n.String())
		}
		return "(" + strings.Join(p, "+") + ")"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, strD(a, d-1))
	}
	nm := opNames[t.op]
	switch t.op {
	case OFn:
		nm = t.name
		if nm == "mask:" {
			nm = fmt.Sprintf("mask(%x,%x)", t.k, t.k2)
		}
		if len(p) == 0 {
			return nm
		}
	case OPtr:
		nm = baseName(t.k)
		if len(p) == 0 {
			return "&" + nm
		}
		nm = "&" + nm
	case OFAddr:
		return p[0] + "." + fmt.Sprint(t.k)
	case OStruct, OIface:
		if t.typ != nil {
			nm = shortType(t.typ)
		}
	case OFunc:
		if t.fn != nil {
			nm = "func " + t.fn.Name()
		}
	case OGen, OExists, OFirst:
		nm = fmt.Sprintf("%s$%d", nm, t.k)
	}
	return nm + "(" + strings.Join(p, ", ") + ")"
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}
