package main

// An abstract interpreter for straight-line integer code over fixed-size
// arrays: machine integers are polynomials with intervals (arith_poly.go),
// field elements are, one level up, polynomials modulo p with bounds on
// their limbs, and curve points, one level further up, are multiples of the
// base point. Loops are followed as long as their conditions are decided by
// constants; a condition on an input is a failure of the analysis.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type aint struct {
	p apoly
	r ivl
}

type afelt struct {
	p    apoly // modulo p, over the variables of the curve level
	b    [10]ivl
	wide bool
}

type acell struct {
	t    types.Type
	kids []*acell
	v    any    // leaf
	fe   *afelt // field element as a whole
	g    apoly  // point as a multiple of the base point
	zero bool
}

type aslice struct {
	c        *acell
	off, len int
}

type aagg struct{ c *acell }

type anil struct{}

type arithFail string

// arithWrong is a definite fault, such as an index outside an array.
type arithWrong string

// arithStd: integer helpers whose own source is analysed too.
var arithStd = map[string]bool{"math/bits": true, "crypto/subtle": true, "crypto/internal/fips140/subtle": true,
	"encoding/binary": true, "internal/byteorder": true, "crypto/internal/fips140deps/byteorder": true, "crypto/internal/constanttime": true}

type aclosure struct {
	f  *ssa.Function
	bs []any
}

type arith struct {
	t      *atoms
	prog   *program
	level  int
	pkg    *ssa.Package
	glob   map[*ssa.Global]*acell
	hook   func(in *arith, f *ssa.Function, args []any) ([]any, bool)
	steps  int
	stack  []*ssa.Function
	wraps  map[string]bool // where an operation can exceed its type
	fns    map[string]bool
	choose func() bool    // takes one side of a condition on the input; nil: none can be taken
	eqs    []apoly        // what is zero on this path
	facts  map[string]ivl // what a condition says of a polynomial without its constant
}

func (in *arith) fail(f string, a ...any) {
	w := ""
	if n := len(in.stack); n > 0 {
		w = in.stack[n-1].Name() + ": "
	}
	panic(arithFail(w + fmt.Sprintf(f, a...)))
}

func (in *arith) wrong(f string, a ...any) {
	w := ""
	if n := len(in.stack); n > 0 {
		w = in.stack[n-1].Name() + ": "
	}
	panic(arithWrong(w + fmt.Sprintf(f, a...)))
}

func (in *arith) newCell(t types.Type) *acell { return &acell{t: t, zero: true} }

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

func (c *acell) expandKids(in *arith) {
	if c.kids != nil {
		return
	}
	if c.fe != nil || c.g != nil {
		in.fail("parts of an abstract value are used")
	}
	switch u := c.t.Underlying().(type) {
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			c.kids = append(c.kids, in.newCell(u.Elem()))
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			c.kids = append(c.kids, in.newCell(u.Field(i).Type()))
		}
	default:
		in.fail("no parts in %s", c.t)
	}
}

func (c *acell) kid(in *arith, i int) *acell {
	c.expandKids(in)
	if i < 0 || i >= len(c.kids) {
		in.wrong("index %d of %d", i, len(c.kids))
	}
	return c.kids[i]
}

func (c *acell) assign(o *acell) {
	c.v, c.fe, c.g, c.zero = o.v, o.fe, o.g, o.zero
	if o.kids == nil {
		c.kids = nil
		return
	}
	if o == c {
		return
	}
	ks := make([]*acell, len(o.kids))
	for i, k := range o.kids {
		ks[i] = &acell{t: k.t}
		ks[i].assign(k)
	}
	if c.kids == nil {
		c.kids = ks
		return
	}
	for i := range ks { // pointers into c stay valid
		c.kids[i].assign(ks[i])
	}
}

func isComposite(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return true
	}
	return false
}

func (in *arith) load(c *acell) any {
	if isComposite(c.t) {
		n := &acell{t: c.t}
		n.assign(c)
		return aagg{n}
	}
	if c.v == nil {
		return in.zeroOf(c.t)
	}
	return c.v
}

func (in *arith) zeroOf(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return aint{apoly{}, ivl{biZero, biZero}}
		}
		if u.Info()&types.IsBoolean != 0 {
			return false
		}
	case *types.Array, *types.Struct:
		return aagg{in.newCell(t)}
	}
	return anil{}
}

func (in *arith) store(c *acell, v any) {
	if a, ok := v.(aagg); ok {
		c.assign(a.c)
		return
	}
	c.v = v
}

func aConst(k *big.Int) aint { return aint{pConst(k), ivl{k, k}} }

// mk makes an integer from a polynomial, with what is known of its interval.
func (in *arith) mk(p apoly, r ivl) aint {
	p = in.t.simplify(p)
	r = in.known(p, in.t.quick(p).meet(r))
	p = in.t.shorten(p, r)
	return aint{p, r}
}

func typeWidth(t types.Type) (bits uint, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return
}

func typeRange(w uint, signed bool) ivl {
	if signed {
		return ivl{new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), biOne)}
	}
	return ivl{biZero, new(big.Int).Sub(pow2(w), biOne)}
}

// fit brings a mathematical result into a machine type.
func (in *arith) fit(x aint, t types.Type, pos token.Pos, convert bool) aint {
	w, s, ok := typeWidth(t)
	if !ok {
		in.fail("type %s", t)
	}
	tr := typeRange(w, s)
	x.r = in.known(x.p, x.r)
	if x.r.in(tr.lo, tr.hi) {
		return x
	}
	if s && !convert {
		q := in.prog.prog.Fset.Position(pos)
		in.wraps[fmt.Sprintf("%s:%d", relFile(q.Filename), q.Line)] = true
	}
	var off apoly
	if s {
		off = pConst(pow2(w - 1))
	}
	n := len(in.t.l)
	q := in.t.shift(pAdd(x.p, off), w)
	for _, a := range in.t.l[n:] {
		a.wrap = true
	}
	return in.mk(pAddK(x.p, q, new(big.Int).Neg(pow2(w))), tr)
}

func (in *arith) shr(x aint, k uint) aint {
	m := pow2(k)
	return in.mk(in.t.shift(x.p, k), ivl{new(big.Int).Div(x.r.lo, m), new(big.Int).Div(x.r.hi, m)})
}

// low is x mod 2^k.
func (in *arith) low(x aint, k uint) aint {
	if x.r.in(biZero, new(big.Int).Sub(pow2(k), biOne)) {
		return x
	}
	q := in.t.shift(x.p, k)
	return in.mk(pAddK(x.p, q, new(big.Int).Neg(pow2(k))), ivl{biZero, new(big.Int).Sub(pow2(k), biOne)})
}

func (x aint) konst() (*big.Int, bool) {
	if c, ok := x.p.constant(); ok {
		return c, true
	}
	if x.r.lo.Cmp(x.r.hi) == 0 {
		return x.r.lo, true
	}
	return nil, false
}

// tz is the number of low bits known to be zero.
func tz(p apoly) uint {
	n := uint(1 << 20)
	for _, c := range p {
		if z := c.TrailingZeroBits(); z < n {
			n = z
		}
	}
	return n
}

func (in *arith) and(x, y aint) aint {
	if _, ok := x.konst(); ok {
		x, y = y, x
	}
	c, ok := y.konst()
	if !ok {
		if x.r.in(big.NewInt(-1), biZero) {
			x, y = y, x
		}
		if y.r.in(big.NewInt(-1), biZero) { // a mask: all or nothing
			if in.branch(token.EQL, y.p).(bool) {
				return aConst(biZero)
			}
			in.eqs = append(in.eqs, pAdd(y.p, pInt(1)))
			return x
		}
		in.fail("& of two inputs")
	}
	if k, ok := x.konst(); ok {
		return aConst(new(big.Int).And(k, c))
	}
	if c.Sign() < 0 {
		// x & ^m = x - (x & m)
		m := new(big.Int).Not(c)
		if m.Sign() == 0 {
			return x
		}
		y := in.and(x, aConst(m))
		r := ivl{new(big.Int).Sub(x.r.lo, y.r.hi), x.r.hi}
		if x.r.lo.Sign() >= 0 {
			r.lo = biZero
		}
		return in.mk(pSub(x.p, y.p), r)
	}
	res := aConst(biZero)
	for i := 0; i < c.BitLen(); {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for c.Bit(j) == 1 {
			j++
		}
		part := in.low(in.shr(x, uint(i)), uint(j-i))
		s := pow2(uint(i))
		res = in.mk(pAddK(res.p, part.p, s), ivl{
			new(big.Int).Add(res.r.lo, new(big.Int).Mul(part.r.lo, s)),
			new(big.Int).Add(res.r.hi, new(big.Int).Mul(part.r.hi, s))})
		i = j
	}
	return res
}

// arithSkip leaves a path that no input takes.
type arithSkip struct{}

// branch takes one side of a comparison of d with zero that depends on the
// input, and notes what holds there.
func (in *arith) branch(op token.Token, d apoly) any {
	if in.choose == nil {
		in.fail("a comparison (%s) depends on the input", op)
	}
	yes := in.choose()
	o := op
	if !yes {
		o = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ,
			token.GEQ: token.LSS, token.LEQ: token.GTR, token.GTR: token.LEQ}[op]
	}
	if o == token.EQL {
		in.eqs = append(in.eqs, d)
	}
	// a single atom: its interval is smaller here
	c := d.c0()
	r := pSub(d, pConst(c))
	for id, alone := range r.atoms() {
		k := r[fmt.Sprintf("%d^1", id)]
		if !alone || len(r) != 1 || k.CmpAbs(biOne) != 0 || o == token.NEQ {
			continue
		}
		if k.Sign() < 0 { // -a + c op 0: a - c op' 0
			c = new(big.Int).Neg(c)
			if m, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[o]; ok {
				o = m
			}
		}
		at := in.t.l[id]
		n := new(big.Int).Neg(c)
		v := at.r
		switch o {
		case token.EQL:
			v = v.meet(ivl{n, n})
		case token.LSS:
			v = v.meet(ivl{v.lo, new(big.Int).Sub(n, biOne)})
		case token.LEQ:
			v = v.meet(ivl{v.lo, n})
		case token.GTR:
			v = v.meet(ivl{new(big.Int).Add(n, biOne), v.hi})
		case token.GEQ:
			v = v.meet(ivl{n, v.hi})
		}
		if v.lo.Cmp(v.hi) > 0 {
			panic(arithSkip{})
		}
		at.r = v
		if at.kind == atShift { // and so of what was shifted
			m := pow2(at.k)
			dc := at.def.c0()
			in.note(pSub(at.def, pConst(dc)), ivl{
				new(big.Int).Sub(new(big.Int).Mul(v.lo, m), dc),
				new(big.Int).Sub(new(big.Int).Add(new(big.Int).Mul(v.hi, m), new(big.Int).Sub(m, biOne)), dc)})
		}
	}
	return yes
}

func (in *arith) note(p apoly, r ivl) {
	if in.facts == nil {
		in.facts = map[string]ivl{}
	}
	k := p.key()
	if o, ok := in.facts[k]; ok {
		r = r.meet(o)
	}
	in.facts[k] = r
}

// known adds what the conditions of the path say.
func (in *arith) known(p apoly, r ivl) ivl {
	if in.facts == nil {
		return r
	}
	c := p.c0()
	if f, ok := in.facts[pSub(p, pConst(c)).key()]; ok {
		r = r.meet(ivl{new(big.Int).Add(f.lo, c), new(big.Int).Add(f.hi, c)})
	}
	return r
}

// reduce uses the equations of the path.
func (in *arith) reduce(p apoly) apoly {
	p = in.t.expand(p)
	for _, e := range in.eqs {
		e = in.t.expand(e)
		for _, id := range sortedAtoms(e) {
			key := fmt.Sprintf("%d^1", id)
			c := e[key]
			if !e.atoms()[id] || c.CmpAbs(biOne) != 0 || !p.atoms()[id] {
				continue
			}
			p = pAddK(p, e, new(big.Int).Mul(new(big.Int).Neg(p[key]), c))
			break
		}
	}
	return p
}

// or is | or ^ of integers with no common bits.
func (in *arith) or(x, y aint, xor bool, t types.Type) aint {
	a, ok1 := x.konst()
	b, ok2 := y.konst()
	if ok1 && ok2 {
		if xor {
			return aConst(new(big.Int).Xor(a, b))
		}
		return aConst(new(big.Int).Or(a, b))
	}
	if ok1 && a.Sign() == 0 {
		return y
	}
	if ok2 && b.Sign() == 0 {
		return x
	}
	sum := func() aint {
		return in.mk(pAdd(x.p, y.p), ivl{new(big.Int).Add(x.r.lo, y.r.lo), new(big.Int).Add(x.r.hi, y.r.hi)})
	}
	for i := 0; i < 2; i++ {
		z := tz(y.p)
		if z > 0 && z < 1<<19 && x.r.in(biZero, new(big.Int).Sub(pow2(z), biOne)) {
			return sum()
		}
		x, y = y, x
	}
	if !xor {
		if ok1 {
			x, y, b, ok2 = y, x, a, true
		}
		if ok2 { // x | c = x + c - (x & c)
			m := in.and(x, aConst(b))
			return in.mk(pSub(pAdd(x.p, pConst(b)), m.p), typeRangeOf(t))
		}
		if x.p.key() == y.p.key() {
			return x
		}
		// x | y for unrelated values
		return aint{pVar(in.t.add(atOpaque, typeRangeOf(t), "or").id), typeRangeOf(t)}
	}
	if ok1 {
		x, y, b, ok2 = y, x, a, true
	}
	if ok2 && b.Sign() >= 0 { // x ^ c = x + c - 2(x & c)
		m := in.and(x, aConst(b))
		return in.mk(pAddK(pAdd(x.p, pConst(b)), m.p, big.NewInt(-2)), typeRangeOf(t))
	}
	// exclusive or of arbitrary integers: a set of operands
	set := map[string]apoly{}
	flip := func(p apoly) {
		if len(p) == 1 {
			for m, c := range p {
				vs := monoParse(m)
				if c.Cmp(biOne) == 0 && len(vs) == 1 && in.t.l[vs[0].id].kind == atXor {
					for k, q := range in.t.l[vs[0].id].xor {
						if _, ok := set[k]; ok {
							delete(set, k)
						} else {
							set[k] = q
						}
					}
					return
				}
			}
		}
		k := p.key()
		if _, ok := set[k]; ok {
			delete(set, k)
		} else {
			set[k] = p
		}
	}
	flip(x.p)
	flip(y.p)
	r := typeRangeOf(t)
	switch len(set) {
	case 0:
		return aConst(biZero)
	case 1:
		for _, p := range set {
			return aint{p, in.t.quick(p).meet(r)}
		}
	}
	at := in.t.add(atXor, r, "xor")
	at.xor = set
	return aint{pVar(at.id), r}
}

func typeRangeOf(t types.Type) ivl {
	w, s, ok := typeWidth(t)
	if !ok {
		w, s = 64, true
	}
	return typeRange(w, s)
}

func (in *arith) binop(op token.Token, a, b any, t, xt types.Type, pos token.Pos) any {
	if x, ok := a.(bool); ok {
		y, ok := b.(bool)
		if !ok {
			in.fail("operands")
		}
		switch op {
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
		in.fail("operator %s", op)
	}
	x, ok1 := a.(aint)
	y, ok2 := b.(aint)
	if !ok1 || !ok2 {
		in.fail("operator %s on %T and %T", op, a, b)
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := in.t.rng(pSub(x.p, y.p)).meet(ivl{new(big.Int).Sub(x.r.lo, y.r.hi), new(big.Int).Sub(x.r.hi, y.r.lo)})
		lt, gt := d.hi.Sign() < 0, d.lo.Sign() > 0
		le, ge := d.hi.Sign() <= 0, d.lo.Sign() >= 0
		known := func(yes, no bool) any {
			if yes {
				return true
			}
			if no {
				return false
			}
			return in.branch(op, pSub(x.p, y.p))
		}
		switch op {
		case token.EQL:
			return known(le && ge, lt || gt)
		case token.NEQ:
			return known(lt || gt, le && ge)
		case token.LSS:
			return known(lt, ge)
		case token.LEQ:
			return known(le, gt)
		case token.GTR:
			return known(gt, le)
		default:
			return known(ge, lt)
		}
	case token.ADD:
		return in.fit(in.mk(pAdd(x.p, y.p), ivl{new(big.Int).Add(x.r.lo, y.r.lo), new(big.Int).Add(x.r.hi, y.r.hi)}), t, pos, false)
	case token.SUB:
		return in.fit(in.mk(pSub(x.p, y.p), ivl{new(big.Int).Sub(x.r.lo, y.r.hi), new(big.Int).Sub(x.r.hi, y.r.lo)}), t, pos, false)
	case token.MUL:
		return in.fit(in.mk(pMul(x.p, y.p), ivlMul(x.r, y.r)), t, pos, false)
	case token.SHL:
		k, ok := y.konst()
		if !ok || !k.IsUint64() || k.Uint64() > 128 {
			in.fail("shift by an input")
		}
		m := pow2(uint(k.Uint64()))
		return in.fit(in.mk(pScale(x.p, m), ivlMul(x.r, ivl{m, m})), t, pos, true)
	case token.SHR:
		k, ok := y.konst()
		if !ok || !k.IsUint64() || k.Uint64() > 128 {
			in.fail("shift by an input")
		}
		return in.shr(x, uint(k.Uint64()))
	case token.AND:
		return in.and(x, y)
	case token.OR:
		return in.or(x, y, false, t)
	case token.XOR:
		return in.or(x, y, true, t)
	case token.AND_NOT:
		c, ok := y.konst()
		if !ok {
			in.fail("&^ of two inputs")
		}
		return in.and(x, aConst(new(big.Int).Not(c)))
	case token.QUO, token.REM:
		c, ok := y.konst()
		if !ok || c.Sign() <= 0 {
			in.fail("division")
		}
		if k, ok := x.konst(); ok {
			if op == token.QUO {
				return aConst(new(big.Int).Quo(k, c))
			}
			return aConst(new(big.Int).Rem(k, c))
		}
		if x.r.lo.Sign() >= 0 && c.TrailingZeroBits() == uint(c.BitLen()-1) {
			if op == token.QUO {
				return in.shr(x, c.TrailingZeroBits())
			}
			return in.low(x, c.TrailingZeroBits())
		}
	}
	in.fail("operator %s", op)
	return nil
}

func (in *arith) val(fr map[ssa.Value]any, v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return in.zeroOf(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return constant.BoolVal(v.Value)
		case constant.Int:
			k, ok := new(big.Int).SetString(constant.ToInt(v.Value).ExactString(), 10)
			if !ok {
				in.fail("constant %s", v)
			}
			return aConst(k)
		}
		in.fail("constant %s", v)
	case *ssa.Global:
		c, ok := in.glob[v]
		if !ok {
			c = in.newCell(v.Type().(*types.Pointer).Elem())
			in.glob[v] = c
		}
		return c
	case *ssa.Function:
		return v
	}
	r, ok := fr[v]
	if !ok {
		in.fail("value %s", v)
	}
	return r
}

func (in *arith) call(f *ssa.Function, args []any) []any { return in.callWith(f, args, nil) }

func (in *arith) callWith(f *ssa.Function, args, free []any) []any {
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "crypto/subtle" {
		if r, ok := in.subtle(f.Name(), args); ok {
			return r
		}
	}
	if in.hook != nil {
		if r, ok := in.hook(in, f, args); ok {
			return r
		}
	}
	if f.Blocks == nil {
		if k := fnPkg(f); k != nil && !in.prog.isModFn(f) && arithStd[k.Pkg.Path()] {
			k.Build()
		}
	}
	if f.Blocks == nil {
		in.fail("call of %s", f)
	}
	if len(in.stack) > 60 {
		in.fail("call depth")
	}
	in.fns[relName(f)] = true
	in.stack = append(in.stack, f)
	fr := map[ssa.Value]any{}
	for i, p := range f.Params {
		fr[p] = args[i]
	}
	for i, v := range f.FreeVars {
		fr[v] = free[i]
	}
	b, prev := f.Blocks[0], (*ssa.BasicBlock)(nil)
	for {
		// phis read the values on entry
		var phis []any
		n := 0
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					phis = append(phis, in.val(fr, ph.Edges[i]))
					break
				}
			}
			n++
		}
		for i := 0; i < n; i++ {
			fr[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs[n:] {
			if in.steps++; in.steps > 20000000 {
				in.fail("too long")
			}
			switch x := ins.(type) {
			case *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := in.val(fr, x.Cond).(bool)
				if !ok {
					in.fail("condition")
				}
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				var r []any
				for _, v := range x.Results {
					r = append(r, in.val(fr, v))
				}
				in.stack = in.stack[:len(in.stack)-1]
				return r
			case *ssa.Store:
				c, ok := in.val(fr, x.Addr).(*acell)
				if !ok {
					in.fail("store to %s", x.Addr)
				}
				in.store(c, in.val(fr, x.Val))
			case ssa.Value:
				fr[x] = in.step(fr, x)
			default:
				in.fail("instruction %T", ins)
			}
		}
		if next == nil {
			in.fail("no successor")
		}
		b, prev = next, b
	}
}

// subtle: the comparisons of crypto/subtle, where their outcome is known.
func (in *arith) subtle(name string, args []any) ([]any, bool) {
	var k []*big.Int
	for _, a := range args {
		x, ok := a.(aint)
		if !ok {
			return nil, false
		}
		c, ok := x.konst()
		if !ok {
			return nil, false
		}
		k = append(k, c)
	}
	b := func(v bool) ([]any, bool) {
		if v {
			return []any{aConst(biOne)}, true
		}
		return []any{aConst(biZero)}, true
	}
	switch name {
	case "ConstantTimeEq", "ConstantTimeByteEq":
		return b(k[0].Cmp(k[1]) == 0)
	case "ConstantTimeLessOrEq":
		return b(k[0].Cmp(k[1]) <= 0)
	case "ConstantTimeSelect":
		if k[0].Sign() != 0 {
			return []any{aConst(k[1])}, true
		}
		return []any{aConst(k[2])}, true
	}
	return nil, false
}

func (in *arith) index(v any) int {
	x, ok := v.(aint)
	if !ok {
		in.fail("index")
	}
	c, ok := x.konst()
	if !ok || !c.IsInt64() {
		in.fail("an index depends on the input")
	}
	return int(c.Int64())
}

func (in *arith) step(fr map[ssa.Value]any, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Alloc:
		return in.newCell(x.Type().(*types.Pointer).Elem())
	case *ssa.BinOp:
		return in.binop(x.Op, in.val(fr, x.X), in.val(fr, x.Y), x.Type(), x.X.Type(), x.Pos())
	case *ssa.UnOp:
		a := in.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			c, ok := a.(*acell)
			if !ok {
				in.fail("load")
			}
			return in.load(c)
		case token.SUB:
			i, ok := a.(aint)
			if !ok {
				in.fail("negation")
			}
			return in.fit(in.mk(pScale(i.p, big.NewInt(-1)), ivl{new(big.Int).Neg(i.r.hi), new(big.Int).Neg(i.r.lo)}), x.Type(), x.Pos(), false)
		case token.NOT:
			return !a.(bool)
		case token.XOR: // -x-1
			i, ok := a.(aint)
			if !ok {
				in.fail("complement")
			}
			return in.fit(in.mk(pAddK(pInt(-1), i.p, big.NewInt(-1)), ivl{new(big.Int).Not(i.r.hi), new(big.Int).Not(i.r.lo)}), x.Type(), x.Pos(), true)
		}
		in.fail("operator %s", x.Op)
	case *ssa.Convert:
		i, ok := in.val(fr, x.X).(aint)
		if !ok {
			in.fail("conversion to %s", x.Type())
		}
		return in.fit(i, x.Type(), x.Pos(), true)
	case *ssa.ChangeType:
		return in.val(fr, x.X)
	case *ssa.FieldAddr:
		c, ok := in.val(fr, x.X).(*acell)
		if !ok {
			in.fail("field of %T", in.val(fr, x.X))
		}
		return c.kid(in, x.Field)
	case *ssa.Field:
		return in.load(in.val(fr, x.X).(aagg).c.kid(in, x.Field))
	case *ssa.IndexAddr:
		i := in.index(in.val(fr, x.Index))
		switch c := in.val(fr, x.X).(type) {
		case *acell:
			return c.kid(in, i)
		case aslice:
			if i < 0 || i >= c.len {
				in.wrong("index %d of %d", i, c.len)
			}
			return c.c.kid(in, c.off+i)
		}
		in.fail("index of %s", x.X)
	case *ssa.Index:
		a, ok := in.val(fr, x.X).(aagg)
		if !ok {
			in.fail("index of %s", x.X)
		}
		return in.load(a.c.kid(in, in.index(in.val(fr, x.Index))))
	case *ssa.Slice:
		var base *acell
		off, n := 0, 0
		switch c := in.val(fr, x.X).(type) {
		case *acell:
			a, ok := c.t.Underlying().(*types.Array)
			if !ok {
				in.fail("slice of %s", c.t)
			}
			base, n = c, int(a.Len())
		case aslice:
			base, off, n = c.c, c.off, c.len
		default:
			in.fail("slice of %T", c)
		}
		lo, hi := 0, n
		if x.Low != nil {
			lo = in.index(in.val(fr, x.Low))
		}
		if x.High != nil {
			hi = in.index(in.val(fr, x.High))
		}
		if lo < 0 || hi < lo || hi > n {
			in.wrong("slice bounds %d:%d of %d", lo, hi, n)
		}
		return aslice{base, off + lo, hi - lo}
	case *ssa.SliceToArrayPointer:
		in.fail("slice to array")
	case *ssa.MakeSlice:
		n := in.index(in.val(fr, x.Len))
		t := types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), int64(n))
		return aslice{in.newCell(t), 0, n}
	case *ssa.MakeClosure:
		var bs []any
		for _, b := range x.Bindings {
			bs = append(bs, in.val(fr, b))
		}
		return aclosure{x.Fn.(*ssa.Function), bs}
	case *ssa.Extract:
		return in.val(fr, x.Tuple).([]any)[x.Index]
	case *ssa.Call:
		var as []any
		for _, a := range x.Call.Args {
			as = append(as, in.val(fr, a))
		}
		var r []any
		switch f := x.Call.Value.(type) {
		case *ssa.Builtin:
			return in.builtin(f.Name(), as, x)
		case *ssa.Function:
			r = in.call(f, as)
		default:
			if x.Call.IsInvoke() {
				in.fail("call of an interface method")
			}
			switch g := in.val(fr, f).(type) {
			case *ssa.Function:
				r = in.call(g, as)
			case aclosure:
				r = in.callWith(g.f, as, g.bs)
			default:
				in.fail("call of a value")
			}
		}
		if t, ok := x.Type().(*types.Tuple); ok {
			if t.Len() == 0 {
				return anil{}
			}
			return r
		}
		if len(r) != 1 {
			in.fail("results of a call")
		}
		return r[0]
	}
	in.fail("instruction %T", v)
	return nil
}

func (in *arith) builtin(name string, as []any, x *ssa.Call) any {
	switch name {
	case "len", "cap":
		switch c := as[0].(type) {
		case aslice:
			return aConst(big.NewInt(int64(c.len)))
		case aagg:
			return aConst(big.NewInt(c.c.t.Underlying().(*types.Array).Len()))
		case *acell:
			return aConst(big.NewInt(c.t.Underlying().(*types.Array).Len()))
		}
	case "copy":
		d, ok1 := as[0].(aslice)
		s, ok2 := as[1].(aslice)
		if ok1 && ok2 {
			n := d.len
			if s.len < n {
				n = s.len
			}
			var vs []any
			for i := 0; i < n; i++ {
				vs = append(vs, in.load(s.c.kid(in, s.off+i)))
			}
			for i := 0; i < n; i++ {
				in.store(d.c.kid(in, d.off+i), vs[i])
			}
			return aConst(big.NewInt(int64(n)))
		}
	case "ssa:wrapnilchk":
		return as[0]
	}
	in.fail("builtin %s", name)
	return nil
}

func (in *arith) globals() {
	for _, k := range []*ssa.Package{in.pkg} {
		f := k.Func("init")
		if f == nil {
			continue
		}
		old := in.hook
		in.hook = func(_ *arith, g *ssa.Function, _ []any) ([]any, bool) {
			return nil, g.Name() == "init" && g != f
		}
		in.call(f, nil)
		in.hook = old
	}
}

func bigOf(s string) *big.Int {
	k, _ := new(big.Int).SetString(s, 10)
	return k
}

func varName(i int) string { return "v" + strconv.Itoa(i) }
