package main

// C34: the curve arithmetic, in three levels.
//
//  1. Limbs and bytes: every exported field and scalar operation, on limbs
//     within the bounds its callers respect, computes the ring operation it
//     is named after, modulo 2^255-19 or modulo the group order, without
//     exceeding its machine types, and leaves limbs within bounds.
//  2. Field elements: inversion is the (p-2)th power; the point formulas
//     are the curve's addition law; the table and the constants hold what
//     they should; an encoding is the canonical one.
//  3. Points: multiplication by a scalar is a multiple of the base point
//     equal to the scalar.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	fieldP = new(big.Int).Sub(pow2(255), big.NewInt(19))
	orderL = new(big.Int).Add(pow2(252), bigOf("27742317777372353535851937790883648493"))
)

func invP(x *big.Int) *big.Int { return new(big.Int).ModInverse(x, fieldP) }

func curveD() *big.Int {
	d := new(big.Int).Mul(big.NewInt(-121665), invP(big.NewInt(121666)))
	return d.Mod(d, fieldP)
}

type apoint struct{ x, y *big.Int }

func basePoint() apoint {
	y := new(big.Int).Mul(big.NewInt(4), invP(big.NewInt(5)))
	y.Mod(y, fieldP)
	y2 := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(y2, biOne)
	v := new(big.Int).Mul(curveD(), y2)
	v.Add(v, biOne).Mod(v, fieldP)
	u.Mul(u, invP(v)).Mod(u, fieldP)
	x := new(big.Int).ModSqrt(u, fieldP)
	if x.Bit(0) == 1 {
		x.Sub(fieldP, x)
	}
	return apoint{x, y}
}

func (a apoint) add(b apoint) apoint {
	mul := func(v ...*big.Int) *big.Int {
		r := big.NewInt(1)
		for _, x := range v {
			r.Mul(r, x).Mod(r, fieldP)
		}
		return r
	}
	k := mul(curveD(), a.x, b.x, a.y, b.y)
	x := mul(new(big.Int).Add(mul(a.x, b.y), mul(b.x, a.y)), invP(new(big.Int).Add(biOne, k)))
	den := new(big.Int).Sub(biOne, k)
	y := mul(new(big.Int).Add(mul(a.y, b.y), mul(a.x, b.x)), invP(den.Mod(den, fieldP)))
	return apoint{x, y}
}

func (a apoint) neg() apoint {
	return apoint{new(big.Int).Mod(new(big.Int).Neg(a.x), fieldP), a.y}
}

// limbExp is the weight of a limb, as a power of two.
func limbExp(i int) uint { return uint((51*i + 1) / 2) }

type arithCheck struct {
	c       *ctx
	pkg     *ssa.Package
	field   types.Type
	byName  map[string]*ssa.Function
	mulOut  [10]ivl // what multiplication leaves
	pre     [10]ivl // what multiplication takes
	canon   [10]ivl
	fns     map[string]bool
	undec   []string
	path    []bool
	pos     int
	loose   bool // some bounds are known only roughly
	globals map[*ssa.Global]*acell
	mixed   map[*ssa.Function]int64 // mixed additions
	pick    map[*ssa.Function]bool  // table lookups
}

// pathRules are exact on each path.
var pathRules = map[string]bool{"limbs.value": true, "limbs.operands": true, "scalar.value": true, "curve.power": true, "curve.law": true,
	"curve.zero": true, "curve.encoding": true, "curve.table": true, "multiple.value": true, "multiple.operand": true}

func (k *arithCheck) new(level int) *arith {
	return &arith{t: newAtoms(), choose: k.choose, prog: k.c.p, level: level, pkg: k.pkg, glob: map[*ssa.Global]*acell{}, wraps: map[string]bool{}, fns: k.fns}
}

// try runs one analysis, along every way through conditions on the input;
// what cannot be followed is reported as undecided.
func (k *arithCheck) try(what string, f func()) bool {
	k.path = nil
	for n := 0; ; n++ {
		k.pos = 0
		if !k.once(what, f) {
			return false
		}
		// the next path
		k.path = k.path[:k.pos]
		for len(k.path) > 0 && !k.path[len(k.path)-1] {
			k.path = k.path[:len(k.path)-1]
		}
		if len(k.path) == 0 {
			return true
		}
		k.path[len(k.path)-1] = false
		if n == 200 {
			k.undec = append(k.undec, what+": too many paths")
			k.path = nil
			return false
		}
	}
}

func (k *arithCheck) choose() bool {
	if k.pos == len(k.path) {
		k.path = append(k.path, true)
	}
	k.pos++
	return k.path[k.pos-1]
}

func (k *arithCheck) once(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			switch m := r.(type) {
			case arithSkip:
				ok = true
			case arithFail:
				k.undec = append(k.undec, what+": "+string(m))
			case arithWrong:
				k.c.ob("arith.sound", what, k.pkg.Members["FieldElement"].Pos(), false, func() string { return string(m) })
			default:
				panic(r)
			}
		}
	}()
	f()
	return true
}

func (k *arithCheck) ob(rule, construct string, f *ssa.Function, ok bool, detail func() string) bool {
	pos := token.NoPos
	if k.pos > 0 {
		// on one of several paths, whose conditions bound more than is used here
		if !ok && !pathRules[rule] {
			k.loose = true
			k.undec = append(k.undec, construct+", where a condition depends on the input")
			return true
		}
		construct += fmt.Sprintf(", on one side of a condition on the input %v", k.path[:k.pos])
	}
	if f != nil {
		pos = f.Pos()
	}
	return k.c.ob(rule, construct, pos, ok, detail)
}

// limbs makes a field element of unknown limbs within bounds.
func (k *arithCheck) limbs(in *arith, name string, b [10]ivl) (*acell, apoly) {
	c := in.newCell(k.field)
	sum := apoly{}
	for i := 0; i < 10; i++ {
		p := in.t.input(fmt.Sprintf("%s[%d]", name, i), b[i].lo, b[i].hi)
		c.kid(in, i).v = aint{p, b[i]}
		sum = pAddK(sum, p, pow2(limbExp(i)))
	}
	return c, sum
}

func (k *arithCheck) value(in *arith, c *acell) (apoly, [10]ivl) {
	sum := apoly{}
	var b [10]ivl
	for i := 0; i < 10; i++ {
		x, ok := in.load(c.kid(in, i)).(aint)
		if !ok {
			in.fail("a limb")
		}
		b[i] = in.t.rng(x.p).meet(x.r)
		sum = pAddK(sum, x.p, pow2(limbExp(i)))
	}
	return sum, b
}

func (k *arithCheck) bytes(in *arith, name string, n int, top int64) (*acell, apoly) {
	c := in.newCell(types.NewArray(types.Typ[types.Uint8], int64(n)))
	sum := apoly{}
	for i := 0; i < n; i++ {
		hi := big.NewInt(255)
		if i == n-1 {
			hi = big.NewInt(top)
		}
		p := in.t.input(fmt.Sprintf("%s[%d]", name, i), biZero, hi)
		c.kid(in, i).v = aint{p, ivl{biZero, hi}}
		sum = pAddK(sum, p, pow2(uint(8*i)))
	}
	return c, sum
}

func (k *arithCheck) byteSum(in *arith, c *acell, n int) apoly {
	sum := apoly{}
	for i := 0; i < n; i++ {
		x, ok := in.load(c.kid(in, i)).(aint)
		if !ok {
			in.fail("a byte")
		}
		sum = pAddK(sum, x.p, pow2(uint(8*i)))
	}
	return sum
}

// same: two integers agree modulo m, as polynomials.
func (k *arithCheck) same(in *arith, a, b apoly, m *big.Int) (bool, apoly) {
	d := pMod(in.reduce(pSub(a, b)), m)
	if k.pos > 0 {
		for id := range d.atoms() {
			if in.t.l[id].wrap {
				in.fail("a value that may exceed its type, where a condition depends on the input")
			}
		}
	}
	return len(d) == 0, d
}

func limbBounds(even, odd int64, num, den int64) (r [10]ivl) {
	for i := range r {
		x := big.NewInt(even)
		if i%2 == 1 {
			x = big.NewInt(odd)
		}
		x.Mul(x, big.NewInt(num)).Div(x, big.NewInt(den))
		r[i] = ivl{new(big.Int).Neg(x), x}
	}
	return
}

func within(a, b [10]ivl) bool {
	for i := range a {
		if !a[i].in(b[i].lo, b[i].hi) {
			return false
		}
	}
	return true
}

func showBounds(b [10]ivl) string {
	var s []string
	for _, x := range b {
		s = append(s, fmt.Sprintf("[%s,%s]", x.lo, x.hi))
	}
	return strings.Join(s, " ")
}

func (k *arithCheck) wrapped(in *arith) string {
	var s []string
	for w := range in.wraps {
		s = append(s, w)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// fieldOps: the operations on limbs.
func (k *arithCheck) fieldOps() {
	small := limbBounds(1<<25, 1<<24, 11, 10)
	type op struct {
		name string
		n    int // operands
		pre  [10]ivl
		spec func(a, b apoly) apoly
	}
	two := big.NewInt(2)
	ops := []op{
		{"FeMul", 2, k.pre, pMul},
		{"FeSquare", 1, k.pre, func(a, _ apoly) apoly { return pMul(a, a) }},
		{"FeSquare2", 1, k.pre, func(a, _ apoly) apoly { return pScale(pMul(a, a), two) }},
		{"FeAdd", 2, k.pre, pAdd},
		{"FeSub", 2, k.pre, pSub},
		{"FeNeg", 1, k.pre, func(a, _ apoly) apoly { return pScale(a, big.NewInt(-1)) }},
		{"FeCopy", 1, k.pre, func(a, _ apoly) apoly { return a }},
		{"FeZero", 0, k.pre, func(_, _ apoly) apoly { return apoly{} }},
		{"FeOne", 0, k.pre, func(_, _ apoly) apoly { return pInt(1) }},
	}
	for i := range k.mulOut {
		k.mulOut[i] = ivl{biZero, biZero}
	}
	for _, o := range ops {
		f := k.byName[o.name]
		if f == nil {
			k.undec = append(k.undec, o.name+": not found")
			continue
		}
		// which of the places are the same one
		pats := [][]int{{0}}
		switch o.n {
		case 1:
			pats = [][]int{{0, 1}, {0, 0}}
		case 2:
			pats = [][]int{{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}}
		}
		for _, pat := range pats {
			what := o.name
			if o.n > 0 {
				what += " on places " + strings.Trim(fmt.Sprint(pat), "[]")
			}
			k.try(what, func() {
				in := k.new(1)
				cells := map[int]*acell{}
				vals := map[int]apoly{}
				var args []any
				for _, j := range pat {
					if cells[j] == nil {
						cells[j], vals[j] = k.limbs(in, string(rune('h'+j)), o.pre)
					}
					args = append(args, cells[j])
				}
				var a, b apoly
				if o.n > 0 {
					a = vals[pat[1]]
				}
				if o.n > 1 {
					b = vals[pat[2]]
				}
				in.call(f, args)
				got, bd := k.value(in, cells[0])
				ok, d := k.same(in, got, o.spec(a, b), fieldP)
				k.ob("limbs.value", what+" computes its field operation", f, ok, func() string {
					s := "the result differs from it by " + in.t.show(d, 4) + " modulo 2^255-19"
					if len(in.wraps) > 0 {
						s += "; may exceed its type at " + k.wrapped(in)
					}
					return s
				})
				k.ob("limbs.type", what+" stays within its machine types", f, len(in.wraps) == 0, func() string { return "at " + k.wrapped(in) })
				if o.name == "FeMul" || strings.HasPrefix(o.name, "FeSquare") {
					k.ob("limbs.bounds", what+" leaves reduced limbs", f, within(bd, small), func() string { return showBounds(bd) })
					for i := range bd {
						if bd[i].lo.Cmp(k.mulOut[i].lo) < 0 {
							k.mulOut[i].lo = bd[i].lo
						}
						if bd[i].hi.Cmp(k.mulOut[i].hi) > 0 {
							k.mulOut[i].hi = bd[i].hi
						}
					}
				}
				if o.n > 0 {
					for j := range cells {
						if j == 0 {
							continue
						}
						v, _ := k.value(in, cells[j])
						ok, _ := k.same(in, v, vals[j], fieldP)
						k.ob("limbs.operands", what+" leaves its operands", f, ok, nil)
					}
				}
			})
		}
	}
	if f := k.byName["FeCMove"]; f != nil {
		for b := int64(0); b < 2; b++ {
			what := fmt.Sprintf("FeCMove with %d", b)
			k.try(what, func() {
				in := k.new(1)
				x, xv := k.limbs(in, "f", k.pre)
				y, yv := k.limbs(in, "g", k.pre)
				in.call(f, []any{x, y, aConst(big.NewInt(b))})
				want := xv
				if b == 1 {
					want = yv
				}
				got, _ := k.value(in, x)
				ok, d := k.same(in, got, want, fieldP)
				k.ob("limbs.value", what+" moves the second operand or nothing", f, ok, func() string { return "differs by " + in.t.show(d, 4) })
			})
		}
	}
	if f := k.byName["FeFromBytes"]; f != nil {
		k.try("FeFromBytes", func() {
			in := k.new(1)
			s, v := k.bytes(in, "src", 32, 255)
			h := in.newCell(k.field)
			in.call(f, []any{h, s})
			top, _ := in.load(s.kid(in, 31)).(aint)
			want := pAddK(v, in.t.shift(top.p, 7), new(big.Int).Neg(pow2(255)))
			got, bd := k.value(in, h)
			ok, d := k.same(in, got, want, fieldP)
			k.ob("limbs.value", "FeFromBytes reads the little-endian value without the top bit", f, ok, func() string { return "differs by " + in.t.show(d, 4) })
			k.ob("limbs.bounds", "FeFromBytes leaves reduced limbs", f, within(bd, small), func() string { return showBounds(bd) })
			k.ob("limbs.type", "FeFromBytes stays within its machine types", f, len(in.wraps) == 0, func() string { return "at " + k.wrapped(in) })
		})
	}
	if f := k.byName["FeToBytes"]; f != nil {
		k.try("FeToBytes", func() {
			in := k.new(1)
			h, v := k.limbs(in, "h", small)
			s := in.newCell(types.NewArray(types.Typ[types.Uint8], 32))
			in.call(f, []any{s, h})
			got := k.byteSum(in, s, 32)
			ok, d := k.same(in, got, v, fieldP)
			k.ob("limbs.value", "FeToBytes writes the value of the element", f, ok, func() string { return "differs by " + in.t.show(d, 4) })
			full := in.t.expand(got)
			r := in.t.rng(full)
			k.ob("limbs.canonical", "FeToBytes writes the one value below 2^255-19", f,
				r.in(biZero, new(big.Int).Sub(fieldP, biOne)), func() string { return fmt.Sprintf("it can be anything from %s to %s", r.lo, r.hi) })
			k.ob("limbs.type", "FeToBytes stays within its machine types", f, len(in.wraps) == 0, func() string { return "at " + k.wrapped(in) })
			after, _ := k.value(in, h)
			ok2, d2 := k.same(in, after, v, fieldP)
			k.ob("limbs.operands", "FeToBytes leaves the value of its operand", f, ok2, func() string { return "differs by " + in.t.show(d2, 4) })
		})
	}
}

// scalarOps: arithmetic modulo the order of the group.
func (k *arithCheck) scalarOps() {
	finish := func(what string, in *arith, f *ssa.Function, out *acell, want apoly) {
		got := k.byteSum(in, out, 32)
		ok, d := k.same(in, got, want, orderL)
		k.ob("scalar.value", what+" computes its operation modulo the group order", f, ok, func() string { return "differs by " + in.t.show(d, 4) })
		k.ob("scalar.type", what+" stays within its machine types", f, len(in.wraps) == 0, func() string { return "at " + k.wrapped(in) })
		r := in.t.rng(got)
		k.ob("scalar.canonical", what+" leaves a value below the group order", f,
			r.in(biZero, new(big.Int).Sub(orderL, biOne)), func() string { return fmt.Sprintf("it can be anything from %s to %s", r.lo, r.hi) })
	}
	if f := k.byName["ScReduce"]; f != nil {
		k.try("ScReduce", func() {
			in := k.new(1)
			s, v := k.bytes(in, "s", 64, 255)
			out := in.newCell(types.NewArray(types.Typ[types.Uint8], 32))
			in.call(f, []any{out, s})
			finish("ScReduce", in, f, out, v)
		})
	}
	if f := k.byName["ScMulAdd"]; f != nil {
		k.try("ScMulAdd", func() {
			in := k.new(1)
			a, av := k.bytes(in, "a", 32, 255)
			b, bv := k.bytes(in, "b", 32, 255)
			c, cv := k.bytes(in, "c", 32, 255)
			out := in.newCell(types.NewArray(types.Typ[types.Uint8], 32))
			in.call(f, []any{out, a, b, c})
			finish("ScMulAdd", in, f, out, pAdd(pMul(av, bv), cv))
		})
	}
}

func c34(c *ctx) {
	k := &arithCheck{c: c, byName: map[string]*ssa.Function{}, fns: map[string]bool{}, pre: limbBounds(1<<26, 1<<25, 165, 100)}
	k.pkg = c.p.byP["ecc/edwards25519"]
	if k.pkg == nil {
		c.ob("arith.package", "the curve arithmetic is in ecc/edwards25519", token.NoPos, false, nil)
		return
	}
	for n, m := range k.pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			k.byName[n] = m
		case *ssa.Type:
			if n == "FieldElement" {
				k.field = m.Type()
			}
		}
	}
	if k.field == nil {
		c.ob("arith.package", "field elements are FieldElement", token.NoPos, false, nil)
		return
	}
	k.fieldOps()
	k.scalarOps()
	k.curve()
	k.multiples()
	for f := range k.fns {
		c.fns[f] = true
	}
	for _, u := range k.undec {
		fmt.Println("undecided:", u)
	}
}

func init() {
	reg("C34", 10, "Each routine of the curve arithmetic is analysed on unknown limbs within the documented bounds, under every alias pattern; value and bounds of the result are compared with the field, scalar or group operation.", c34)
}

func sortStrings(s []string) { sort.Strings(s) }
