package main

// Levels two and three of the curve arithmetic: field elements as
// polynomials modulo p over the coordinates, points as multiples of the base.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// felt reads a field element.
func (k *arithCheck) felt(in *arith, v any) *afelt {
	c, ok := v.(*acell)
	if !ok {
		in.fail("a field element")
	}
	if c.fe != nil {
		return c.fe
	}
	r := &afelt{}
	sum := new(big.Int)
	for i := 0; i < 10; i++ {
		x, ok := in.load(c.kid(in, i)).(aint)
		if !ok {
			in.fail("a limb")
		}
		n, ok := x.konst()
		if !ok {
			in.fail("the limbs of a field element are computed")
		}
		sum.Add(sum, new(big.Int).Mul(n, pow2(limbExp(i))))
		r.b[i] = ivl{n, n}
	}
	r.p = pMod(pConst(sum), fieldP)
	return r
}

func setFelt(c *acell, f *afelt) {
	c.kids, c.v, c.g, c.zero = nil, nil, nil, false
	c.fe = f
}

func (k *arithCheck) isField(t types.Type) bool { return types.Identical(t, k.field) }

// cellsOf: pointers to field elements.
func (k *arithCheck) fieldCell(in *arith, v any) *acell {
	c, ok := v.(*acell)
	if !ok || !k.isField(c.t) {
		in.fail("not a field element")
	}
	return c
}

func addB(a, b [10]ivl, sub bool) (r [10]ivl) {
	for i := range r {
		if sub {
			r[i] = ivl{new(big.Int).Sub(a[i].lo, b[i].hi), new(big.Int).Sub(a[i].hi, b[i].lo)}
		} else {
			r[i] = ivl{new(big.Int).Add(a[i].lo, b[i].lo), new(big.Int).Add(a[i].hi, b[i].hi)}
		}
	}
	return
}

func joinB(a, b [10]ivl) (r [10]ivl) {
	for i := range r {
		r[i] = a[i]
		if b[i].lo.Cmp(r[i].lo) < 0 {
			r[i].lo = b[i].lo
		}
		if b[i].hi.Cmp(r[i].hi) > 0 {
			r[i].hi = b[i].hi
		}
	}
	return
}

// enc is byte i of the encoding of a field element.
func (k *arithCheck) enc(in *arith, p apoly, i int) aint {
	key := fmt.Sprintf("enc %s %d", pMod(p, fieldP).key(), i)
	id, ok := in.t.memo[key]
	if !ok {
		hi := int64(255)
		if i == 31 {
			hi = 127
		}
		id = in.t.add(atInput, ivl{biZero, big.NewInt(hi)}, fmt.Sprintf("byte%d", i)).id
		in.t.memo[key] = id
	}
	return aint{pVar(id), in.t.l[id].r}
}

// pPow raises a monomial to a power.
func pPow(p apoly, e *big.Int) (apoly, bool) {
	if len(p) == 0 {
		return p, true
	}
	if len(p) != 1 {
		return nil, false
	}
	for m, c := range p {
		var vs []avp
		for _, v := range monoParse(m) {
			vs = append(vs, avp{v.id, new(big.Int).Mul(v.e, e)})
		}
		return apoly{monoKey(vs): new(big.Int).Exp(new(big.Int).Mod(c, fieldP), e, fieldP)}, true
	}
	return nil, false
}

// curveHook gives the exported field operations their meaning, which level
// one has established, and keeps track of the bounds of limbs.
func (k *arithCheck) curveHook(over map[string]bool) func(in *arith, f *ssa.Function, args []any) ([]any, bool) {
	return func(in *arith, f *ssa.Function, args []any) ([]any, bool) {
		if fnPkg(f) != k.pkg || f.Signature.Recv() != nil {
			return nil, false
		}
		name := f.Name()
		get := func(i int) *afelt { return k.felt(in, k.fieldCell(in, args[i])) }
		need := func(a *afelt, b [10]ivl) {
			if !within(a.b, b) {
				over[fmt.Sprintf("%s in %s", name, in.stack[len(in.stack)-1].Name())] = true
			}
		}
		set := func(p apoly, b [10]ivl) ([]any, bool) {
			setFelt(k.fieldCell(in, args[0]), &afelt{p: pMod(p, fieldP), b: b})
			return nil, true
		}
		switch name {
		case "FeMul":
			a, b := get(1), get(2)
			need(a, k.pre)
			need(b, k.pre)
			return set(pMul(a.p, b.p), k.mulOut)
		case "FeSquare":
			a := get(1)
			need(a, k.pre)
			return set(pMul(a.p, a.p), k.mulOut)
		case "FeSquare2":
			a := get(1)
			need(a, k.pre)
			return set(pScale(pMul(a.p, a.p), big.NewInt(2)), k.mulOut)
		case "FeAdd":
			a, b := get(1), get(2)
			return set(pAdd(a.p, b.p), addB(a.b, b.b, false))
		case "FeSub":
			a, b := get(1), get(2)
			return set(pSub(a.p, b.p), addB(a.b, b.b, true))
		case "FeNeg":
			a := get(1)
			return set(pScale(a.p, big.NewInt(-1)), addB([10]ivl(limbBounds(0, 0, 1, 1)), a.b, true))
		case "FeCopy":
			a := get(1)
			return set(a.p, a.b)
		case "FeZero":
			return set(apoly{}, limbBounds(0, 0, 1, 1))
		case "FeOne":
			return set(pInt(1), limbBounds(1, 1, 1, 1))
		case "FeCMove":
			n, ok := args[2].(aint)
			if !ok {
				in.fail("FeCMove")
			}
			b, ok := n.konst()
			if !ok {
				in.fail("FeCMove with an unknown condition")
			}
			if b.Sign() < 0 || b.Cmp(biOne) > 0 {
				in.wrong("FeCMove with %s, which is neither 0 nor 1", b)
			}
			if b.Sign() == 0 {
				a := get(0)
				return set(a.p, a.b)
			}
			a := get(1)
			return set(a.p, a.b)
		case "FeInvert":
			a := get(1)
			need(a, k.pre)
			p, ok := pPow(a.p, new(big.Int).Sub(fieldP, big.NewInt(2)))
			if !ok {
				in.fail("inversion of a sum")
			}
			return set(p, k.mulOut)
		case "FeToBytes":
			a := k.felt(in, k.fieldCell(in, args[1]))
			need(a, limbBounds(1<<25, 1<<24, 11, 10))
			s, ok := args[0].(*acell)
			if !ok {
				in.fail("FeToBytes")
			}
			for i := 0; i < 32; i++ {
				in.store(s.kid(in, i), k.enc(in, a.p, i))
			}
			setFelt(k.fieldCell(in, args[1]), &afelt{p: a.p, b: k.canon})
			return nil, true
		}
		return nil, false
	}
}

// polys over named coordinates
func (in *arith) coord(name string) apoly {
	return in.t.input(name, biZero, new(big.Int).Sub(fieldP, biOne))
}

// point makes a struct of field elements.
func (k *arithCheck) point(in *arith, t types.Type, coords map[string]apoly, b [10]ivl) *acell {
	c := in.newCell(t)
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		p, ok := coords[st.Field(i).Name()]
		if !ok {
			in.fail("field %s", st.Field(i).Name())
		}
		setFelt(c.kid(in, i), &afelt{p: p, b: b})
	}
	return c
}

// coords reads them back.
func (k *arithCheck) coords(in *arith, c *acell) (map[string]apoly, [10]ivl) {
	r := map[string]apoly{}
	st := c.t.Underlying().(*types.Struct)
	var b [10]ivl
	for i := 0; i < st.NumFields(); i++ {
		f := k.felt(in, c.kid(in, i))
		r[st.Field(i).Name()] = f.p
		if i == 0 {
			b = f.b
		} else {
			b = joinB(b, f.b)
		}
	}
	return r, b
}

func (k *arithCheck) typ(name string) types.Type {
	m, ok := k.pkg.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	return m.Type()
}

func (k *arithCheck) meth(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	s := k.c.p.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(k.pkg.Pkg, name)
	if s == nil {
		return nil
	}
	return k.c.p.prog.MethodValue(s)
}

func isPtrTo(t types.Type, e types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), e)
}

func isIntType(t types.Type) bool {
	_, _, ok := typeWidth(t)
	return ok
}

const pointField = "yPlusX yMinusX xy2d"

// precomputed is a table entry for an affine point, in the order of fields.
func (k *arithCheck) precomputed(t types.Type, sum, diff, prod apoly) map[string]apoly {
	st := t.Underlying().(*types.Struct)
	r := map[string]apoly{"yPlusX": sum, "yMinusX": diff, "xy2d": prod}
	vals := []apoly{sum, diff, prod}
	if st.NumFields() == 3 {
		for i := range vals {
			if !strings.Contains(pointField, st.Field(i).Name()) {
				r[st.Field(i).Name()] = vals[i]
			}
		}
	}
	return r
}

type tableOp struct {
	f        *ssa.Function
	out, in2 int
}

func (k *arithCheck) curve() {
	over := map[string]bool{}
	hook := k.curveHook(over)
	proj, ext, comp, pre := k.typ("ProjectiveGroupElement"), k.typ("ExtendedGroupElement"), k.typ("CompletedGroupElement"), k.typ("PreComputedGroupElement")
	mk := func(skip string) *arith {
		in := k.new(2)
		in.glob = k.globals
		in.hook = func(in *arith, f *ssa.Function, a []any) ([]any, bool) {
			if f.Name() == skip && f.Signature.Recv() == nil {
				return nil, false
			}
			return hook(in, f, a)
		}
		return in
	}
	// the constants
	k.globals = map[*ssa.Global]*acell{}
	k.try("package variables", func() {
		in := k.new(2)
		in.glob = k.globals
		in.globals()
	})
	konst := func(name string, want *big.Int, what string) {
		g, ok := k.pkg.Members[name].(*ssa.Global)
		if !ok {
			return
		}
		k.try(name, func() {
			in := mk("")
			f := k.felt(in, k.globals[g])
			ok := len(pMod(pSub(f.p, pConst(want)), fieldP)) == 0
			k.c.ob("curve.constant", name+" is "+what, g.Pos(), ok, func() string { return "it is " + f.p.c0().String() })
		})
	}
	d := curveD()
	d2 := new(big.Int).Add(d, d)
	konst("d", d, "-121665/121666")
	konst("d2", d2, "2d")
	if g, ok := k.pkg.Members["SqrtM1"].(*ssa.Global); ok {
		k.try("SqrtM1", func() {
			f := k.felt(mk(""), k.globals[g])
			ok := len(pMod(pAdd(pMul(f.p, f.p), pInt(1)), fieldP)) == 0
			k.c.ob("curve.constant", "SqrtM1 squares to -1", g.Pos(), ok, nil)
		})
	}
	k.canon = limbBounds(1<<26, 1<<25, 1, 1)

	// powers
	power := func(f *ssa.Function, e *big.Int, what string) {
		if f == nil {
			return
		}
		for _, alias := range []bool{false, true} {
			k.try(f.Name(), func() {
				in := mk(f.Name())
				z := in.newCell(k.field)
				zp := in.coord("z")
				setFelt(z, &afelt{p: zp, b: k.pre})
				out := z
				if !alias {
					out = in.newCell(k.field)
				}
				in.call(f, []any{out, z})
				got := k.felt(in, out)
				want, _ := pPow(zp, e)
				ok := len(pMod(pSub(got.p, want), fieldP)) == 0
				k.ob("curve.power", f.Name()+" computes "+what, f, ok, func() string { return "it computes " + in.t.show(got.p, 3) })
			})
		}
	}
	power(k.byName["FeInvert"], new(big.Int).Sub(fieldP, big.NewInt(2)), "the inverse, z^(2^255-21)")
	power(k.byName["fePow22523"], new(big.Int).Sub(pow2(252), big.NewInt(3)), "z^(2^252-3)")

	if proj == nil || ext == nil || comp == nil || pre == nil {
		k.undec = append(k.undec, "the point types are not found")
		return
	}
	// zero
	for _, t := range []types.Type{proj, ext, pre} {
		f := k.meth(t, "Zero")
		if f == nil {
			continue
		}
		k.try(relName(f), func() {
			in := mk("")
			c := in.newCell(t)
			if t != pre {
				c = k.point(in, t, map[string]apoly{"X": in.coord("X"), "Y": in.coord("Y"), "Z": in.coord("Z"), "T": in.coord("T")}, k.mulOut)
			}
			in.call(f, []any{c})
			got, _ := k.coords(in, c)
			want := map[string]apoly{"X": {}, "Y": pInt(1), "Z": pInt(1), "T": {}}
			if t == pre {
				want = k.precomputed(pre, pInt(1), pInt(1), apoly{})
			}
			for n, p := range got {
				ok := len(pMod(pSub(p, want[n]), fieldP)) == 0
				k.ob("curve.zero", relName(f)+" gives the neutral element in "+n, f, ok, func() string { return in.t.show(p, 3) })
			}
		})
	}
	var compB [10]ivl
	haveB := false
	note := func(b [10]ivl) {
		if haveB {
			compB = joinB(compB, b)
		} else {
			compB, haveB = b, true
		}
	}
	zeroP := func(p apoly) bool { return len(pMod(p, fieldP)) == 0 }
	ratio := func(in *arith, f *ssa.Function, what string, num, den, wn, wd apoly) {
		ok := !zeroP(den) && zeroP(pSub(pMul(num, wd), pMul(wn, den)))
		k.ob("curve.law", what, f, ok, func() string {
			return fmt.Sprintf("it is (%s)/(%s), and should be (%s)/(%s)", in.t.show(num, 4), in.t.show(den, 4), in.t.show(wn, 4), in.t.show(wd, 4))
		})
	}
	// doubling: x3 = 2xy/(y²-x²), y3 = (y²+x²)/(2-y²+x²)
	for _, t := range []types.Type{proj, ext} {
		f := k.meth(t, "Double")
		if f == nil {
			continue
		}
		k.try(relName(f), func() {
			in := mk("")
			x, y, z := in.coord("x"), in.coord("y"), in.coord("z")
			p := k.point(in, t, map[string]apoly{"X": pMul(x, z), "Y": pMul(y, z), "Z": z, "T": pMul(pMul(x, y), z)}, k.mulOut)
			r := in.newCell(comp)
			in.call(f, []any{p, r})
			g, b := k.coords(in, r)
			note(b)
			x2, y2 := pMul(x, x), pMul(y, y)
			df := pSub(y2, x2)
			ratio(in, f, relName(f)+" doubles the point (x)", g["X"], g["Z"], pScale(pMul(x, y), big.NewInt(2)), df)
			ratio(in, f, relName(f)+" doubles the point (y)", g["Y"], g["T"], pAdd(x2, y2), pSub(pInt(2), df))
		})
	}
	// the select operation, on every digit
	k.mixed, k.pick = map[*ssa.Function]int64{}, map[*ssa.Function]bool{}
	var names []string
	for n := range k.byName {
		names = append(names, n)
	}
	sortStrings(names)
	preB, havePreB := k.mulOut, false
	B := basePoint()
	var mult [32][9]apoint // mult[i][j] = j·256^i·B
	cur := B
	for i := range mult {
		mult[i][0] = apoint{biZero, biOne}
		for j := 1; j < 9; j++ {
			mult[i][j] = mult[i][j-1].add(cur)
		}
		for j := 0; j < 8; j++ {
			cur = cur.add(cur)
		}
	}
	entry := func(q apoint) map[string]apoly {
		pr := new(big.Int).Mul(q.x, q.y)
		pr.Mul(pr, d2)
		return k.precomputed(pre, pMod(pConst(new(big.Int).Add(q.y, q.x)), fieldP), pMod(pConst(new(big.Int).Sub(q.y, q.x)), fieldP), pMod(pConst(pr), fieldP))
	}
	for _, n := range names {
		f := k.byName[n]
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 3 || !isPtrTo(s.Params().At(0).Type(), pre) || !isIntType(s.Params().At(1).Type()) || !isIntType(s.Params().At(2).Type()) {
			continue
		}
		bad, where := 0, ""
		ok := k.try(n, func() {
			for pos := 0; pos < 32; pos++ {
				for b := -8; b <= 8; b++ {
					in := mk("")
					t := k.point(in, pre, k.precomputed(pre, in.coord("a"), in.coord("b"), in.coord("c")), k.mulOut)
					in.call(f, []any{t, aConst(big.NewInt(int64(pos))), aConst(big.NewInt(int64(b)))})
					got, bd := k.coords(in, t)
					if !havePreB {
						preB, havePreB = bd, true
					}
					preB = joinB(preB, bd)
					j := b
					if j < 0 {
						j = -j
					}
					q := mult[pos][j]
					if b < 0 {
						q = q.neg()
					}
					for m, p := range entry(q) {
						if g, is := got[m]; is && !zeroP(pSub(g, p)) {
							if bad == 0 {
								where = fmt.Sprintf("for %d·256^%d in %s", b, pos, m)
							}
							bad++
						}
					}
				}
			}
		})
		if ok {
			k.ob("curve.table", n+" selects the multiple of the base point that the digit names", f, bad == 0, func() string { return fmt.Sprintf("%s; %d coordinates in all", where, bad) })
			k.pick[f] = bad == 0
		}
	}
	// mixed addition
	for _, n := range names {
		f := k.byName[n]
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 3 || !isPtrTo(s.Params().At(0).Type(), comp) || !isPtrTo(s.Params().At(1).Type(), ext) || !isPtrTo(s.Params().At(2).Type(), pre) {
			continue
		}
		k.try(n, func() {
			in := mk("")
			x, y, z, u, v := in.coord("x"), in.coord("y"), in.coord("z"), in.coord("u"), in.coord("v")
			p := k.point(in, ext, map[string]apoly{"X": pMul(x, z), "Y": pMul(y, z), "Z": z, "T": pMul(pMul(x, y), z)}, k.mulOut)
			q := k.point(in, pre, k.precomputed(pre, pAdd(v, u), pSub(v, u), pScale(pMul(u, v), d2)), preB)
			r := in.newCell(comp)
			in.call(f, []any{r, p, q})
			g, b := k.coords(in, r)
			note(b)
			sign := big.NewInt(1)
			if strings.Contains(strings.ToLower(n), "sub") {
				sign = big.NewInt(-1)
			}
			us := pScale(u, sign)
			dt := pScale(pMul(pMul(x, y), pMul(us, v)), d)
			ratio(in, f, n+" adds the points (x)", g["X"], g["Z"], pAdd(pMul(x, v), pMul(us, y)), pAdd(pInt(1), dt))
			ratio(in, f, n+" adds the points (y)", g["Y"], g["T"], pAdd(pMul(y, v), pMul(x, us)), pSub(pInt(1), dt))
			k.mixed[f] = sign.Int64()
		})
	}
	// changes of representation
	if !haveB {
		compB = k.mulOut
	}
	for _, t := range []types.Type{ext, comp} {
		for _, m := range []string{"ToProjective", "ToExtended"} {
			f := k.meth(t, m)
			if f == nil || f.Signature.Params().Len() != 1 {
				continue
			}
			k.try(relName(f), func() {
				in := mk("")
				x, y, z := in.coord("x"), in.coord("y"), in.coord("z")
				b := k.mulOut
				var p *acell
				if t == comp {
					w := in.coord("w")
					p = k.point(in, t, map[string]apoly{"X": pMul(x, z), "Z": z, "Y": pMul(y, w), "T": w}, compB)
				} else {
					p = k.point(in, t, map[string]apoly{"X": pMul(x, z), "Y": pMul(y, z), "Z": z, "T": pMul(pMul(x, y), z)}, b)
				}
				r := in.newCell(f.Signature.Params().At(0).Type().(*types.Pointer).Elem())
				in.call(f, []any{p, r})
				g, rb := k.coords(in, r)
				ratio(in, f, relName(f)+" keeps the point (x)", g["X"], g["Z"], x, pInt(1))
				ratio(in, f, relName(f)+" keeps the point (y)", g["Y"], g["Z"], y, pInt(1))
				if m == "ToExtended" {
					ratio(in, f, relName(f)+" keeps the point (xy)", g["T"], g["Z"], pMul(x, y), pInt(1))
				}
				k.ob("curve.bounds", relName(f)+" leaves reduced coordinates", f, within(rb, k.mulOut), func() string { return showBounds(rb) })
			})
		}
	}
	// encodings
	for _, t := range []types.Type{proj, ext} {
		f := k.meth(t, "ToBytes")
		if f == nil {
			continue
		}
		k.try(relName(f), func() {
			in := mk("")
			x, y, z := in.coord("X"), in.coord("Y"), in.coord("Z")
			p := k.point(in, t, map[string]apoly{"X": x, "Y": y, "Z": z, "T": in.coord("T")}, k.mulOut)
			s := in.newCell(types.NewArray(types.Typ[types.Uint8], 32))
			in.call(f, []any{p, s})
			inv, _ := pPow(z, new(big.Int).Sub(fieldP, big.NewInt(2)))
			ax, ay := pMul(x, inv), pMul(y, inv)
			bad := ""
			for i := 0; i < 32; i++ {
				want := k.enc(in, ay, i)
				if i == 31 {
					sign := in.low(k.enc(in, ax, 0), 1)
					want = aint{pAddK(want.p, sign.p, big.NewInt(128)), typeRange(8, false)}
				}
				got, ok := in.load(s.kid(in, i)).(aint)
				if !ok || len(in.reduce(pSub(got.p, want.p))) != 0 {
					bad += fmt.Sprintf(" byte %d", i)
				}
			}
			k.ob("curve.encoding", relName(f)+" writes y, and the sign of x in the top bit", f, bad == "", func() string { return "not in" + bad })
		})
	}
	var os []string
	for o := range over {
		os = append(os, o)
	}
	sortStrings(os)
	if k.loose && len(os) > 0 {
		k.undec = append(k.undec, "the bounds of limbs, where a condition depends on the input")
		os = nil
	}
	k.c.ob("curve.bounds", "every field operation gets limbs within its bounds", k.pkg.Members["FieldElement"].Pos(), len(os) == 0, func() string { return strings.Join(os, ", ") })
}

// multiples: level three.
func (k *arithCheck) multiples() {
	f := k.byName["GeScalarMultBase"]
	if f == nil {
		k.undec = append(k.undec, "GeScalarMultBase: not found")
		return
	}
	kind := func(t types.Type) string {
		for _, n := range []string{"ProjectiveGroupElement", "ExtendedGroupElement", "CompletedGroupElement", "PreComputedGroupElement"} {
			if kt := k.typ(n); kt != nil && types.Identical(kt, t) {
				return n
			}
		}
		return ""
	}
	k.try("GeScalarMultBase", func() {
		in := k.new(3)
		in.glob = k.globals
		pt := func(v any) *acell {
			c, ok := v.(*acell)
			if !ok || kind(c.t) == "" {
				in.fail("not a point")
			}
			return c
		}
		set := func(v any, p apoly) {
			c := pt(v)
			c.kids, c.v, c.fe, c.zero = nil, nil, nil, false
			c.g = p
		}
		get := func(v any) apoly {
			c := pt(v)
			if c.g == nil {
				in.fail("a point that was not computed")
			}
			return c.g
		}
		badDigit := ""
		in.hook = func(in *arith, g *ssa.Function, a []any) ([]any, bool) {
			if r := g.Signature.Recv(); r != nil && fnPkg(g) == k.pkg && len(a) > 0 {
				c, ok := a[0].(*acell)
				if !ok || kind(c.t) == "" {
					return nil, false
				}
				switch {
				case g.Name() == "Zero" && len(a) == 1:
					set(a[0], apoly{})
					return nil, true
				case g.Name() == "Double" && len(a) == 2:
					set(a[1], pScale(get(a[0]), big.NewInt(2)))
					return nil, true
				case (g.Name() == "ToProjective" || g.Name() == "ToExtended") && len(a) == 2:
					set(a[1], get(a[0]))
					return nil, true
				}
				return nil, false
			}
			if s, ok := k.mixed[g]; ok {
				set(a[0], pAddK(get(a[1]), get(a[2]), big.NewInt(s)))
				return nil, true
			}
			if _, ok := k.pick[g]; ok {
				pos, ok1 := a[1].(aint)
				dg, ok2 := a[2].(aint)
				if !ok1 || !ok2 {
					in.fail("a digit")
				}
				n, ok := pos.konst()
				if !ok || n.Sign() < 0 || n.Cmp(big.NewInt(31)) > 0 {
					in.fail("a table position")
				}
				if r := in.t.rng(dg.p).meet(dg.r); !r.in(big.NewInt(-8), big.NewInt(8)) {
					badDigit = fmt.Sprintf("a digit from %s to %s at position %s", r.lo, r.hi, n)
				}
				set(a[0], pScale(dg.p, pow2(uint(8*n.Int64()))))
				return nil, true
			}
			return nil, false
		}
		h := in.newCell(k.typ("ExtendedGroupElement"))
		a, v := k.bytes(in, "a", 32, 127)
		in.call(f, []any{h, a})
		d := in.reduce(pSub(get(h), v))
		k.ob("multiple.value", "GeScalarMultBase computes the scalar times the base point", f, len(d) == 0, func() string { return "off by " + in.t.show(d, 4) + " times the base point" })
		k.ob("multiple.digits", "the digits of the scalar are within the table", f, badDigit == "", func() string { return badDigit })
		k.ob("multiple.type", "GeScalarMultBase stays within its machine types", f, len(in.wraps) == 0, func() string { return "at " + k.wrapped(in) })
		after := k.byteSum(in, a, 32)
		k.ob("multiple.operand", "GeScalarMultBase leaves the scalar as it is", f, len(in.reduce(pSub(after, v))) == 0, nil)
	})
}
