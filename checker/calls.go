package main

// Calls: into the module (analysed in context), builtins, interface methods of
// the environment (events) and the standard library (models).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(in *interp, st *state, c *callCtx) *Term

type callCtx struct {
	name string
	args []*Term
	sig  *types.Signature
	pos  token.Pos
	key  string
	vals []ssa.Value // argument expressions, when known
}

func (in *interp) callParts(st *state, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	f := simp(in.val(st, c.Value), st.g)
	for _, a := range c.Args {
		args = append(args, simp(in.val(st, a), st.g))
	}
	return f, args
}

func (in *interp) doCall(st *state, c *ssa.CallCommon, i ssa.Instruction) *Term {
	f, args := in.callParts(st, c)
	return in.dispatch(st, c, f, args, i, "")
}

// split analyses a call for every case of a gated value.
func (in *interp) split(st *state, v *Term, f func(st *state, v *Term) *Term) *Term {
	v = simp(v, st.g)
	if v.op != OIte {
		old := amb
		amb = st.g
		defer func() { amb = old }()
		return f(st, v)
	}
	a := asBDD(v.args[0])
	s1 := st.fork(and(st.g, a))
	s2 := st.fork(and(st.g, not(a)))
	var r1, r2 *Term
	if s1.g != tFalse {
		r1 = in.split(s1, v.args[1], f)
	}
	if s2.g != tFalse {
		r2 = in.split(s2, v.args[2], f)
	}
	switch {
	case s1.g == tFalse:
		st.g, st.h = s2.g, s2.h
		return r2
	case s2.g == tFalse:
		st.g, st.h = s1.g, s1.h
		return r1
	}
	g := or(s1.g, s2.g)
	c := simp(s1.g, g)
	st.g, st.h = g, mergeHeap(c, s1.h, s2.h)
	return ite(c, r1, r2)
}

func (in *interp) dispatch(st *state, c *ssa.CallCommon, f *Term, args []*Term, i ssa.Instruction, suffix string) *Term {
	r := in.dispatchTo(st, c, f, args, i, suffix)
	if in.failures && st.g != tFalse {
		if n := c.Signature().Results().Len(); n > 0 && isErr(c.Signature().Results().At(n-1).Type()) {
			e := r
			if n > 1 {
				e = lastRes(r)
			}
			if bad := simp(not(isNil(e)), st.g); bad != tFalse {
				in.emit(st, "failed:"+calledName(c), i.Pos(), bad)
			}
		}
	}
	return r
}

func calledName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return relName(f)
	}
	if c.IsInvoke() {
		return strings.TrimPrefix(c.Value.Type().String()+"."+c.Method.Name(), modPath+"/")
	}
	return "a function value"
}

func (in *interp) dispatchTo(st *state, c *ssa.CallCommon, f *Term, args []*Term, i ssa.Instruction, suffix string) *Term {
	key := in.key(i) + suffix
	if c.IsInvoke() {
		return in.split(st, f, func(st *state, recv *Term) *Term {
			recv = in.nonNil(st, recv, "interface call", i.Pos())
			if st.g == tFalse {
				return tNil
			}
			if recv.op == OIface {
				m := in.prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name())
				if m == nil {
					panic(undecided("method " + c.Method.Name()))
				}
				return in.callStatic(st, m, append([]*Term{recv.args[0]}, args...), nil, key, i.Pos(), nil)
			}
			nm := c.Value.Type().String() + "." + c.Method.Name()
			nm = strings.TrimPrefix(nm, modPath+"/")
			return in.envCall(st, nm, append([]*Term{recv}, args...), c.Signature(), key, i.Pos())
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, b.Name(), args, c, key, i.Pos())
	}
	if callee := c.StaticCallee(); callee != nil && f.op == OFunc {
		return in.callStatic(st, callee, args, f.args, key, i.Pos(), c.Args)
	}
	return in.split(st, f, func(st *state, f *Term) *Term {
		return in.callValue(st, f, args, c.Signature(), key, i.Pos())
	})
}

func (in *interp) callValue(st *state, f *Term, args []*Term, sig *types.Signature, key string, pos token.Pos) *Term {
	f = in.nonNil(st, f, "function call", pos)
	if st.g == tFalse {
		return tNil
	}
	if f.op == OFunc {
		return in.callStatic(st, f.fn, args, f.args, key, pos, nil)
	}
	if f.op == OFn {
		return in.envCall(st, "func:"+f.name, args, sig, key, pos)
	}
	panic(undecided("call of " + str(f)))
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// envCall is a call into the environment: stores, serializers, completions.
func (in *interp) envCall(st *state, name string, args []*Term, sig *types.Signature, key string, pos token.Pos) *Term {
	if m, ok := in.hooks[name]; ok {
		return m(in, st, &callCtx{name: name, args: args, sig: sig, pos: pos, key: key})
	}
	if m, ok := models[name]; ok {
		return m(in, st, &callCtx{name: name, args: args, sig: sig, pos: pos, key: key})
	}
	if r := in.serializer(st, name, args, sig, key, pos); r != nil {
		return r
	}
	var r *Term
	if sig.Results().Len() > 0 {
		path := name + "@" + key
		t := resultType(sig)
		if tp, ok := t.(*types.Tuple); ok && tp.Len() == 2 && isErr(tp.At(1).Type()) {
			// a value or an error
			bad := fnBool("fails:"+path, in.iter...)
			e := fn("error:"+path, in.iter...)
			nonNilFns["error:"+path] = true
			v := inputValue(path, tp.At(0).Type(), in.iter, in.isWild(name), false)
			r = mk(&Term{op: OTuple, args: []*Term{ite(bad, zeroOf(tp.At(0).Type()), v), ite(bad, e, tNil)}})
		} else {
			r = inputValue(path, t, in.iter, in.isWild(name), false)
		}
	}
	in.emit(st, name, pos, r, args...)
	return r
}

// serializer is a call of a serializer of the environment: encoding is a
// one-to-one function of everything the structure holds, decoding its inverse;
// decoding other bytes fails or yields any structure.
func (in *interp) serializer(st *state, name string, args []*Term, sig *types.Signature, key string, pos token.Pos) *Term {
	base := strings.TrimSuffix(name, ".Serialize")
	if base != name && strings.HasSuffix(base, "Serializer") && len(args) == 2 && sig.Results().Len() == 1 {
		nm := "ser:" + base
		seqInfos[nm] = seqInfo{n: -1, elem: byteT}
		d := deep(st.h, args[1])
		v := fnL(nm, args[0], d)
		r := in.newSlice(st, key, byteT, v, nil)
		in.emit(st, name, pos, r, append(append([]*Term{}, args...), d)...)
		return r
	}
	base = strings.TrimSuffix(name, ".Deserialize")
	if base != name && strings.HasSuffix(base, "Serializer") && len(args) == 2 && sig.Results().Len() == 2 {
		nm := "ser:" + base
		t := sig.Results().At(0).Type()
		data := sliceSeq(st.h, args[1])
		path := name + "@" + key
		return in.split(st, data, func(st *state, data *Term) *Term {
			var r *Term
			if data.op == OFn && data.name == nm && data.args[0] == args[0] {
				r = tuple(in.inflate(st, key, t, data.args[1]), tNil)
			} else {
				bad := fnBool("fails:"+path, in.iter...)
				e := fn("error:"+path, in.iter...)
				nonNilFns["error:"+path] = true
				v := inputValue(path, t, in.iter, true, false)
				if v.op == OPtr {
					bases[v.k].maybeNil = false
				}
				r = tuple(ite(bad, zeroOf(t), v), ite(bad, e, tNil))
			}
			in.emit(st, name, pos, r, append(append([]*Term{}, args...), data)...)
			return r
		})
	}
	return nil
}

func (in *interp) isWild(name string) bool { return strings.HasSuffix(name, ".Deserialize") }

func isErr(t types.Type) bool { return t.String() == "error" }

const modPath = "github.com/prospik/libsignal-protocol-go"

func relName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

// inlineStd are library packages small enough to be analysed from source.
var inlineStd = map[string]bool{"encoding/binary": true, "errors": false}

func (in *interp) callStatic(st *state, fn_ *ssa.Function, args, binds []*Term, key string, pos token.Pos, vals []ssa.Value) *Term {
	name := relName(fn_)
	cc := &callCtx{name: name, args: args, sig: fn_.Signature, pos: pos, key: key, vals: vals}
	if m, ok := in.hooks[name]; ok {
		return m(in, st, cc)
	}
	if m, ok := models[name]; ok {
		return m(in, st, cc)
	}
	if fn_.Synthetic == "package initializer" {
		return tNil
	}
	if strings.HasPrefix(fn_.Name(), "init#") && in.p.isGenerated(fn_) {
		return tNil
	}
	pkg := fn_.Package()
	if pkg == nil && fn_.Object() != nil && fn_.Object().Pkg() != nil {
		pkg = in.prog.Package(fn_.Object().Pkg())
	}
	if pkg == nil && fn_.Parent() != nil {
		pkg = fn_.Parent().Package()
	}
	if pkg == nil && strings.HasSuffix(fn_.Name(), "$bound") || pkg == nil && fn_.Synthetic != "" {
		return in.callFn(st, fn_, args, binds, key)
	}
	pp := ""
	if pkg != nil {
		pp = pkg.Pkg.Path()
	}
	switch {
	case pp == modPath+"/logger":
		if fn_.Signature.Results().Len() == 0 {
			in.emit(st, "log:"+fn_.Name(), pos, nil, args...)
			return tNil
		}
	case pp == modPath+"/ecc/edwards25519" && (curvePrims[fn_.Name()] || fn_.Blocks == nil || fn_.Object() != nil && !fn_.Object().Exported()):
		// what these compute is C34's subject; a function added beside
		// them is read like any other
		return in.uninterpreted(st, cc, fn_)
	}
	if pkg != nil && in.isMod(pkg) {
		if op, ok := in.opaque[fn_]; ok {
			return in.envCall(st, op, args, fn_.Signature, key, pos)
		}
		if fn_.Blocks == nil {
			panic(undecided("no body: " + name))
		}
		return in.callFn(st, fn_, args, binds, key)
	}
	if inlineStd[pp] && fn_.Blocks != nil {
		return in.callFn(st, fn_, args, binds, key)
	}
	in.unmod[name]++
	return in.uninterpreted(st, cc, fn_)
}

var curvePrims = map[string]bool{"FeZero": true, "FeOne": true, "FeAdd": true, "FeSub": true, "FeCopy": true, "FeCMove": true,
	"FeFromBytes": true, "FeToBytes": true, "FeIsNegative": true, "FeIsNonZero": true, "FeNeg": true, "FeCombine": true,
	"FeMul": true, "FeSquare": true, "FeSquare2": true, "FeInvert": true, "Zero": true, "Double": true, "ToBytes": true,
	"ToCached": true, "ToProjective": true, "FromBytes": true, "ToExtended": true, "PreComputedGroupElementCMove": true,
	"GeScalarMultBase": true, "ScMulAdd": true, "ScReduce": true}

// uninterpreted is a call whose results and outputs are functions of the
// contents of its arguments.
func (in *interp) uninterpreted(st *state, c *callCtx, fn_ *ssa.Function) *Term {
	var d []*Term
	written := writtenParams(fn_)
	for i, a := range c.args {
		if i < len(written) && written[i] == 2 {
			continue // output only
		}
		d = append(d, deep(st.h, a))
	}
	d = append([]*Term(nil), d...)
	cname := c.name
	switch c.name {
	case "ecc/edwards25519.FeSquare":
		if len(d) == 1 {
			cname, d = "ecc/edwards25519.FeMul", append(d, d[0])
		}
	case "ecc/edwards25519.FeAdd", "ecc/edwards25519.FeMul": // commutative
		sort.SliceStable(d, func(i, j int) bool { return d[i].id < d[j].id })
	case "ecc/edwards25519.ScMulAdd":
		if len(d) == 3 && d[1].id < d[0].id {
			d[0], d[1] = d[1], d[0]
		}
	}
	mkRes := func(suffix string, t types.Type) *Term {
		nm := cname + suffix
		return opaqueResult(nm, t, d)
	}
	for i, a := range c.args {
		if i >= len(written) || written[i] == 0 {
			continue
		}
		if pt, ok := fn_.Params[i].Type().Underlying().(*types.Pointer); ok {
			in.noteWrite(st, a, c.pos)
			store(st.h, a, mkRes(fmt.Sprintf(">%d", i), pt.Elem()))
		} else if sl, ok := fn_.Params[i].Type().Underlying().(*types.Slice); ok {
			in.writeSlice(st, a, in.lenFn(c.name+fmt.Sprintf(">%d", i), sl.Elem(), d, sliceLen(a)), c.pos)
		}
	}
	in.emit(st, "ext:"+c.name, c.pos, nil, c.args...)
	rs := c.sig.Results()
	switch rs.Len() {
	case 0:
		return tNil
	case 1:
		return mkRes("", rs.At(0).Type())
	}
	if rs.Len() == 2 && isErr(rs.At(1).Type()) {
		ok := fnBool("ok:"+c.name, d...)
		e := fn("error:"+c.name, d...)
		nonNilFns["error:"+c.name] = true
		return mk(&Term{op: OTuple, args: []*Term{ite(ok, mkRes("#0", rs.At(0).Type()), zeroOf(rs.At(0).Type())), ite(ok, tNil, e)}})
	}
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		out = append(out, mkRes(fmt.Sprintf("#%d", i), rs.At(i).Type()))
	}
	return mk(&Term{op: OTuple, args: out})
}

// lenFn is an uninterpreted byte sequence of a given length.
func (in *interp) lenFn(name string, elem types.Type, args []*Term, n *Term) *Term {
	seqInfos[name] = seqInfo{n: -1, elem: elem}
	fnLens[name] = func(t *Term) *Term { return t.args[len(t.args)-1] }
	return fnL(name, append(append([]*Term(nil), args...), n)...)
}

func opaqueResult(nm string, t types.Type, d []*Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return fnBool(nm, d...)
		case u.Info()&types.IsString != 0:
			seqInfos[nm] = seqInfo{-1, types.Typ[types.Byte]}
			return fnL(nm, d...)
		default:
			lo, hi := intRange(u.Name())
			fnBounds[nm] = [2]*bigInt{lo, hi}
			return fnL(nm, d...)
		}
	case *types.Array:
		seqInfos[nm] = seqInfo{int(u.Len()), u.Elem()}
		return fnL(nm, d...)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = opaqueResult(nm+"."+u.Field(i).Name(), u.Field(i).Type(), d)
		}
		return mk(&Term{op: OStruct, typ: t, args: args})
	case *types.Slice:
		seqInfos[nm] = seqInfo{-1, u.Elem()}
		b := newBase("res:"+nm, base{name: nm, elem: u.Elem(), nidx: len(d), input: true, seqName: nm})
		return lift(func(x []*Term) *Term {
			s := fn(nm, x...)
			n := tLen(s)
			return mk(&Term{op: OSlc, args: []*Term{ptr(b, x...), tZero, n, n}})
		}, d...)
	case *types.Pointer:
		b := newBase("res:"+nm, base{name: nm, typ: u.Elem(), nidx: len(d), input: true, path: nm})
		return lift(func(x []*Term) *Term { return ptr(b, x...) }, d...)
	case *types.Interface:
		if isErr(t) {
			ok := fnBool("ok:"+nm, d...)
			e := fnL("error:"+nm, d...)
			nonNilFns["error:"+nm] = true
			return ite(ok, tNil, e)
		}
		nonNilFns[nm] = true
		return fnL(nm, d...)
	}
	if tp, ok := t.(*types.Tuple); ok {
		args := make([]*Term, tp.Len())
		for i := range args {
			args[i] = opaqueResult(fmt.Sprintf("%s#%d", nm, i), tp.At(i).Type(), d)
		}
		return mk(&Term{op: OTuple, args: args})
	}
	nonNilFns[nm] = true
	return fnL(nm, d...)
}

// writtenParams tells which parameters a function may write through: 1 read
// and written, 2 written before anything is read (by the function's own code).
var writtenCache = map[*ssa.Function][]int{}

func writtenParams(f *ssa.Function) []int {
	if r, ok := writtenCache[f]; ok {
		return r
	}
	r := make([]int, len(f.Params))
	writtenCache[f] = r
	if f.Blocks == nil {
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 {
				r[i] = 1
			}
		}
		return r
	}
	origin := map[ssa.Value]int{}
	for i, p := range f.Params {
		origin[p] = i + 1
	}
	reads := make([]bool, len(f.Params))
	for pass := 0; pass < 4; pass++ {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					if o := origin[x.X]; o > 0 {
						origin[x] = o
					}
				case *ssa.IndexAddr:
					if o := origin[x.X]; o > 0 {
						origin[x] = o
					}
				case *ssa.Slice:
					if o := origin[x.X]; o > 0 {
						origin[x] = o
					}
				case *ssa.ChangeType:
					if o := origin[x.X]; o > 0 {
						origin[x] = o
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if o := origin[e]; o > 0 {
							origin[x] = o
						}
					}
				case *ssa.UnOp:
					if o := origin[x.X]; o > 0 && x.Op == token.MUL {
						reads[o-1] = true
					}
				case *ssa.Store:
					if o := origin[x.Addr]; o > 0 {
						if _, ok := f.Params[o-1].Type().Underlying().(*types.Basic); !ok {
							r[o-1] = 1
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if cl := cc.StaticCallee(); cl != nil {
						w := writtenParams(cl)
						for j, a := range cc.Args {
							if o := origin[a]; o > 0 && j < len(w) && w[j] > 0 {
								r[o-1] = 1
							}
							if o := origin[a]; o > 0 && (j >= len(w) || w[j] != 2) {
								reads[o-1] = true
							}
						}
					} else if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
						if o := origin[cc.Args[0]]; o > 0 {
							r[o-1] = 1
						}
					}
				}
			}
		}
	}
	for i := range r {
		if r[i] == 1 && !reads[i] {
			r[i] = 2
		}
	}
	return r
}

// writeSlice replaces the content of a slice.
func (in *interp) writeSlice(st *state, s, seq *Term, pos token.Pos) {
	leaves(s, tTrue, func(s, g *Term) {
		if s.op != OSlc {
			return
		}
		old := amb
		amb = and(st.g, g)
		defer func() { amb = old }()
		p := s.args[0]
		in.noteWrite(st, p, pos)
		c := load(st.h, p)
		off, n := s.args[1], s.args[2]
		v := tCat(tSub(c, tZero, off), simp(seq, amb), tSub(c, add(off, n), sub(sub(tLen(c), off), n)))
		if g != tTrue {
			v = ite(g, v, c)
		}
		store(st.h, p, v)
	})
}

func (in *interp) builtin(st *state, name string, args []*Term, c *ssa.CallCommon, key string, pos token.Pos) *Term {
	switch name {
	case "len":
		if isString(c.Args[0].Type()) {
			return tLen(args[0])
		}
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return sliceLen(args[0])
		case *types.Array:
			return tInt(u.Len())
		case *types.Pointer:
			return tInt(u.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return sliceCap(args[0])
		}
	case "append":
		if isString(c.Args[1].Type()) {
			return in.appendSeq(st, args[0], args[1], elemType(c.Args[0].Type()), key, pos)
		}
		return in.appendSeq(st, args[0], sliceSeq(st.h, args[1]), elemType(c.Args[0].Type()), key, pos)
	case "copy":
		src := args[1]
		var seq, ns *Term
		if isString(c.Args[1].Type()) {
			seq, ns = src, tLen(src)
		} else {
			seq, ns = sliceSeq(st.h, src), sliceLen(src)
		}
		nd := sliceLen(args[0])
		n := ite(le(ns, nd), ns, nd)
		if decide(le(nd, ns)) == 1 {
			n = nd
		}
		n = simp(n, st.g)
		leaves(args[0], tTrue, func(d, g *Term) {
			if d.op != OSlc {
				return
			}
			oldA := amb
			amb = and(st.g, g)
			defer func() { amb = oldA }()
			m := simp(n, amb)
			if m == tZero {
				return
			}
			in.noteWrite(st, d.args[0], pos)
			cnt := load(st.h, d.args[0])
			off := d.args[1]
			v := tCat(tSub(cnt, tZero, off), tSub(simp(seq, amb), tZero, m), tSub(cnt, add(off, m), sub(sub(tLen(cnt), off), m)))
			if g != tTrue {
				v = ite(g, v, cnt)
			}
			store(st.h, d.args[0], v)
		})
		return n
	case "print", "println":
		in.emit(st, "print", pos, nil, args...)
		return tNil
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = ite(le(r, a), r, a)
			} else {
				r = ite(le(a, r), r, a)
			}
		}
		return r
	case "clear":
		in.writeSlice(st, args[0], zeroSeq(elemType(c.Args[0].Type()), sliceLen(args[0])), pos)
		return tNil
	}
	panic(undecided("builtin " + name))
}

func elemType(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

// appendSeq appends a sequence of elements to a slice.
func (in *interp) appendSeq(st *state, s, seq *Term, elem types.Type, key string, pos token.Pos) *Term {
	n := tLen(seq)
	if decide(eqInt(n, tZero)) == 1 {
		return s
	}
	// does any case certainly fit?
	fits := false
	leaves(s, tTrue, func(l, g *Term) {
		old := amb
		amb = and(st.g, g)
		defer func() { amb = old }()
		if l.op == OSlc && decide(le(add(l.args[2], n), sliceCap(l))) == 1 {
			fits = true
		}
	})
	fresh := func(st *state, s *Term) *Term {
		leaves(s, st.g, func(l, g *Term) {
			if l.op == OSlc {
				r, _ := rootOf(l.args[0])
				if r.op == OPtr && bases[r.k].input {
					old := amb
					amb = g
					room := simp(lt(l.args[2], sliceCap(l)), g)
					amb = old
					if room != tFalse {
						s2 := *st
						s2.g = and(g, room)
						in.emit(&s2, "spare:"+bases[r.k].name, pos, nil, l)
					}
				}
			}
		})
		cat := tCat(sliceSeq(st.h, s), simp(seq, st.g))
		return in.newSlice(st, key, elem, cat, nil)
	}
	if !fits {
		if decide(eqInt(n, tZero)) == 0 {
			// appending nothing keeps the slice, which matters only for nil
			r := fresh(st, s)
			if anyLeaf(s, func(l *Term) bool { return l.op == ONil }) {
				return ite(simp(eqInt(n, tZero), st.g), s, r)
			}
			return r
		}
		return fresh(st, s)
	}
	return in.split(st, s, func(st *state, s *Term) *Term {
		if s.op == OSlc && decide(le(add(s.args[2], n), s.args[3])) == 1 {
			p := s.args[0]
			c := load(st.h, p)
			at := add(s.args[1], s.args[2])
			in.noteWrite(st, p, pos)
			store(st.h, p, tCat(tSub(c, tZero, at), simp(seq, st.g), tSub(c, add(at, n), sub(sub(tLen(c), at), n))))
			return slc(p, s.args[1], add(s.args[2], n), s.args[3])
		}
		return fresh(st, s)
	})
}

// ---------- deep contents ----------

// deep is the content of a value with everything it refers to.
func deep(h *heap, v *Term) *Term { return deepD(h, v, 0, 1000) }

// shallow is the same through a few pointers only.
func shallow(h *heap, v *Term) *Term { return deepD(h, v, 0, 2) }

func deepD(h *heap, v *Term, d, ptrs int) *Term {
	if d > 14 && ptrs > 100 || d > 60 {
		panic(undecided("deep structure"))
	}
	return lift(func(x []*Term) *Term {
		v := x[0]
		switch v.op {
		case OPtr, OFAddr, OIAddr:
			if ptrs == 0 {
				return v
			}
			n := isNil(v)
			if n == tTrue {
				return tNil
			}
			if n == tFalse {
				return mk(&Term{op: OObj, args: []*Term{deepD(h, load(h, v), d+1, ptrs-1)}})
			}
			return lift(func(y []*Term) *Term {
				if y[0] == tTrue {
					return tNil
				}
				return mk(&Term{op: OObj, args: []*Term{deepD(h, load(h, v), d+1, ptrs-1)}})
			}, n)
		case OSlc:
			return mk(&Term{op: OSeqv, args: []*Term{isNil(v), deepSeq(h, sliceSeq(h, v), d+1, ptrs)}})
		case OStruct, OTuple:
			args := make([]*Term, len(v.args))
			for i, a := range v.args {
				args[i] = deepD(h, a, d+1, ptrs)
			}
			return mk(&Term{op: v.op, typ: v.typ, args: args})
		case OIface:
			n := isNil(v)
			if n == tTrue {
				return tNil
			}
			in := mk(&Term{op: OIface, typ: v.typ, args: []*Term{deepD(h, v.args[0], d+1, ptrs)}})
			if n == tFalse {
				return in
			}
			return lift(func(y []*Term) *Term {
				if y[0] == tTrue {
					return tNil
				}
				return mk(&Term{op: OIface, typ: v.typ, args: []*Term{deepD(h, v.args[0], d+1, ptrs)}})
			}, n)
		case OFunc:
			return v
		}
		if isSeq(v) {
			return deepSeq(h, v, d+1, ptrs)
		}
		return v
	}, v)
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return false
	}
	return true
}

func deepSeq(h *heap, s *Term, d, ptrs int) *Term {
	return lift(func(x []*Term) *Term {
		s := x[0]
		switch s.op {
		case OBytes:
			return s
		case OCat:
			parts := make([]*Term, len(s.args))
			for i, p := range s.args {
				parts[i] = deepSeq(h, p, d, ptrs)
			}
			return tCat(parts...)
		case OUnit:
			return tUnit(deepD(h, s.args[0], d+1, ptrs))
		case ORep:
			return tRep(deepD(h, s.args[0], d+1, ptrs), s.args[1])
		case OGen:
			i := freshInt("d")
			fnBounds[i.name] = fnBoundsNat
			b := bindOpen(s.args[1], s.k, i)
			if isInt(b) {
				return s
			}
			var e *Term
			underRange(i, s.args[0], func() *Term { e = deepD(h, b, d+1, ptrs); return nil })
			return tGen(s.args[0], e, i)
		case OFilt:
			i := freshInt("d")
			fnBounds[i.name] = fnBoundsNat
			b := bindOpen(s.args[2], s.k, i)
			if isInt(b) {
				return s
			}
			var e *Term
			underRange(i, s.args[0], func() *Term { e = deepD(h, b, d+1, ptrs); return nil })
			return tFilt(s.args[0], bindOpen(s.args[1], s.k, i), e, i)
		}
		if e := elemOf(s); e != nil && isRef(e) {
			if _, isArr := e.Underlying().(*types.Array); !isArr {
				i := freshInt("d")
				fnBounds[i.name] = fnBoundsNat
				n := tLen(s)
				var el *Term
				underRange(i, n, func() *Term { el = deepD(h, tAt(s, i), d+1, ptrs); return nil })
				return tGen(n, el, i)
			}
		}
		return s
	}, s)
}
