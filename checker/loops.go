package main

// Loop summaries. A loop whose trip count is a known small constant is
// analysed iteration by iteration. Any other loop is summarised from one
// generic iteration k: every variable and every object the body changes gets a
// closed form in k by induction on the shape of its update (unchanged, counted,
// appended to, appended to under a condition, filled by index, accumulated), or
// stays an opaque iterate of that update; then each way out of the loop is
// described by the iteration at which it is first taken.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const unrollLimit = 70

var traceLoops = os.Getenv("VERIF_TRACE_LOOPS") != ""

func (in *interp) loop(fr *frame, l *loop, ins []edge) []edge {
	in.stats.loops++
	st0 := in.join(fr, l.header, ins)
	hid := fr.ids[l.header.Instrs[0]]
	em, om := len(in.events), len(in.obls)
	if copies(l) {
		if r, ok := in.copyLoop(fr, l, st0, hid); ok {
			return r
		}
	}
	if r, ok := in.unrollLoop(fr, l, st0, hid); ok {
		in.stats.unrolled++
		return r
	}
	in.events, in.obls = in.events[:em], in.obls[:om]
	return in.splitLoop(fr, l, st0, hid, 0)
}

// copies tells whether a loop only moves elements from one place to another.
func copies(l *loop) bool {
	stores := 0
	for b := range l.body {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.IndexAddr, *ssa.If, *ssa.Jump, *ssa.DebugRef:
			case *ssa.UnOp:
				if i.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				v, ok := i.Val.(*ssa.UnOp)
				if !ok || v.Op != token.MUL {
					return false
				}
				if _, ok := v.X.(*ssa.IndexAddr); !ok {
					return false
				}
				stores++
			default:
				return false
			}
		}
	}
	return stores == 1
}

// copyLoop summarises such a loop at once, rather than round by round.
func (in *interp) copyLoop(fr *frame, l *loop, st0 *state, hid int) (r []edge, ok bool) {
	em, om, rm, ni := len(in.events), len(in.obls), len(fr.rets), len(in.iter)
	vague := in.vague
	in.vague = false
	defer func() {
		x := recover()
		if x != nil {
			if _, is := x.(undecided); !is {
				panic(x)
			}
		}
		if ok = x == nil && !in.vague; !ok {
			in.events, in.obls, fr.rets, in.iter = in.events[:em], in.obls[:om], fr.rets[:rm], in.iter[:ni]
		}
		in.vague = vague
	}()
	r = in.genericLoop(fr, l, st0.fork(st0.g), hid)
	return r, true
}

const splitDepth = 4

// splitLoop summarises a loop; where values joined before it stand in the way,
// it does so separately for the cases that were joined.
func (in *interp) splitLoop(fr *frame, l *loop, st0 *state, hid, depth int) (r []edge) {
	if f := flagOf(l, st0); f != nil && depth < splitDepth {
		return in.splitCases(fr, l, st0, f, hid, depth)
	}
	em, om, rm, ni := len(in.events), len(in.obls), len(fr.rets), len(in.iter)
	var failed interface{}
	in.vague = false
	func() {
		start := st0
		if depth < splitDepth {
			start = st0.fork(st0.g)
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(undecided); !ok {
						panic(x)
					}
					failed = x
				}
			}()
		}
		r = in.genericLoop(fr, l, start, hid)
	}()
	if failed == nil && !in.vague {
		return r
	}
	// a loop that can be shown to end after a few rounds is analysed round by
	// round, though its first test is not decided
	if depth == 0 || failed != nil {
		em2, om2 := len(in.events), len(in.obls)
		in.vague = false
		if s, ok := in.peelLoop(fr, l, st0, hid, em, om, rm, ni); ok {
			return s
		}
		in.events, in.obls = in.events[:em2], in.obls[:om2]
	}
	in.vague = false
	if failed == nil {
		return r
	}
	c := splitOn(l, st0)
	if c == nil {
		panic(failed)
	}
	if traceLoops {
		fmt.Fprintf(os.Stderr, "SPLIT %s in %s on %s: %v\n", fr.key, fr.fn, str(c), failed)
	}
	in.events, in.obls, fr.rets, in.iter = in.events[:em], in.obls[:om], fr.rets[:rm], in.iter[:ni]
	return append(r, in.splitCases(fr, l, st0, c, hid, depth)...)
}

// splitCases summarises a loop separately for the cases of a condition.
func (in *interp) splitCases(fr *frame, l *loop, st0 *state, c *Term, hid, depth int) (r []edge) {
	u := fr.unroll
	for i, g := range []*Term{and(st0.g, c), and(st0.g, not(c))} {
		st := st0.fork(g)
		for v, t := range st.env {
			st.env[v] = simp(t, g)
		}
		fr.unroll = fmt.Sprintf("%s/%d.%d", u, depth, i)
		r = append(r, in.splitLoop(fr, l, st, hid, depth+1)...)
	}
	fr.unroll = u
	return r
}

// flagOf is what a flag that a loop goes on with starts as, where that is not
// known: one that the header tests on the way out.
func flagOf(l *loop, st0 *state) *Term {
	for _, p := range loopPhis(l.header) {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		v := simp(asBoolT(st0.env[p]), st0.g)
		if v == tTrue || v == tFalse {
			continue
		}
		for _, u := range *p.Referrers() {
			if n, ok := u.(*ssa.UnOp); ok && len(*n.Referrers()) > 0 {
				u = (*n.Referrers())[0]
			}
			i, ok := u.(*ssa.If)
			if !ok || !l.body[i.Block()] {
				continue
			}
			for _, t := range i.Block().Succs {
				if !l.body[t] {
					return v
				}
			}
		}
	}
	return nil
}

// splitOn is the condition that most of the joined values of a loop hang on.
func splitOn(l *loop, st0 *state) *Term {
	cnt := map[*Term]int{}
	see := func(t *Term, n int) {
		if t == nil || t.op != OIte || isInt(t) {
			return
		}
		a := t.args[0]
		switch atomUnder(a, st0.g) {
		case 0:
			cnt[a] += n
		}
	}
	used := map[ssa.Value]bool{}
	for b := range l.body {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if *o != nil {
					used[*o] = true
				}
			}
		}
	}
	for v := range used {
		if t, ok := st0.env[v]; ok {
			see(simp(t, st0.g), 4)
		}
	}
	for _, c := range st0.h.cells {
		for _, w := range c.ws {
			see(simp(w.val, st0.g), 1)
			if w.val.op == OStruct {
				for _, f := range w.val.args {
					see(simp(f, st0.g), 1)
				}
			}
		}
	}
	var best *Term
	for a, n := range cnt {
		if best == nil || n > cnt[best] || n == cnt[best] && a.id < best.id {
			best = a
		}
	}
	if best == nil {
		return nil
	}
	return asBDD(best)
}

func loopPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			r = append(r, p)
		} else {
			break
		}
	}
	return r
}

// counts tells whether a test can bound the number of rounds of a loop.
func counts(c ssa.Value) bool {
	switch c := c.(type) {
	case *ssa.BinOp:
		b, ok := c.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	case *ssa.UnOp:
		return counts(c.X)
	case *ssa.Call, *ssa.Phi:
		return true
	case *ssa.Extract:
		_, ok := c.Tuple.(*ssa.Next)
		return ok
	}
	return false
}

const peelLimit = 3

// peelLoop analyses a loop round by round, as long as it is shown to end
// within a few rounds; otherwise it leaves everything as it was.
func (in *interp) peelLoop(fr *frame, l *loop, st0 *state, hid, em, om, rm, ni int) (outs []edge, ok bool) {
	old := fr.unroll
	ev, ob, rt, it := in.events, in.obls, fr.rets, in.iter
	in.events, in.obls = append([]event(nil), ev[:em]...), append([]obligation(nil), ob[:om]...)
	fr.rets, in.iter = append([]retState(nil), rt[:rm]...), append([]*Term(nil), it[:ni]...)
	defer func() {
		fr.unroll = old
		if x := recover(); x != nil {
			if _, u := x.(undecided); !u {
				panic(x)
			}
			ok = false
		}
		in.vague = false
		if !ok {
			in.events, in.obls, fr.rets, in.iter = ev, ob, rt, it
			outs = nil
		}
	}()
	cur := st0.fork(st0.g)
	for n := 0; n < peelLimit; n++ {
		fr.unroll = fmt.Sprintf("%s~%d.%d", old, hid, n)
		exits, backs := in.region(fr, l, l.header, []edge{{st: cur}})
		outs = append(outs, exits...)
		if len(backs) == 0 {
			return outs, true
		}
		cur = in.join(fr, l.header, backs)
	}
	return nil, false
}

// unrollLoop analyses a loop with a decided trip count exactly.
func (in *interp) unrollLoop(fr *frame, l *loop, st0 *state, hid int) ([]edge, bool) {
	old := fr.unroll
	defer func() { fr.unroll = old }()
	cur := st0.fork(st0.g)
	var outs []edge
	for n := 0; n < unrollLimit; n++ {
		fr.unroll = fmt.Sprintf("%s~%d.%d", old, hid, n)
		before := cur.g
		nrets := len(fr.rets)
		exits, backs := in.region(fr, l, l.header, []edge{{st: cur}})
		if len(backs) == 0 {
			return append(outs, exits...), true
		}
		// some test that can leave the loop must be decided
		decided := false
		byBlock := map[*ssa.BasicBlock]bool{}
		for _, e := range exits {
			byBlock[e.from] = true
		}
		for b := range l.body {
			leaves := false
			for _, s := range b.Succs {
				if !l.body[s] {
					leaves = true
				}
			}
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && leaves && !byBlock[b] && counts(i.Cond) {
				decided = true
			}
		}
		if !decided {
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		_ = before
		outs = append(outs, exits...)
		next := in.join(fr, l.header, backs)
		cur = next
	}
	return nil, false
}

// ---------- carried values ----------

type carry struct {
	kind   string // leaf, slice, ptr, struct, iface
	typ    types.Type
	name   string
	init   *Term // initial value (for slices: the slice, for leaves: the value)
	initH  *heap
	inv    bool
	sym    *Term
	seq0   *Term // slices: initial content
	closed *Term
	upd    *Term
	kids   []*carry
	vb     *base
}

type loopCtx struct {
	in    *interp
	key   string
	k     *Term
	outer []*Term
	items []*carry
}

// value is the carried value at the start of the generic iteration; virtual
// objects get their content in h.
func (c *carry) value(lc *loopCtx, h *heap) *Term {
	if c.inv {
		return c.init
	}
	switch c.kind {
	case "leaf":
		if c.closed != nil {
			return c.closed
		}
		return c.sym
	case "slice":
		v := c.sym
		if c.closed != nil {
			v = c.closed
		}
		p := ptr(c.vb, lc.outer...)
		h.set(p, v, tTrue)
		n := tLen(v)
		return slc(p, tZero, n, n)
	case "ptr":
		p := ptr(c.vb, lc.outer...)
		h.set(p, c.kids[0].value(lc, h), tTrue)
		return p
	case "struct":
		args := make([]*Term, len(c.kids))
		for i, k := range c.kids {
			args[i] = k.value(lc, h)
		}
		return mk(&Term{op: OStruct, typ: c.typ, args: args})
	case "iface":
		return mk(&Term{op: OIface, typ: c.typ, args: []*Term{c.kids[0].value(lc, h)}})
	}
	panic("carry")
}

// expand makes an item that turned out to change opaque.
func (c *carry) expand(lc *loopCtx, back *Term) {
	c.inv = false
	outer := lc.outer
	switch u := c.typ.Underlying().(type) {
	case *types.Struct:
		c.kind = "struct"
		for i := 0; i < u.NumFields(); i++ {
			c.kids = append(c.kids, &carry{typ: u.Field(i).Type(), name: c.name + "." + u.Field(i).Name(), init: field(c.init, i), initH: c.initH, inv: true})
		}
		return
	case *types.Pointer:
		if c.init.op == ONil || anyLeaf(c.init, func(t *Term) bool { return t.op == ONil }) {
			break
		}
		c.kind = "ptr"
		c.vb = newBase("alloc:virt:"+c.name, base{name: "virt:" + c.name, typ: u.Elem(), nidx: len(outer), alloc: true, loops: lc.in.loopNames()})
		c.kids = []*carry{{typ: u.Elem(), name: c.name + "*", init: load(c.initH, c.init), initH: c.initH, inv: true}}
		return
	case *types.Slice:
		c.kind = "slice"
		c.vb = newBase("alloc:virt:"+c.name, base{name: "virt:" + c.name, elem: u.Elem(), nidx: len(outer), alloc: true, loops: lc.in.loopNames()})
		c.seq0 = sliceSeq(c.initH, c.init)
		nm := "loop:" + c.name
		seqInfos[nm] = seqInfo{n: -1, elem: u.Elem()}
		c.sym = fn(nm, outer...)
		return
	case *types.Interface:
		t := dynType(c.init)
		t2 := dynType(back)
		if t != nil && t2 != nil && types.Identical(t, t2) {
			c.kind = "iface"
			c.typ = t
			c.kids = []*carry{{typ: t, name: c.name + "(v)", init: ifaceVal(c.init), initH: c.initH, inv: true}}
			return
		}
	case *types.Array:
		c.kind = "leaf"
		nm := "loop:" + c.name
		seqInfos[nm] = seqInfo{n: int(u.Len()), elem: u.Elem()}
		if u.Len() < 0 {
			ln := tLen(c.init)
			fnLens[nm] = func(*Term) *Term { return ln }
		}
		c.sym = fn(nm, outer...)
		return
	case *types.Basic:
		c.kind = "leaf"
		nm := "loop:" + c.name
		switch {
		case u.Info()&types.IsBoolean != 0:
			c.sym = fnBool(nm, outer...)
		case u.Info()&types.IsString != 0:
			seqInfos[nm] = seqInfo{n: -1, elem: types.Typ[types.Byte]}
			c.sym = fn(nm, outer...)
		default:
			lo, hi := intRange(u.Name())
			fnBounds[nm] = [2]*big.Int{lo, hi}
			c.sym = fn(nm, outer...)
		}
		return
	}
	c.kind = "leaf"
	c.sym = fn("loop:"+c.name, outer...)
}

func anyLeaf(t *Term, f func(*Term) bool) bool {
	if t.op == OIte {
		return anyLeaf(t.args[1], f) || anyLeaf(t.args[2], f)
	}
	return f(t)
}

func dynType(t *Term) types.Type {
	switch t.op {
	case OIface:
		return t.typ
	case OIte:
		a, b := dynType(t.args[1]), dynType(t.args[2])
		if a != nil && b != nil && types.Identical(a, b) {
			return a
		}
	}
	return nil
}

func ifaceVal(t *Term) *Term {
	return lift(func(x []*Term) *Term {
		if x[0].op == OIface {
			return x[0].args[0]
		}
		return tNil
	}, t)
}

// seqCarry is a carried byte string or array content held in an object.
func seqCarry(name string, elem types.Type, init *Term) *carry {
	c := &carry{kind: "seqobj", name: name, init: init, inv: true}
	_ = elem
	return c
}

// update compares the value at the back edge with the one at the start of the
// iteration. It reports whether an item had to be expanded.
func (c *carry) update(lc *loopCtx, back *Term, h *heap) bool {
	if c.inv {
		if simp(back, amb) == c.init || back == c.init {
			return false
		}
		c.expand(lc, back)
		return true
	}
	switch c.kind {
	case "leaf":
		c.upd = back
		return false
	case "slice":
		c.upd = sliceSeq(h, back)
		return false
	case "ptr":
		if anyLeaf(back, func(t *Term) bool { return t.op == ONil }) {
			panic(undecided("a pointer carried by a loop may become nil: " + c.name))
		}
		return c.kids[0].update(lc, load(h, back), h)
	case "struct":
		r := false
		for i, k := range c.kids {
			if k.update(lc, field(back, i), h) {
				r = true
			}
		}
		return r
	case "iface":
		return c.kids[0].update(lc, ifaceVal(back), h)
	}
	panic("carry")
}

func (c *carry) each(f func(*carry)) {
	if c.inv {
		return
	}
	if c.kind == "leaf" || c.kind == "slice" {
		f(c)
	}
	for _, k := range c.kids {
		k.each(f)
	}
}

func (c *carry) initVal() *Term {
	if c.kind == "slice" {
		return c.seq0
	}
	return c.init
}

// close finds a closed form of a leaf; open holds the symbols of items that
// have none yet.
func (c *carry) close(lc *loopCtx, open map[*Term]bool) bool {
	F, S, k := c.upd, c.sym, lc.k
	free := func(t *Term) bool {
		for s := range open {
			if s != nil && contains(t, s) {
				return false
			}
		}
		return !contains(t, S)
	}
	init := c.initVal()
	if F == S || S.isAtom() && F == asBDD(S) {
		c.closed = init
		return true
	}
	if u, ok := c.typ.Underlying().(*types.Basic); ok && u.Info()&types.IsBoolean != 0 {
		SB := asBDD(S)
		hi := simp(F, SB)
		lo := simp(F, not(SB))
		if lo == tFalse && hi != tFalse && free(hi) { // F = S and hi
			c.closed = and(init, not(tExistsUpTo(k, not(hi), k)))
			return true
		}
		if hi == tTrue && free(lo) { // F = S or lo
			c.closed = or(init, tExistsUpTo(k, lo, k))
			return true
		}
		return false
	}
	if isInt(S) && F.op == OIte && c.latch(lc, free) {
		return true
	}
	if isInt(S) && F.op != OIte {
		g := F
		for g.op == OFn && strings.HasPrefix(g.name, "wrap:") {
			g = g.args[0]
		}
		d := fromLin(linAdd(toLin(g), toLin(S), bigMinus))
		if d.op == OInt {
			c.closed = add(init, mulc(k, d.n))
			if b, ok := c.typ.Underlying().(*types.Basic); ok && g != F {
				c.closed = wrap(b.Name(), c.closed)
			}
			return true
		}
		return false
	}
	isSq := c.kind == "slice" || isSeq(S)
	if !isSq {
		return c.latch(lc, free)
	}
	// append
	app := func(F *Term) *Term {
		if F.op == OCat && F.args[0] == S {
			return tCat(F.args[1:]...)
		}
		if F == S {
			return tEmpty
		}
		return nil
	}
	if x := app(F); x != nil && free(x) {
		if x.op == OUnit || tLen(x) == tOne {
			c.closed = tCat(init, tGen(k, tAt(x, tZero), k))
			return true
		}
		if free(x) && !contains(x, k) && x.op == OBytes && len(x.name) > 0 {
			same := strings.Count(x.name, x.name[:1]) == len(x.name)
			if same {
				c.closed = tCat(init, tRep(tInt(int64(x.name[0])), mulc(k, big.NewInt(int64(len(x.name))))))
				return true
			}
		}
		return false
	}
	// put in front
	if F.op == OCat && F.args[len(F.args)-1] == S {
		if x := tCat(F.args[:len(F.args)-1]...); free(x) && tLen(x) == tOne {
			s := freshInt("g")
			c.closed = tCat(tGen(k, subst(tAt(x, tZero), k, sub(addi(k, -1), s)), s), init)
			return true
		}
	}
	// elements dropped at one end
	if F.op == OSub && F.args[0] == S {
		off, ln := F.args[1], F.args[2]
		if d := sub(sub(tLen(S), off), ln); off.op == OInt && d.op == OInt && off.n.Sign() >= 0 && d.n.Sign() >= 0 {
			o, n := mulc(k, off.n), tLen(init)
			c.closed = tSub(init, o, sub(sub(n, o), mulc(k, d.n)))
			return true
		}
	}
	// append under a condition
	if F.op == OIte && !contains(F, S) == false {
		cond, elem, ok := condAppend(F, S, app)
		if ok && free(cond) && free(elem) && tLen(elem) == tOne {
			c.closed = tCat(init, tFilt(k, cond, tAt(elem, tZero), k))
			return true
		}
	}
	// appended, the first dropped when there are too many
	if m, e, trim := boundedAppend(F, S); e != nil && free(e) && tLen(e) == tOne {
		n := tLen(init)
		l := addi(m, 1)
		all := add(n, k)
		d := ite(le(n, l), ite(le(all, l), tZero, sub(all, l)), k)
		if trim { // any excess goes in the first round
			d = ite(le(n, l), ite(le(all, l), tZero, sub(all, l)), ite(le(k, tZero), tZero, sub(all, l)))
		}
		c.closed = tSub(tCat(init, tGen(k, tAt(e, tZero), k)), d, sub(all, d))
		return true
	}
	// filled by index: S[:i] ++ [e] ++ S[i+1:]
	if ix, e := indexWrite(F, S); ix != nil {
		n := tLen(init)
		if free(e) && free(ix) {
			d := sub(ix, k)
			if !contains(d, k) {
				// positions d, d+1, ...
				body := subst(e, k, k)
				c.closed = tCat(tSub(init, tZero, d), tGen(k, body, k), tSub(init, add(d, k), sub(sub(n, d), k)))
				return true
			}
			d = add(ix, k)
			if !contains(d, k) {
				// positions d, d-1, ...: after k iterations d-k+1 .. d are filled
				s := freshInt("g")
				lo := addi(sub(d, k), 1)
				body := subst(e, k, sub(add(k, tInt(-1)), s))
				c.closed = tCat(tSub(init, tZero, lo), tGen(k, body, s), tSub(init, addi(d, 1), sub(sub(n, d), tOne)))
				return true
			}
		}
	}
	return false
}

// latch closes a value that is replaced at most once.
func (c *carry) latch(lc *loopCtx, free func(*Term) bool) bool {
	F, S, k := c.upd, c.sym, lc.k
	var own []*Term // conditions on the value itself
	for _, a := range condAtoms(F) {
		if contains(a, S) {
			own = append(own, a)
		}
	}
	init := c.initVal()
	once := func(P, E *Term) *Term {
		h := freshInt("g")
		q := subst(P, k, h)
		return ite(tExists(k, q, h), subst(E, k, tFirst(k, q, h)), init)
	}
	if len(own) == 0 {
		P, E := condValue(F, S)
		if P == nil || !free(P) || !free(E) {
			return false
		}
		if q := firstOnly(P, k); q != nil {
			c.closed = once(q, E)
			return true
		}
		return false
	}
	if len(own) > 1 {
		return false
	}
	for _, C := range []*Term{asBDD(own[0]), not(asBDD(own[0]))} {
		if simp(F, not(C)) != S {
			continue
		}
		P, E := condValue(simp(F, C), S)
		if P == nil || !free(P) || !free(E) {
			continue
		}
		g := and(P, le(tZero, k))
		if simp(asBoolT(resimp(subst(C, S, E))), g) != tFalse {
			continue
		}
		c.closed = ite(asBoolT(resimp(subst(C, S, init))), once(P, E), init)
		return true
	}
	return false
}

// condAtoms are the conditions a value depends on.
func condAtoms(t *Term) (r []*Term) {
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if t.op != OIte || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range atomsOf(asBDD(t.args[0])) {
			if !seen[a] {
				seen[a] = true
				r = append(r, a)
			}
		}
		f(t.args[1])
		f(t.args[2])
	}
	f(t)
	return
}

// condValue reads F as: E when P holds, else S.
func condValue(F, S *Term) (P, E *Term) {
	var walk, val func(f *Term) *Term
	walk = func(f *Term) *Term {
		if f.op == OIte {
			return ite(asBDD(f.args[0]), walk(f.args[1]), walk(f.args[2]))
		}
		if f == S {
			return tFalse
		}
		if E == nil {
			E = f
		}
		return tTrue
	}
	P = walk(F)
	if E == nil {
		return nil, nil
	}
	some := E
	val = func(f *Term) *Term {
		if f.op == OIte {
			return ite(asBDD(f.args[0]), val(f.args[1]), val(f.args[2]))
		}
		if f == S {
			return some
		}
		return f
	}
	return P, val(F)
}

// boundedAppend reads F as: if len(S) <= m then S ++ e else S[1:] ++ e (or, with
// trim, else the last m of S ++ e).
func boundedAppend(F, S *Term) (m, e *Term, trim bool) {
	if F.op != OIte || F.args[0].op != OLe {
		return nil, nil, false
	}
	ls := tLen(S)
	l := toLin(F.args[0].args[0])
	hi, lo := F.args[1], F.args[2]
	c, ok := l.m[ls]
	if !ok || len(l.m) != 1 || c.CmpAbs(bigOne) != 0 {
		return nil, nil, false
	}
	if c.Sign() > 0 {
		m = tBig(new(big.Int).Neg(l.c)) // len + c <= 0
	} else {
		m = tBig(new(big.Int).Sub(l.c, bigOne)) // len > c-1
		hi, lo = lo, hi
	}
	if hi.op != OCat || lo.op != OCat || hi.args[0] != S {
		return nil, nil, false
	}
	e = tCat(hi.args[1:]...)
	r := lo.args[0]
	if r.op != OSub || r.args[0] != S || tCat(lo.args[1:]...) != e {
		return nil, nil, false
	}
	if w := r.args[2]; r.args[1] != tOne {
		// the last w of S, where S ++ e is kept up to a length of w or w+1
		if w.op != OInt || add(r.args[1], w) != ls || m.op != OInt || w != m && w != addi(m, 1) {
			return nil, nil, false
		}
		m, trim = w, true
	}
	if m.n.Sign() < 0 {
		return nil, nil, false
	}
	return m, e, trim
}

func tExistsUpTo(n, body, s *Term) *Term {
	g := freshInt("g")
	return tExists(n, subst(body, s, g), g)
}

// condAppend reads F as: S extended by elem when cond holds, else S.
func condAppend(F, S *Term, app func(*Term) *Term) (cond, elem *Term, ok bool) {
	var ext []*Term
	var walk func(f *Term) *Term
	bad := false
	walk = func(f *Term) *Term {
		if f.op == OIte {
			return ite(asBDD(f.args[0]), walk(f.args[1]), walk(f.args[2]))
		}
		x := app(f)
		if x == nil {
			bad = true
			return tFalse
		}
		if x == tEmpty {
			return tFalse
		}
		ext = append(ext, x)
		return tTrue
	}
	cond = walk(F)
	if bad || len(ext) == 0 {
		return nil, nil, false
	}
	elem = ext[0]
	for _, x := range ext[1:] {
		if x != elem {
			// different elements under different conditions
			var val func(f *Term) *Term
			val = func(f *Term) *Term {
				if f.op == OIte {
					return ite(asBDD(f.args[0]), val(f.args[1]), val(f.args[2]))
				}
				if x := app(f); x != tEmpty {
					return x
				}
				return ext[0]
			}
			elem = val(F)
			break
		}
	}
	return cond, elem, true
}

func indexWrite(F, S *Term) (ix, e *Term) {
	if F.op == OIte {
		// in every case the same index
		i1, e1 := indexWrite(F.args[1], S)
		i2, e2 := indexWrite(F.args[2], S)
		if i1 == nil || i1 != i2 {
			return nil, nil
		}
		return i1, ite(asBDD(F.args[0]), e1, e2)
	}
	ps := partsOf(F)
	off := tZero
	for i, p := range ps {
		if p.op == OSub && p.args[0] == S && p.args[1] == off {
			off = add(off, p.args[2])
			continue
		}
		if tLen(p) != tOne || e != nil {
			if p.op == OBytes && e == nil && i < 3 {
				return nil, nil
			}
			return nil, nil
		}
		ix, e = off, tAt(p, tZero)
		off = addi(off, 1)
	}
	return
}

// ---------- the generic iteration ----------

func (in *interp) genericLoop(fr *frame, l *loop, st0 *state, hid int) []edge {
	key := fmt.Sprintf("%s%s:L%d", fr.key, fr.unroll, hid)
	lc := &loopCtx{in: in, key: key, outer: append([]*Term(nil), in.iter...)}
	kn := "k:" + key
	fnBounds[kn] = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 48)}
	lc.k = fn(kn, in.iter...)
	k := lc.k
	tsym := fn("t:" + key)
	fnBounds["t:"+key] = fnBounds[kn]

	old := amb
	defer func() { amb = old }()
	amb = st0.g

	// the loop may not run at all with pointers that are nil on entry
	var phis []*ssa.Phi
	var phiItems []*carry
	for _, p := range loopPhis(l.header) {
		phis = append(phis, p)
		c := &carry{typ: p.Type(), name: fmt.Sprintf("%s.%s", key, p.Name()), init: simp(st0.env[p], st0.g), initH: st0.h, inv: true}
		phiItems = append(phiItems, c)
	}
	type heapItem struct {
		k    int
		idx  []*Term
		c    *carry
		seen bool
	}
	var hItems []*heapItem
	templates := map[int]*cell{}

	em, om, rm := len(in.events), len(in.obls), len(fr.rets)
	var exits, backs []edge
	var bst *state
	for pass := 0; ; pass++ {
		if pass > 24 {
			panic(undecided("no summary of the loop in " + fr.fn.String()))
		}
		in.events, in.obls, fr.rets = in.events[:em], in.obls[:om], fr.rets[:rm]
		st := st0.fork(and(st0.g, le(tZero, k)))
		amb = st.g
		for b, c := range templates {
			st.h.cells[b] = c
		}
		for i, p := range phis {
			st.env[p] = phiItems[i].value(lc, st.h)
		}
		for _, it := range hItems {
			v := it.c.value(lc, st.h)
			st.h.set(mk(&Term{op: OPtr, k: it.k, args: it.idx}), v, tTrue)
		}
		start := st.h.clone()
		in.iter = append(in.iter, k)
		exits, backs = in.region(fr, l, l.header, []edge{{st: st}})
		in.iter = in.iter[:len(in.iter)-1]
		if len(backs) == 0 {
			bst = nil
			break
		}
		bst = in.join(fr, l.header, backs)
		amb = bst.g
		// a flag that ends the loop at the next test ends it here
		for _, p := range phis {
			var v *Term
			back := simp(bst.env[p], bst.g)
			switch u := p.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					v = asBoolT(back)
				} else if u.Info()&types.IsInteger != 0 && back.op == OIte && anyLeaf(back, func(x *Term) bool { return x.op == OInt && x.n.Sign() < 0 }) {
					v = le(tZero, back)
				}
			case *types.Pointer, *types.Interface:
				v = asBoolT(isNil(back))
			}
			if v == nil {
				continue
			}
			v = simp(v, bst.g)
			for _, v := range []*Term{v, not(v)} {
				if v == tTrue || v == tFalse || simp(v, bst.g) == tFalse {
					continue
				}
				e, o, r := len(in.events), len(in.obls), len(fr.rets)
				st1 := bst.fork(and(bst.g, v))
				amb = st1.g
				for _, q := range phis {
					st1.env[q] = simp(st1.env[q], st1.g)
				}
				for b, c := range st1.h.cells {
					if c == start.cells[b] {
						continue
					}
					n := *c
					n.ws = nil
					for _, w := range c.ws {
						if w.g = simp(w.g, st1.g); w.g != tFalse {
							w.val = simp(w.val, st1.g)
							n.ws = append(n.ws, w)
						}
					}
					st1.h.cells[b] = &n
				}
				in.iter = append(in.iter, k)
				out, again := in.region(fr, l, l.header, []edge{{st: st1}})
				in.iter = in.iter[:len(in.iter)-1]
				amb = bst.g
				if len(again) > 0 {
					in.events, in.obls, fr.rets = in.events[:e], in.obls[:o], fr.rets[:r]
					continue
				}
				exits = append(exits, out...)
				bst.g = and(bst.g, not(v))
				amb = bst.g
				break
			}
		}
		expanded := false
		for i, p := range phis {
			if phiItems[i].update(lc, simp(bst.env[p], bst.g), bst.h) {
				expanded = true
			}
		}
		// objects the iteration changed
		newT := map[int]*cell{}
		var ks []int
		for b := range bst.h.cells {
			ks = append(ks, b)
		}
		sort.Ints(ks)
		for _, b := range ks {
			c := bst.h.cells[b]
			if sc := start.cells[b]; sc == c {
				continue
			}
			bs := bases[b]
			if bs.madeIn(k, len(lc.outer)) {
				newT[b] = templateOf(bst.h, b, k, tsym)
				continue
			}
			if strings.HasPrefix(bs.name, "virt:"+key+".") {
				continue
			}
			for _, w := range c.ws {
				in.carryWrite(lc, b, w, st0, start, bst, func(idx []*Term) *carry {
					for _, it := range hItems {
						if it.k == b && sameTerms(it.idx, idx) {
							it.seen = true
							return it.c
						}
					}
					p := mk(&Term{op: OPtr, k: b, args: idx})
					amb = st0.g
					init := st0.h.content(p)
					amb = bst.g
					t := bs.typ
					if t == nil {
						t = types.NewSlice(bs.elem)
					}
					nc := &carry{typ: t, name: fmt.Sprintf("%s.o%d.%d", key, b, len(hItems)), init: init, initH: st0.h, inv: true}
					if bs.typ == nil {
						nc.typ = types.NewArray(bs.elem, -1)
					}
					hItems = append(hItems, &heapItem{b, idx, nc, true})
					return nc
				}, &expanded)
			}
		}
		for _, it := range hItems {
			if !it.seen && it.c.update(lc, simp(bst.h.content(mk(&Term{op: OPtr, k: it.k, args: it.idx})), bst.g), bst.h) {
				expanded = true
			}
			it.seen = false
		}
		tmplChanged := len(newT) != len(templates)
		for b, c := range newT {
			if o := templates[b]; o == nil || o.tmpl != c.tmpl {
				tmplChanged = true
				if traceLoops && pass > 20 {
					fmt.Fprintf(os.Stderr, "TEMPLATE %s %s %s\n", key, bases[b].name, dag(c.tmpl, 1500))
				}
			}
		}
		templates = newT
		var lv []*carry
		for _, c := range phiItems {
			c.each(func(x *carry) { lv = append(lv, x) })
		}
		for _, it := range hItems {
			it.c.each(func(x *carry) { lv = append(lv, x) })
		}
		if expanded {
			for _, c := range lv {
				c.closed = nil
			}
			continue
		}
		open := map[*Term]bool{}
		for _, c := range lv {
			if c.closed == nil {
				open[c.sym] = true
			}
		}
		progress := false
		if len(open) > 0 {
			var done []*carry
			for _, c := range lv {
				if c.closed == nil {
					delete(open, c.sym)
					if c.close(lc, open) {
						done = append(done, c)
					}
					open[c.sym] = true
				}
			}
			progress = len(done) > 0
			if !progress {
				// an iterate of its own update
				for _, c := range lv {
					if c.closed != nil {
						continue
					}
					self := true
					for s := range open {
						if s != c.sym && contains(c.upd, s) {
							self = false
						}
					}
					if self && !c.sym.isAtom() {
						if traceLoops {
							fmt.Fprintf(os.Stderr, "ITER %s: %s\n", c.name, str(c.upd))
						}
						if !contains(c.upd, c.sym) { // what the last round left
							c.closed = ite(le(k, tZero), c.initVal(), subst(c.upd, k, addi(k, -1)))
						} else {
							c.closed = tIter(k, c.initVal(), c.upd, k, c.sym)
						}
						progress = true
						break
					}
				}
			}
			if !progress {
				// give up on its value, keep what else is known
				for _, c := range lv {
					if c.closed == nil {
						if traceLoops {
							fmt.Fprintf(os.Stderr, "HAVOC %s: %s\n", c.name, str(c.upd))
						}
						c.closed = havoc(c, k)
						progress = true
					}
				}
			}
		}
		if !progress && !tmplChanged {
			break
		}
	}

	outs := in.loopExits(fr, l, st0, exits, bst, k)
	if traceLoops {
		fmt.Fprintf(os.Stderr, "LOOP %s in %s: %d exits\n", key, fr.fn, len(outs))
		for _, c := range phiItems {
			fmt.Fprintf(os.Stderr, "   %s inv=%v\n", c.name, c.inv)
			c.each(func(x *carry) { fmt.Fprintf(os.Stderr, "   %s = %s\n", x.name, str(x.closed)) })
		}
		for _, it := range hItems {
			it.c.each(func(x *carry) { fmt.Fprintf(os.Stderr, "   heap %s = %s\n", x.name, str(x.closed)) })
		}
		for _, e := range outs {
			fmt.Fprintf(os.Stderr, "   exit guard %s\n", str(e.st.g))
		}
	}
	return outs
}

func havoc(c *carry, k *Term) *Term {
	nm := "havoc:" + c.name
	if si, ok := seqInfos[c.sym.name]; ok {
		seqInfos[nm] = si
	}
	if b, ok := fnBounds[c.sym.name]; ok {
		fnBounds[nm] = b
	}
	args := append(append([]*Term(nil), c.sym.args...), k)
	if c.sym.isAtom() {
		return fnBool(nm, args...)
	}
	return fn(nm, args...)
}

// carryWrite turns a write by the iteration into an update of a carried item.
func (in *interp) carryWrite(lc *loopCtx, b int, w wr, st0 *state, start *heap, bst *state, item func([]*Term) *carry, expanded *bool) {
	for _, i := range w.idx {
		if contains(i, lc.k) {
			panic(undecided(fmt.Sprintf("a loop writes to %s at an index that varies", bases[b].name)))
		}
	}
	sc := start.cells[b]
	if sc != nil {
		for _, x := range sc.ws {
			if sameTerms(x.idx, w.idx) && x.val == w.val && x.g == w.g {
				return
			}
		}
	}
	c := item(w.idx)
	p := mk(&Term{op: OPtr, k: b, args: w.idx})
	back := simp(bst.h.content(p), bst.g)
	if c.update(lc, back, bst.h) {
		*expanded = true
	}
}

// templateOf describes the objects that the iterations create.
func templateOf(h *heap, b int, k, t *Term) *cell {
	c := h.cells[b]
	bs := bases[b]
	if c.tmpl != nil && len(c.ws) == 0 {
		n := &cell{tmpl: subst(c.tmpl, k, t)}
		for _, s := range c.tsyms {
			n.tsyms = append(n.tsyms, subst(s, k, t))
		}
		return n
	}
	idx := make([]*Term, bs.nidx)
	for j := range idx {
		for _, w := range c.ws {
			if idx[j] == nil {
				idx[j] = w.idx[j]
			} else if idx[j] != w.idx[j] {
				nm := fmt.Sprintf("tt:%d.%d", b, j)
				fnBounds[nm] = fnBoundsNat
				idx[j] = fn(nm)
				break
			}
		}
	}
	v := h.content(mk(&Term{op: OPtr, k: b, args: idx}))
	n := &cell{tmpl: subst(v, k, t)}
	for _, s := range idx {
		n.tsyms = append(n.tsyms, subst(s, k, t))
	}
	return n
}

// counted finds in a continue condition the literal that bounds k, and gives
// the number of iterations it allows.
func counted(c, k *Term) (n *Term, lit *Term) {
	c = asBoolT(c)
	lits := forced(c)
	atoms := make([]*Term, 0, len(lits))
	for a := range lits {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	// rest splits a linear condition into the counter's part and the other one
	rest := func(a *Term) (*Term, int, bool) {
		if a.op != OLe {
			return nil, 0, false
		}
		l := toLin(a.args[0])
		co, ok := l.m[k]
		if !ok || co.CmpAbs(bigOne) != 0 {
			return nil, 0, false
		}
		rt := fromLin(linAdd(l, lin{c: new(big.Int), m: map[*Term]*big.Int{k: co}}, bigMinus))
		return rt, co.Sign(), !contains(rt, k)
	}
	for _, a := range atoms {
		rt, sign, ok := rest(a)
		if !ok {
			continue
		}
		var m, ml *Term
		switch lt := asBDD(a); {
		case lits[a] && sign > 0:
			// rest + k <= 0 continues: k <= -rest
			m, ml = addi(sub(tZero, rt), 1), lt
		case !lits[a] && sign < 0:
			// not (rest - k <= 0) continues: k <= rest - 1
			m, ml = rt, not(lt)
		default:
			continue
		}
		if n == nil || decide(le(m, n)) == 1 {
			n, lit = m, ml
		}
	}
	if n != nil {
		return
	}
	// continues until a value is met that the counter starts at or before; up
	// to there nothing may wrap around
	plain := c
	var wraps, bare []*Term
	for _, a := range atomsOf(c) {
		if a.op != OLe || !contains(a, k) {
			continue
		}
		for x := range toLin(a.args[0]).m {
			if x.op == OFn && strings.HasPrefix(x.name, "wrap:") && contains(x, k) {
				wraps, bare = append(wraps, x), append(bare, x.args[0])
			}
		}
	}
	if wraps != nil {
		plain = asBoolT(substMany(c, wraps, bare))
	}
	for _, a := range atomsOf(plain) {
		rt, sign, ok := rest(a)
		if !ok {
			continue
		}
		m := sub(tZero, rt)
		if sign < 0 {
			m = rt
		}
		if and(plain, tEq(k, m)) != tFalse || decide(le(tZero, m)) != 1 || n != nil && decide(le(m, n)) != 1 {
			continue
		}
		fits := true
		for _, w := range wraps {
			lo, hi := intRange(w.name[5:])
			v := w.args[0]
			underRange(k, addi(m, 1), func() *Term {
				fits = fits && decide(le(tBig(lo), v)) == 1 && decide(le(v, tBig(hi))) == 1
				return nil
			})
		}
		if fits {
			n, lit = m, lt(k, m)
		}
	}
	return
}

// countedBy is counted for every case of the conditions that do not change.
func countedBy(c, k *Term, depth int) (n, lit *Term) {
	c = asBoolT(c)
	if n, lit = counted(c, k); n != nil || depth == 0 || c.op != OIte {
		return
	}
	var a *Term
	for _, x := range atomsOf(c) {
		if !contains(x, k) && (a == nil || x.id < a.id) {
			a = x
		}
	}
	if a == nil {
		return nil, nil
	}
	ab := asBDD(a)
	var n1, l1, n2, l2 *Term
	ch, cl := simp(c, ab), simp(c, not(ab))
	if ch == tFalse {
		n1, l1 = tZero, tFalse
	} else {
		withAmb(a, true, func() { n1, l1 = countedBy(ch, k, depth-1) })
	}
	if n1 == nil {
		return nil, nil
	}
	if cl == tFalse {
		n2, l2 = tZero, tFalse
	} else {
		withAmb(a, false, func() { n2, l2 = countedBy(cl, k, depth-1) })
	}
	if n2 == nil {
		return nil, nil
	}
	return ite(ab, n1, n2), ite(ab, l1, l2)
}

func (in *interp) loopExits(fr *frame, l *loop, st0 *state, exits []edge, bst *state, k *Term) []edge {
	G := and(st0.g, le(tZero, k))
	// what the body may assume about the iteration
	if bst == nil {
		var outs []edge
		for _, e := range exits {
			outs = append(outs, in.instState(e, st0, k, tZero, e.st.g))
		}
		in.substLoop(fr, k, tZero, 0)
		return outs
	}
	cont := simp(bst.g, G)
	amb = st0.g
	n, lit := countedBy(cont, k, 8)
	var B *Term // leaves for another reason
	if n == nil {
		if cont == tTrue && len(exits) == 0 {
			return nil
		}
		in.vague = true
		nm := "trips:" + k.name
		fnBounds[nm] = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 48)}
		n = fn(nm, k.args...)
		K := n
		var outs []edge
		for _, e := range exits {
			outs = append(outs, in.instState(e, st0, k, K, nil))
		}
		return outs
	}
	amb = st0.g
	n = simp(n, st0.g)
	c0 := le(tZero, n)
	if decide(c0) != 1 {
		n = ite(c0, n, tZero)
		n = simp(n, st0.g)
	}
	in0 := and(G, lit)
	B = simp(not(cont), in0)
	var outs []edge
	if B == tFalse {
		for _, e := range exits {
			outs = append(outs, in.instState(e, st0, k, n, nil))
		}
		return outs
	}
	s := freshInt("g")
	amb = and(st0.g, and(le(tZero, s), lt(s, n)))
	Bs := simp(subst(B, k, s), amb)
	amb = st0.g
	ex := tExists(n, Bs, s)
	first := tFirst(n, Bs, s)
	inB := and(in0, B)
	for _, e := range exits {
		rel := simp(e.st.g, inB)
		if rel != tFalse {
			g := and(st0.g, ex)
			if rel != tTrue {
				amb = g
				g = and(g, simp(subst(rel, k, first), g))
			}
			if g != tFalse {
				outs = append(outs, in.instState(e, st0, k, first, g))
			}
		}
		// the way out when the count is reached
		amb = and(st0.g, not(ex))
		ge := subst(e.st.g, k, n)
		g := and(amb, simp(ge, amb))
		if g != tFalse {
			outs = append(outs, in.instState(e, st0, k, n, g))
		}
	}
	amb = st0.g
	return outs
}

func (in *interp) substLoop(fr *frame, k, v *Term, from int) {}

// instState is the state of an exit edge at iteration K.
func (in *interp) instState(e edge, st0 *state, k, K, g *Term) edge {
	old := amb
	defer func() { amb = old }()
	if g == nil {
		amb = st0.g
		g = and(st0.g, simp(subst(e.st.g, k, K), st0.g))
	}
	amb = g
	memo := map[*Term]*Term{}
	sb := func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := subst(t, k, K)
		memo[t] = r
		return r
	}
	st := &state{g: g, env: map[ssa.Value]*Term{}, h: &heap{cells: map[int]*cell{}}}
	for v, t := range e.st.env {
		if st0.env[v] == t {
			st.env[v] = t
		} else {
			st.env[v] = sb(t)
		}
	}
	for b, c := range e.st.h.cells {
		if st0.h.cells[b] == c {
			st.h.cells[b] = c
			continue
		}
		n := &cell{tsyms: c.tsyms}
		if c.tmpl != nil {
			n.tmpl = sb(c.tmpl)
			n.tsyms = nil
			for _, s := range c.tsyms {
				n.tsyms = append(n.tsyms, sb(s))
			}
		}
		for _, w := range c.ws {
			x := wr{g: sb(w.g), val: sb(w.val)}
			for _, i := range w.idx {
				x.idx = append(x.idx, sb(i))
			}
			n.ws = append(n.ws, x)
		}
		st.h.cells[b] = n
	}
	return edge{e.from, e.idx, e.to, st}
}

var _ = token.NoPos
