package main

// Flow-sensitive, interprocedural abstract interpretation of the SSA program.
// States are joined where control flow joins; a join keeps, for every value
// that differs, the gate that selects it (gated SSA). Calls into the module
// are analysed in context; everything else goes through models.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type state struct {
	g   *Term
	env map[ssa.Value]*Term
	h   *heap
}

func (s *state) fork(g *Term) *state {
	e := make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		e[k] = v
	}
	return &state{g: g, env: e, h: s.h.clone()}
}

type event struct {
	seq   int
	g     *Term
	name  string
	args  []*Term
	res   *Term
	h     *heap // heap when it happened
	pos   token.Pos
	where string
	iter  []*Term
}

type obligation struct {
	kind  string
	g     *Term // where it could fail
	pos   token.Pos
	where string
}

type frame struct {
	fn     *ssa.Function
	key    string
	caller *frame
	binds  []*Term
	rets   []retState
	defers []deferred
	unroll string
	ids    map[ssa.Instruction]int
}

type retState struct {
	g   *Term
	h   *heap
	val *Term
}

type deferred struct {
	g    *Term
	call *ssa.Defer
	fnv  *Term
	args []*Term
}

type interp struct {
	prog     *ssa.Program
	p        *program
	isMod    func(*ssa.Package) bool
	failures bool // calls that fail are events
	vague    bool // the last loop has no known number of rounds
	opaque   map[*ssa.Function]string
	hooks    map[string]modelFn

	events  []event
	obls    []obligation
	iter    []*Term
	stack   []*frame
	depth   int
	runs    int
	steps   int
	stats   struct{ calls, funcs, loops, unrolled, joins int }
	seen    map[*ssa.Function]bool
	ids     map[*ssa.Function]map[ssa.Instruction]int
	loops   map[*ssa.Function]*loopInfo
	globals *heap
	unmod   map[string]int
	secrets []string
}

var stepLimit = 3000000
var traceCalls, _ = strconv.Atoi(os.Getenv("VERIF_TRACE_CALLS"))

func dagSize(t *Term) int {
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if !seen[t] {
			seen[t] = true
			for _, a := range t.args {
				f(a)
			}
		}
	}
	f(t)
	return len(seen)
}

func (in *interp) frame() *frame {
	if len(in.stack) == 0 {
		return nil
	}
	return in.stack[len(in.stack)-1]
}

func (in *interp) where() string {
	var p []string
	for _, f := range in.stack {
		p = append(p, f.fn.Name())
	}
	return strings.Join(p, ">")
}

func (in *interp) instrIDs(fn *ssa.Function) map[ssa.Instruction]int {
	if m, ok := in.ids[fn]; ok {
		return m
	}
	m := map[ssa.Instruction]int{}
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			m[i] = n
			n++
		}
	}
	in.ids[fn] = m
	return m
}

func (in *interp) key(i ssa.Instruction) string {
	f := in.frame()
	return fmt.Sprintf("%s%s:%d", f.key, f.unroll, f.ids[i])
}

func (in *interp) emit(st *state, name string, pos token.Pos, res *Term, args ...*Term) {
	in.events = append(in.events, event{seq: len(in.events), g: st.g, name: name, args: args, res: res, h: st.h.clone(), pos: pos, where: in.where(), iter: append([]*Term(nil), in.iter...)})
}

// require records that cond must hold here, and continues as if it does.
func (in *interp) require(st *state, cond *Term, kind string, pos token.Pos) {
	c := simp(asBoolT(cond), st.g)
	if c == tTrue {
		return
	}
	in.obls = append(in.obls, obligation{kind: kind, g: and(st.g, not(c)), pos: pos, where: in.where()})
	st.g = and(st.g, c)
}

// ---------- calling ----------

// callFn analyses a function in the given state.
func (in *interp) callFn(st *state, fn *ssa.Function, args, binds []*Term, key string) *Term {
	for _, f := range in.stack {
		if f.fn == fn && len(in.stack) > 40 {
			panic(undecided("recursion through " + fn.String()))
		}
	}
	if len(in.stack) > 80 {
		panic(undecided("call depth in " + fn.String()))
	}
	in.stats.calls++
	in.seen[fn] = true
	fr := &frame{fn: fn, key: key, caller: in.frame(), binds: binds, ids: in.instrIDs(fn)}
	in.stack = append(in.stack, fr)
	if traceCalls > 0 {
		n0 := len(allTerms)
		defer func() {
			if d := len(allTerms) - n0; d > traceCalls {
				fmt.Fprintf(os.Stderr, "%*s%s +%d terms guard %d\n", 2*len(in.stack), "", relName(fn), d, dagSize(st.g))
			}
		}()
	}
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	oldAmb := amb
	defer func() { amb = oldAmb }()
	s := &state{g: st.g, env: map[ssa.Value]*Term{}, h: st.h.clone()}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		s.env[fv] = binds[i]
	}
	in.region(fr, nil, fn.Blocks[0], []edge{{st: s}})
	// join the returns
	if len(fr.rets) == 0 {
		st.g = tFalse
		return zeroOf(fn.Signature.Results())
	}
	r := fr.rets[0]
	for _, q := range fr.rets[1:] {
		g := or(r.g, q.g)
		c := simp(r.g, g)
		if c == tTrue {
			r.g = g
			continue
		}
		if c == tFalse {
			r = retState{g, q.h, q.val}
			continue
		}
		in.stats.joins++
		r = retState{g: g, h: mergeHeap(c, r.h, q.h), val: ite(c, r.val, q.val)}
	}
	if fn.Recover != nil && len(fr.defers) > 0 {
		// deferred recovery is not modelled
		for _, d := range fr.defers {
			if c, ok := d.call.Call.Value.(*ssa.Function); ok && callsRecover(c) {
				panic(undecided("recover in " + fn.String()))
			}
			if mc, ok := d.call.Call.Value.(*ssa.MakeClosure); ok && callsRecover(mc.Fn.(*ssa.Function)) {
				panic(undecided("recover in " + fn.String()))
			}
		}
	}
	st.g, st.h = r.g, r.h
	return r.val
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// ---------- regions of the control-flow graph ----------

type edge struct {
	from *ssa.BasicBlock
	idx  int // position among to's predecessors
	to   *ssa.BasicBlock
	st   *state
}

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	heads map[*ssa.BasicBlock]*loop
}

func (in *interp) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	li := &loopInfo{pos: map[*ssa.BasicBlock]int{}, heads: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.pos[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				// natural loop of the back edge
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if seen[p] && !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			} else if li.pos[s] <= li.pos[b] {
				panic(undecided("irreducible control flow in " + fn.String()))
			}
		}
	}
	in.loops[fn] = li
	return li
}

// region analyses the blocks of a loop body (l != nil) or of a function, from
// its entry, and returns the edges that leave it and those back to its header.
func (in *interp) region(fr *frame, l *loop, entry *ssa.BasicBlock, ins []edge) (exits, backs []edge) {
	li := in.loopsOf(fr.fn)
	pend := map[*ssa.BasicBlock][]edge{entry: ins}
	out := func(e edge) {
		if e.st.g == tFalse {
			return
		}
		if l != nil && e.to == l.header {
			backs = append(backs, e)
		} else if l != nil && !l.body[e.to] {
			exits = append(exits, e)
		} else {
			pend[e.to] = append(pend[e.to], e)
		}
	}
	for _, b := range li.rpo[li.pos[entry]:] {
		es := pend[b]
		if len(es) == 0 || l != nil && !l.body[b] {
			continue
		}
		delete(pend, b)
		if il := li.heads[b]; il != nil && (l == nil || b != l.header) {
			for _, e := range in.loop(fr, il, es) {
				out(e)
			}
			continue
		}
		var st *state
		if l != nil && b == entry && len(es) == 1 && es[0].from == nil {
			st = es[0].st // the header's values are already set
		} else {
			st = in.join(fr, b, es)
		}
		in.block(fr, b, st, out)
	}
	return
}

// join merges the incoming states of a block and sets its phis.
func (in *interp) join(fr *frame, b *ssa.BasicBlock, es []edge) *state {
	var acc *state
	for _, e := range es {
		st := e.st
		if e.from != nil {
			var vals []*Term
			var phis []*ssa.Phi
			old := amb
			amb = st.g
			for _, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, p)
				vals = append(vals, in.val(st, p.Edges[e.idx]))
			}
			amb = old
			for i, p := range phis {
				st.env[p] = vals[i]
			}
		}
		if acc == nil {
			acc = st
			continue
		}
		acc = in.merge2(acc, st)
	}
	return acc
}

func (in *interp) merge2(a, b *state) *state {
	g := or(a.g, b.g)
	c := simp(a.g, g)
	if c == tTrue {
		a.g = g
		return a
	}
	if c == tFalse {
		b.g = g
		return b
	}
	in.stats.joins++
	n := &state{g: g, env: make(map[ssa.Value]*Term, len(a.env)), h: mergeHeap(c, a.h, b.h)}
	for k, x := range a.env {
		y, ok := b.env[k]
		if !ok {
			continue
		}
		if x == y {
			n.env[k] = x
		} else {
			n.env[k] = ite(c, x, y)
		}
	}
	return n
}

func (in *interp) block(fr *frame, b *ssa.BasicBlock, st *state, out func(edge)) {
	old := amb
	defer func() { amb = old }()
	for _, i := range b.Instrs {
		in.steps++
		if in.steps > stepLimit {
			panic(undecided("step limit"))
		}
		if st.g == tFalse {
			return
		}
		amb = st.g
		switch x := i.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := simp(asBoolT(in.val(st, x.Cond)), st.g)
			if c != tFalse {
				out(edge{b, predIdx(b, 0), b.Succs[0], st.fork(and(st.g, c))})
			}
			if c != tTrue {
				out(edge{b, predIdx(b, 1), b.Succs[1], st.fork(and(st.g, not(c)))})
			}
			return
		case *ssa.Jump:
			out(edge{b, predIdx(b, 0), b.Succs[0], st})
			return
		case *ssa.Return:
			var vs []*Term
			for _, r := range x.Results {
				vs = append(vs, simp(in.val(st, r), st.g))
			}
			v := mk(&Term{op: OTuple, args: vs})
			if len(vs) == 1 {
				v = vs[0]
			}
			if st.g != tFalse {
				fr.rets = append(fr.rets, retState{st.g, st.h, v})
			}
			return
		case *ssa.Panic:
			in.require(st, tFalse, "explicit panic", x.Pos())
			return
		default:
			in.instr(fr, st, i)
		}
	}
}

// predIdx is the position of b's j-th outgoing edge among the target's
// predecessors.
func predIdx(b *ssa.BasicBlock, j int) int {
	to := b.Succs[j]
	skip := 0
	for i := 0; i < j; i++ {
		if b.Succs[i] == to {
			skip++
		}
	}
	for i, p := range to.Preds {
		if p == b {
			if skip == 0 {
				return i
			}
			skip--
		}
	}
	return 0
}

// ---------- values ----------

func (in *interp) val(st *state, v ssa.Value) *Term {
	if t, ok := st.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return ptr(in.globalBase(x))
	case *ssa.Function:
		return mk(&Term{op: OFunc, fn: x})
	case *ssa.Builtin:
		return fn("builtin:" + x.Name())
	}
	panic(undecided(fmt.Sprintf("value %s of %s", v.Name(), v.Parent())))
}

func (in *interp) globalBase(g *ssa.Global) *base {
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	if in.isMod(g.Pkg) {
		return newBase("global:"+g.String(), base{typ: elem})
	}
	return newBase("global:"+g.String(), base{typ: elem, input: true, path: g.String()})
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tBytes(constant.StringVal(c.Value))
	case constant.Int:
		i, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return tBig(i)
	}
	return fn("const:" + c.Value.ExactString())
}

func kindOf(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "byte"
		case types.Int32:
			return "int32"
		}
		return b.Name()
	}
	return "int"
}

func isUnsignedOrByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (in *interp) nonNil(st *state, p *Term, what string, pos token.Pos) *Term {
	if p.op == OFAddr || p.op == OIAddr {
		return p
	}
	c := isNil(p)
	if c != tFalse {
		in.require(st, not(c), "nil "+what, pos)
		amb = st.g
		p = simp(p, st.g)
	}
	return p
}

func (in *interp) newObj(st *state, key string, typ types.Type, content *Term) *Term {
	b := newBase("alloc:"+key, base{name: "new" + shortKey(key), typ: typ, nidx: len(in.iter), alloc: true, loops: in.loopNames()})
	p := ptr(b, in.iter...)
	st.h.set(p, content, tTrue)
	return p
}

func (in *interp) loopNames() []string {
	var r []string
	for _, k := range in.iter {
		r = append(r, k.name)
	}
	return r
}

// madeIn tells whether the iterations of a loop make a base's objects.
func (b *base) madeIn(k *Term, outer int) bool {
	return b.alloc && len(b.loops) > outer && b.loops[outer] == k.name
}

func shortKey(k string) string {
	if len(k) > 24 {
		return k[len(k)-24:]
	}
	return k
}

// newSlice makes a slice with fresh backing holding a sequence.
func (in *interp) newSlice(st *state, key string, elem types.Type, seq, cp *Term) *Term {
	b := newBase("alloc:"+key, base{name: "new" + shortKey(key), elem: elem, nidx: len(in.iter), alloc: true, loops: in.loopNames()})
	p := ptr(b, in.iter...)
	ln := tLen(seq)
	if cp == nil {
		cp = ln
	}
	if cp != ln {
		seq = tCat(seq, zeroSeq(elem, sub(cp, ln)))
	}
	st.h.set(p, seq, tTrue)
	return slc(p, tZero, ln, cp)
}

func (in *interp) instr(fr *frame, st *state, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		st.env[x] = in.newObj(st, in.key(i), t, zeroOf(t))
	case *ssa.BinOp:
		st.env[x] = in.binop(st, x)
	case *ssa.UnOp:
		v := in.val(st, x.X)
		switch x.Op {
		case token.MUL:
			v = in.nonNil(st, v, "dereference", x.Pos())
			if st.g == tFalse {
				return
			}
			st.env[x] = load(st.h, v)
		case token.NOT:
			st.env[x] = not(asBoolT(v))
		case token.SUB:
			st.env[x] = wrap(kindOf(x.Type()), sub(tZero, v))
		case token.XOR:
			if lo, hi := intRange(kindOf(x.Type())); lo.Sign() == 0 {
				st.env[x] = sub(tBig(hi), v)
			} else {
				st.env[x] = sub(tInt(-1), v)
			}
		default:
			panic(undecided("operation " + x.Op.String()))
		}
	case *ssa.Store:
		p := in.nonNil(st, in.val(st, x.Addr), "dereference", x.Pos())
		if st.g == tFalse {
			return
		}
		in.noteWrite(st, p, x.Pos())
		store(st.h, p, simp(in.val(st, x.Val), st.g))
	case *ssa.FieldAddr:
		p := in.nonNil(st, in.val(st, x.X), "dereference", x.Pos())
		if st.g == tFalse {
			return
		}
		st.env[x] = lift(func(a []*Term) *Term {
			return mk(&Term{op: OFAddr, k: x.Field, args: []*Term{a[0]}})
		}, p)
	case *ssa.Field:
		st.env[x] = field(in.val(st, x.X), x.Field)
	case *ssa.IndexAddr:
		in.indexAddr(st, x)
	case *ssa.Index:
		v, idx := in.val(st, x.X), in.val(st, x.Index)
		in.require(st, and(le(tZero, idx), lt(idx, tLen(v))), "index out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		st.env[x] = tAt(v, idx)
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m, k := in.val(st, x.X), in.val(st, x.Index)
			has, v := mapLookup(st.h, m, k, mt)
			if x.CommaOk {
				st.env[x] = mk(&Term{op: OTuple, args: []*Term{v, has}})
			} else {
				st.env[x] = v
			}
			return
		}
		v, idx := in.val(st, x.X), in.val(st, x.Index)
		in.require(st, and(le(tZero, idx), lt(idx, tLen(v))), "index out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		st.env[x] = tAt(v, idx)
	case *ssa.Slice:
		in.sliceOp(st, x)
	case *ssa.MakeMap:
		st.env[x] = in.newObj(st, in.key(i), x.Type(), mk(&Term{op: OFn, name: "map:empty"}))
	case *ssa.MapUpdate:
		p := in.nonNil(st, in.val(st, x.Map), "assignment to a nil map", x.Pos())
		if st.g == tFalse {
			return
		}
		in.noteWrite(st, p, x.Pos())
		k, v := in.val(st, x.Key), simp(in.val(st, x.Value), st.g)
		store(st.h, p, mk(&Term{op: OFn, name: "map:put", args: []*Term{load(st.h, p), k, v}}))
	case *ssa.MakeSlice:
		ln, cp := in.val(st, x.Len), in.val(st, x.Cap)
		in.require(st, and(le(tZero, ln), le(ln, cp)), "makeslice: len out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		el := x.Type().Underlying().(*types.Slice).Elem()
		st.env[x] = in.newSlice(st, in.key(i), el, zeroSeq(el, simp(ln, st.g)), simp(cp, st.g))
	case *ssa.Convert:
		st.env[x] = in.convert(st, in.val(st, x.X), x.X.Type(), x.Type(), in.key(i))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		st.env[x.(ssa.Value)] = in.val(st, *x.Operands(nil)[0])
	case *ssa.MakeInterface:
		v := in.val(st, x.X)
		st.env[x] = mk(&Term{op: OIface, typ: x.X.Type(), args: []*Term{v}})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(st, b))
		}
		st.env[x] = mk(&Term{op: OFunc, fn: x.Fn.(*ssa.Function), args: bs})
	case *ssa.Extract:
		st.env[x] = field(in.val(st, x.Tuple), x.Index)
	case *ssa.TypeAssert:
		in.typeAssert(st, x)
	case *ssa.Call:
		r := in.doCall(st, &x.Call, i)
		if st.g == tFalse {
			return
		}
		st.env[x] = r
	case *ssa.Go:
		in.emit(st, "go", x.Pos(), nil)
		in.doCall(st, &x.Call, i)
	case *ssa.Defer:
		fnv, args := in.callParts(st, &x.Call)
		fr.defers = append(fr.defers, deferred{st.g, x, fnv, args})
	case *ssa.RunDefers:
		for j := len(fr.defers) - 1; j >= 0; j-- {
			d := fr.defers[j]
			g := and(st.g, d.g)
			if g == tFalse {
				continue
			}
			if simp(d.g, st.g) == tTrue {
				in.dispatch(st, &d.call.Call, d.fnv, d.args, d.call, "d")
				continue
			}
			a := st.fork(g)
			rest := and(st.g, not(d.g))
			in.dispatch(a, &d.call.Call, d.fnv, d.args, d.call, "d")
			b := st.fork(rest)
			m := in.merge2(a, b)
			st.g, st.h = m.g, m.h
		}
	case *ssa.SliceToArrayPointer:
		s := in.val(st, x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		in.require(st, le(tInt(n), sliceLen(s)), "slice to array conversion", x.Pos())
		c := tSub(sliceSeq(st.h, s), tZero, tInt(n))
		st.env[x] = in.newObj(st, in.key(i), x.Type().Underlying().(*types.Pointer).Elem(), c)
	default:
		panic(undecided(fmt.Sprintf("%T in %s", i, i.Parent())))
	}
}

// noteWrite reports stores into objects the analysed code was given.
func (in *interp) noteWrite(st *state, p *Term, pos token.Pos) {
	leaves(p, st.g, func(q, g *Term) {
		r, _ := rootOf(q)
		leaves(r, g, func(r, g *Term) {
			if r.op == OPtr && bases[r.k].input {
				s2 := *st
				s2.g = g
				in.emit(&s2, "write:"+bases[r.k].name, pos, nil, q)
			}
			if r.op == OPtr && strings.HasPrefix(bases[r.k].name, "global:") {
				s2 := *st
				s2.g = g
				in.emit(&s2, "gwrite:"+bases[r.k].name, pos, nil, q)
			}
		})
	})
}

func (in *interp) indexAddr(st *state, x *ssa.IndexAddr) {
	v, idx := in.val(st, x.X), in.val(st, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
		in.require(st, and(le(tZero, idx), lt(idx, sliceLen(v))), "index out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		v, idx = simp(v, st.g), simp(idx, st.g)
		st.env[x] = lift(func(a []*Term) *Term {
			if a[0].op != OSlc {
				return tNil
			}
			return mk(&Term{op: OIAddr, args: []*Term{a[0].args[0], add(a[0].args[1], a[1])}})
		}, v, idx)
		return
	}
	n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	v = in.nonNil(st, v, "dereference", x.Pos())
	in.require(st, and(le(tZero, idx), lt(idx, tInt(n))), "index out of range", x.Pos())
	if st.g == tFalse {
		return
	}
	amb = st.g
	st.env[x] = lift(func(a []*Term) *Term {
		return mk(&Term{op: OIAddr, args: []*Term{a[0], a[1]}})
	}, v, idx)
}

func (in *interp) sliceOp(st *state, x *ssa.Slice) {
	v := in.val(st, x.X)
	get := func(o ssa.Value, d *Term) *Term {
		if o == nil {
			return d
		}
		return in.val(st, o)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		lo := get(x.Low, tZero)
		hi := get(x.High, tLen(v))
		in.require(st, and(and(le(tZero, lo), le(lo, hi)), le(hi, tLen(v))), "slice bounds out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		st.env[x] = tSub(v, lo, sub(hi, lo))
	case *types.Slice:
		cp := sliceCap(v)
		lo := get(x.Low, tZero)
		hi := get(x.High, sliceLen(v))
		mx := get(x.Max, cp)
		c := and(and(le(tZero, lo), le(lo, hi)), le(hi, mx))
		if x.Max != nil {
			c = and(c, le(mx, cp))
		} else if x.High == nil {
			c = and(le(tZero, lo), le(lo, hi))
		} else if decide(le(hi, sliceLen(v))) == 1 {
			c = and(le(tZero, lo), le(lo, hi))
		} else if hasFn(cp, "spare") {
			// beyond the length is beyond what the code may rely on
			c = and(and(le(tZero, lo), le(lo, hi)), le(hi, sliceLen(v)))
		}
		in.require(st, c, "slice bounds out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		v, lo, hi, mx = simp(v, st.g), simp(lo, st.g), simp(hi, st.g), simp(mx, st.g)
		st.env[x] = lift(func(a []*Term) *Term {
			if a[0].op == ONil {
				return a[0]
			}
			return slc(a[0].args[0], add(a[0].args[1], a[1]), sub(a[2], a[1]), sub(a[3], a[1]))
		}, v, lo, hi, mx)
	case *types.Pointer:
		n := tInt(u.Elem().Underlying().(*types.Array).Len())
		v = in.nonNil(st, v, "dereference", x.Pos())
		lo := get(x.Low, tZero)
		hi := get(x.High, n)
		mx := get(x.Max, n)
		in.require(st, and(and(le(tZero, lo), le(lo, hi)), and(le(hi, mx), le(mx, n))), "slice bounds out of range", x.Pos())
		if st.g == tFalse {
			return
		}
		amb = st.g
		st.env[x] = lift(func(a []*Term) *Term {
			return slc(a[0], a[1], sub(a[2], a[1]), sub(a[3], a[1]))
		}, v, lo, hi, mx)
	default:
		panic(undecided("slice of " + x.X.Type().String()))
	}
}

func hasFn(t *Term, name string) bool {
	if t.op == OFn && t.name == name {
		return true
	}
	for _, a := range t.args {
		if hasFn(a, name) {
			return true
		}
	}
	return false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (in *interp) convert(st *state, v *Term, from, to types.Type, key string) *Term {
	switch {
	case isInteger(from) && isInteger(to):
		return wrap(kindOf(to), v)
	case isByteSlice(from) && isString(to):
		return sliceSeq(st.h, v)
	case isString(from) && isByteSlice(to):
		return in.newSlice(st, key, types.Typ[types.Byte], v, nil)
	case isString(from) && isString(to):
		return v
	}
	return fnL("conv:"+to.String(), v)
}

func (in *interp) typeAssert(st *state, x *ssa.TypeAssert) {
	v := in.val(st, x.X)
	at := x.AssertedType
	okT := lift(func(a []*Term) *Term {
		switch a[0].op {
		case ONil:
			return tFalse
		case OIface:
			nn := not(isNil(a[0]))
			if it, ok := at.Underlying().(*types.Interface); ok {
				return and(nn, tBool(types.Implements(a[0].typ, it)))
			}
			return and(nn, tBool(types.Identical(a[0].typ, at)))
		}
		return fnBool("is:"+at.String(), a[0])
	}, v)
	val := lift(func(a []*Term) *Term {
		switch a[0].op {
		case OIface:
			if _, ok := at.Underlying().(*types.Interface); ok {
				return a[0]
			}
			if types.Identical(a[0].typ, at) {
				return a[0].args[0]
			}
			return zeroOf(at)
		case ONil:
			return zeroOf(at)
		}
		return inputValue("as:"+str(a[0]), at, nil, false, false)
	}, v)
	if x.CommaOk {
		st.env[x] = mk(&Term{op: OTuple, args: []*Term{ite(okT, val, zeroOf(at)), okT}})
		return
	}
	in.require(st, okT, "type assertion", x.Pos())
	if st.g == tFalse {
		return
	}
	st.env[x] = simp(val, st.g)
}

func (in *interp) binop(st *state, x *ssa.BinOp) *Term {
	a, b := in.val(st, x.X), in.val(st, x.Y)
	t := x.X.Type()
	kind := kindOf(x.Type())
	switch x.Op {
	case token.EQL:
		return in.eqVals(st, a, b, t)
	case token.NEQ:
		return not(in.eqVals(st, a, b, t))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(t) {
			c := cmpSeq(a, b)
			switch x.Op {
			case token.LSS:
				return lt(c, tZero)
			case token.LEQ:
				return le(c, tZero)
			case token.GTR:
				return lt(tZero, c)
			}
			return le(tZero, c)
		}
		switch x.Op {
		case token.LSS:
			return lt(a, b)
		case token.LEQ:
			return le(a, b)
		case token.GTR:
			return lt(b, a)
		}
		return le(b, a)
	case token.ADD:
		if isString(t) {
			return tCat(a, b)
		}
		return wrap(kind, add(a, b))
	case token.SUB:
		return wrap(kind, sub(a, b))
	case token.MUL:
		if b.op == OInt {
			return wrap(kind, mulc(a, b.n))
		}
		if a.op == OInt {
			return wrap(kind, mulc(b, a.n))
		}
		return wrap(kind, fnL("int:mul", a, b))
	case token.QUO, token.REM:
		in.require(st, not(eqInt(b, tZero)), "division by zero", x.Pos())
		if b.op == OInt && b.n.Sign() > 0 && b.n.IsInt64() {
			if x.Op == token.QUO {
				return divc(a, b.i64())
			}
			return modc(a, b.i64())
		}
		return fnL("int:"+x.Op.String(), a, b)
	case token.SHL:
		if b.op == OInt && b.n.IsInt64() && b.i64() < 64 {
			return wrap(kind, mulc(a, new(big.Int).Lsh(bigOne, uint(b.i64()))))
		}
	case token.SHR:
		if b.op == OInt && b.n.IsInt64() && b.i64() < 63 && decide(le(tZero, a)) == 1 {
			return divc(a, int64(1)<<uint(b.i64()))
		}
	case token.AND, token.OR, token.AND_NOT, token.XOR:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			break
		}
		return bitOp(x.Op, kind, a, b)
	}
	n := "int:" + x.Op.String() + ":" + kind
	lo, hi := intRange(kind)
	fnBounds[n] = [2]*big.Int{lo, hi}
	return fnL(n, a, b)
}

// bitOp is a bitwise operation on integers of a kind.
func bitOp(op token.Token, kind string, a, b *Term) *Term {
	if a.op == OIte || b.op == OIte {
		return lift(func(x []*Term) *Term { return bitOp(op, kind, x[0], x[1]) }, a, b)
	}
	if a.op == OInt && b.op != OInt && op != token.AND_NOT {
		a, b = b, a
	}
	if b.op == OInt && b.n.IsInt64() && b.n.Sign() >= 0 {
		c := b.i64()
		if a.op == OInt && a.n.IsInt64() {
			y := a.i64()
			switch op {
			case token.AND:
				return tInt(y & c)
			case token.OR:
				return tInt(y | c)
			case token.XOR:
				return tInt(y ^ c)
			case token.AND_NOT:
				return tInt(y &^ c)
			}
		}
		if _, hi := bounds(a); hi != nil && hi.IsInt64() && hi.Sign() >= 0 && hi.BitLen() < 40 && decide(le(tZero, a)) == 1 {
			full := int64(1)<<uint(hi.BitLen()) - 1
			switch op {
			case token.AND:
				return mask(a, int(c&full), 0)
			case token.AND_NOT:
				return mask(a, int(full&^c), 0)
			case token.OR:
				return mask(a, int(full&^c), int(c))
			}
		}
	}
	if op == token.OR || op == token.XOR || op == token.AND {
		if op == token.OR && disjointBits(a, b) {
			return add(a, b)
		}
		if a.id > b.id {
			a, b = b, a
		}
		if op == token.OR && singleBit(a) {
			a, b = b, a
		}
		if op == token.OR && singleBit(b) {
			if _, hi := bounds(a); hi != nil && hi.IsInt64() && hi.BitLen() < 40 && decide(le(tZero, a)) == 1 {
				full := 1<<uint(hi.BitLen()) - 1
				return ite(asBoolT(le(b, tZero)), a, mask(a, full&^b.k, b.k))
			}
		}
		if a == b && op != token.XOR {
			return a
		}
		if a == b {
			return tZero
		}
	}
	n := "int:" + op.String() + ":" + kind
	lo, hi := intRange(kind)
	fnBounds[n] = [2]*big.Int{lo, hi}
	return fnL(n, a, b)
}

// singleBit: one bit of something, in place.
func singleBit(t *Term) bool {
	return t.op == OFn && t.name == "mask:" && t.k2 == 0 && t.k > 0 && t.k&(t.k-1) == 0
}

// disjointBits: one operand is a multiple of 2^k and the other is below 2^k.
func disjointBits(a, b *Term) bool {
	f := func(a, b *Term) bool {
		_, hi := bounds(b)
		if hi == nil || decide(le(tZero, b)) != 1 || decide(le(tZero, a)) != 1 {
			return false
		}
		m := new(big.Int).Lsh(bigOne, uint(hi.BitLen()))
		l := toLin(a)
		if new(big.Int).Mod(l.c, m).Sign() != 0 {
			return false
		}
		for _, c := range l.m {
			if new(big.Int).Mod(c, m).Sign() != 0 {
				return false
			}
		}
		return true
	}
	return f(a, b) || f(b, a)
}

// cmpSeq is the three-way comparison of two sequences.
func cmpSeq(a, b *Term) *Term {
	if a == b {
		return tZero
	}
	return lift(func(x []*Term) *Term {
		if x[0] == x[1] {
			return tZero
		}
		if x[0].op == OBytes && x[1].op == OBytes {
			return tInt(int64(strings.Compare(x[0].name, x[1].name)))
		}
		eq := tEq(x[0], x[1])
		fnBounds["int:sign"] = [2]*big.Int{big.NewInt(-1), big.NewInt(1)}
		u, v := x[0], x[1]
		neg := u.id > v.id
		if neg {
			u, v = v, u
		}
		less := fnBool("lexless", u, v)
		one, mone := tInt(1), tInt(-1)
		if neg {
			one, mone = mone, one
		}
		return ite(eq, tZero, ite(less, mone, one))
	}, a, b)
}

func (in *interp) eqVals(st *state, a, b *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Signature, *types.Map, *types.Chan:
		if a.op == ONil {
			return isNil(b)
		}
		return isNil(a)
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return tEq(a, b)
		}
	}
	return tEq(a, b)
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// mapLookup finds a key in a map: what was put there last under an equal key.
func mapLookup(h *heap, m, k *Term, t *types.Map) (has, val *Term) {
	zero := zeroOf(t.Elem())
	var get func(c *Term) (*Term, *Term)
	get = func(c *Term) (*Term, *Term) {
		switch {
		case c.op == OIte:
			h1, v1 := get(c.args[1])
			h2, v2 := get(c.args[2])
			return ite(c.args[0], h1, h2), ite(c.args[0], v1, v2)
		case c.op == OFn && c.name == "map:empty":
			return tFalse, zero
		case c.op == OFn && c.name == "map:put":
			same := tEq(c.args[1], k)
			if same == tTrue {
				return tTrue, c.args[2]
			}
			h0, v0 := get(c.args[0])
			return ite(same, tTrue, h0), ite(same, c.args[2], v0)
		}
		panic(undecided("map lookup"))
	}
	var look func(p *Term) (*Term, *Term)
	look = func(p *Term) (*Term, *Term) {
		switch p.op {
		case ONil:
			return tFalse, zero
		case OIte:
			h1, v1 := look(p.args[1])
			h2, v2 := look(p.args[2])
			return ite(p.args[0], h1, h2), ite(p.args[0], v1, v2)
		case OPtr:
			return get(load(h, p))
		}
		panic(undecided("map lookup"))
	}
	return look(m)
}
