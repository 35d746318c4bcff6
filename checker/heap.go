package main

// The abstract heap: objects named by allocation site and context (or by
// access path, for objects the analysed code is given), with contents that are
// terms. Objects created in a loop form a family indexed by the iteration.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// undecided is raised when the analysis cannot represent something.
type undecided string

type base struct {
	id                        int
	name                      string
	typ                       types.Type // what a pointer to it points to; nil for slice backing
	elem                      types.Type // slice backing: element type
	nidx                      int
	input, maybeNil, ifaceNil bool
	wild                      bool // came from a decoder: nothing is known to be set
	path                      string
	seqName                   string
	alloc                     bool
	loops                     []string // the loops whose iterations make its objects
}

var bases []*base
var baseByKey map[string]*base

func newBase(key string, b base) *base {
	if x, ok := baseByKey[key]; ok {
		return x
	}
	n := b
	n.id = len(bases)
	if n.name == "" {
		n.name = key
	}
	bases = append(bases, &n)
	baseByKey[key] = &n
	return &n
}

func (b *base) lenOf(p *Term) *Term {
	if b.seqName == "" {
		return nil
	}
	return tLen(fn(b.seqName, p.args...))
}

func baseName(k int) string {
	if k < len(bases) {
		return bases[k].name
	}
	return "?"
}

func ptr(b *base, idx ...*Term) *Term {
	return mk(&Term{op: OPtr, k: b.id, args: append([]*Term(nil), idx...)})
}

type wr struct {
	g   *Term
	idx []*Term
	val *Term
}

type cell struct {
	tmpl  *Term // default content over tsyms; nil = the base's own
	tsyms []*Term
	ws    []wr
}

type heap struct{ cells map[int]*cell }

func (h *heap) clone() *heap {
	n := &heap{cells: make(map[int]*cell, len(h.cells))}
	for k, v := range h.cells {
		n.cells[k] = v
	}
	return n
}

// defaultContent is what an object holds before the first write.
func (b *base) defaultContent(idx []*Term) *Term {
	if !b.input {
		if b.typ == nil {
			return tEmpty
		}
		return zeroOf(b.typ)
	}
	if b.typ == nil {
		return fn(b.seqName, idx...)
	}
	return inputValue(b.path, b.typ, idx, b.wild, true)
}

func (h *heap) content(p *Term) *Term {
	if p.op != OPtr {
		panic(undecided("not an object: " + str(p)))
	}
	b := bases[p.k]
	c := h.cells[p.k]
	if c == nil {
		return b.defaultContent(p.args)
	}
	var v *Term
	start := 0
	// the newest write that certainly applies hides what is older
	conds := make([]*Term, len(c.ws))
	for i := len(c.ws) - 1; i >= 0; i-- {
		w := c.ws[i]
		cond := w.g
		for j := range w.idx {
			cond = and(cond, tEq(w.idx[j], p.args[j]))
		}
		cond = simp(cond, amb)
		conds[i] = cond
		if cond == tTrue {
			v = w.val
			start = i + 1
			break
		}
	}
	if v == nil {
		if c.tmpl != nil {
			v = c.tmpl
			if len(c.tsyms) > 0 {
				v = substMany(c.tmpl, c.tsyms, p.args)
			}
		} else {
			v = b.defaultContent(p.args)
		}
	}
	for i := start; i < len(c.ws); i++ {
		if conds[i] != tFalse {
			v = ite(conds[i], c.ws[i].val, v)
		}
	}
	return v
}

// set writes the content of one object under a condition.
func (h *heap) set(p, val, g *Term) {
	if g == tFalse {
		return
	}
	b := bases[p.k]
	if b.nidx == 0 {
		if g != tTrue {
			val = ite(g, val, h.content(p))
		}
		h.cells[p.k] = &cell{ws: []wr{{g: tTrue, val: val}}}
		return
	}
	c := h.cells[p.k]
	n := &cell{}
	if c != nil {
		n.tmpl, n.tsyms = c.tmpl, c.tsyms
		n.ws = append([]wr(nil), c.ws...)
	}
	if l := len(n.ws); l > 0 && sameTerms(n.ws[l-1].idx, p.args) && (g == tTrue || g == n.ws[l-1].g) {
		n.ws[l-1] = wr{g: n.ws[l-1].g, idx: p.args, val: val}
		if g == tTrue {
			n.ws[l-1].g = tTrue
		}
	} else {
		n.ws = append(n.ws, wr{g: g, idx: p.args, val: val})
	}
	h.cells[p.k] = n
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// resolve follows an interior pointer to its object.
func project(v *Term, path []*Term) *Term {
	for i := len(path) - 1; i >= 0; i-- {
		st := path[i]
		if st.op == OFAddr {
			v = field(v, st.k)
		} else {
			v = tAt(v, st.args[1])
		}
	}
	return v
}

func field(v *Term, i int) *Term {
	return lift(func(x []*Term) *Term {
		v := x[0]
		if v.op == OStruct || v.op == OTuple {
			return v.args[i]
		}
		panic(undecided(fmt.Sprintf("field %d of %s", i, str(v))))
	}, v)
}

func setField(v *Term, i int, e *Term) *Term {
	return lift(func(x []*Term) *Term {
		v := x[0]
		if v.op != OStruct {
			panic(undecided("field of " + str(v)))
		}
		args := append([]*Term(nil), v.args...)
		args[i] = e
		return mk(&Term{op: OStruct, typ: v.typ, args: args})
	}, v)
}

func inject(v *Term, path []*Term, e *Term) *Term {
	if len(path) == 0 {
		return e
	}
	st := path[len(path)-1]
	rest := path[:len(path)-1]
	if st.op == OFAddr {
		return setField(v, st.k, inject(field(v, st.k), rest, e))
	}
	return tUpd(v, st.args[1], inject(tAt(v, st.args[1]), rest, e))
}

// leaves calls f for every un-gated case of a pointer.
func leaves(p *Term, g *Term, f func(p, g *Term)) {
	if p.op == OIte {
		a := asBDD(p.args[0])
		switch atomUnder(p.args[0], and(orTrue(amb), g)) {
		case 1:
			leaves(p.args[1], g, f)
			return
		case -1:
			leaves(p.args[2], g, f)
			return
		}
		leaves(p.args[1], and(g, a), f)
		leaves(p.args[2], and(g, not(a)), f)
		return
	}
	f(p, g)
}

func orTrue(t *Term) *Term {
	if t == nil {
		return tTrue
	}
	return t
}

func rootOf(p *Term) (*Term, []*Term) {
	var path []*Term
	for p.op == OFAddr || p.op == OIAddr {
		path = append(path, p)
		p = p.args[0]
	}
	return p, path
}

// outPath turns the steps collected from the inside out into project order.
func load(h *heap, p *Term) *Term {
	return lift(func(x []*Term) *Term {
		r, path := rootOf(x[0])
		if r.op == OIte {
			return lift(func(y []*Term) *Term {
				return load(h, rebuildPath(y[0], path))
			}, r)
		}
		if r.op != OPtr {
			panic(undecided("load through " + str(r)))
		}
		return project(h.content(r), path)
	}, p)
}

func rebuildPath(r *Term, path []*Term) *Term {
	for i := len(path) - 1; i >= 0; i-- {
		st := path[i]
		if st.op == OFAddr {
			r = mk(&Term{op: OFAddr, k: st.k, args: []*Term{r}})
		} else {
			r = mk(&Term{op: OIAddr, args: []*Term{r, st.args[1]}})
		}
	}
	return r
}

func store(h *heap, p, v *Term) {
	leaves(p, tTrue, func(q, g *Term) {
		r, path := rootOf(q)
		leaves(r, g, func(r, g *Term) {
			if r.op == ONil {
				return // a nil dereference; recorded as an obligation
			}
			if r.op != OPtr {
				panic(undecided("store through " + str(r)))
			}
			if len(path) == 0 {
				h.set(r, v, g)
				return
			}
			h.set(r, inject(h.content(r), path, v), g)
		})
	})
}

func mergeHeap(c *Term, a, b *heap) *heap {
	if a == b {
		return a
	}
	n := &heap{cells: make(map[int]*cell, len(a.cells))}
	for k, x := range a.cells {
		y, ok := b.cells[k]
		if !ok {
			if bases[k].alloc {
				n.cells[k] = x
				continue
			}
			y = &cell{}
		}
		n.cells[k] = mergeCell(k, c, x, y)
	}
	for k, y := range b.cells {
		if _, ok := a.cells[k]; !ok {
			if bases[k].alloc {
				n.cells[k] = y
				continue
			}
			n.cells[k] = mergeCell(k, c, &cell{}, y)
		}
	}
	return n
}

func mergeCell(k int, c *Term, x, y *cell) *cell {
	if x == y {
		return x
	}
	bs := bases[k]
	if bs.nidx == 0 {
		val := func(z *cell) *Term {
			if len(z.ws) == 0 {
				if z.tmpl != nil {
					return z.tmpl
				}
				return bs.defaultContent(nil)
			}
			return z.ws[len(z.ws)-1].val
		}
		vx, vy := val(x), val(y)
		if vx == vy {
			return x
		}
		return &cell{ws: []wr{{g: tTrue, val: ite(c, vx, vy)}}}
	}
	n := &cell{tmpl: x.tmpl, tsyms: x.tsyms}
	if x.tmpl == nil {
		n.tmpl, n.tsyms = y.tmpl, y.tsyms
	} else if y.tmpl != nil && x.tmpl != y.tmpl {
		if !sameTerms(x.tsyms, y.tsyms) {
			ty := substMany(y.tmpl, y.tsyms, x.tsyms)
			n.tmpl = ite(c, x.tmpl, ty)
		} else {
			n.tmpl = ite(c, x.tmpl, y.tmpl)
		}
	}
	i := 0
	for i < len(x.ws) && i < len(y.ws) && sameTerms(x.ws[i].idx, y.ws[i].idx) && x.ws[i].val == y.ws[i].val && x.ws[i].g == y.ws[i].g {
		n.ws = append(n.ws, x.ws[i])
		i++
	}
	xs, ys := x.ws[i:], y.ws[i:]
	if len(xs) == 1 && len(ys) == 1 && sameTerms(xs[0].idx, ys[0].idx) && xs[0].g == tTrue && ys[0].g == tTrue {
		n.ws = append(n.ws, wr{g: tTrue, idx: xs[0].idx, val: ite(c, xs[0].val, ys[0].val)})
		return n
	}
	for _, w := range xs {
		n.ws = append(n.ws, wr{g: and(c, w.g), idx: w.idx, val: w.val})
	}
	for _, w := range ys {
		n.ws = append(n.ws, wr{g: and(not(c), w.g), idx: w.idx, val: w.val})
	}
	return n
}

// ---------- values of types ----------

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsNumeric != 0:
			return tZero
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk(&Term{op: OStruct, typ: t, args: args})
	case *types.Array:
		return zeroSeq(u.Elem(), tInt(u.Len()))
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return mk(&Term{op: OTuple, args: args})
	}
	return tNil
}

func zeroSeq(elem types.Type, n *Term) *Term {
	z := zeroOf(elem)
	if z == tZero && n.op == OInt && n.i64() <= 512 {
		return tBytes(strings.Repeat("\x00", int(n.i64())))
	}
	return tRep(z, n)
}

// inPolicy says which input references may be nil and which interface types
// have a known implementation.
type inPolicy struct {
	maybeNil func(path string, t types.Type) bool
	devirt   func(t types.Type) types.Type
	length   func(path string, t types.Type) int
	value    func(path string, t types.Type, idx []*Term) *Term
}

var policy inPolicy

func symName(path string) string { return "in:" + path }

// inputValue is an unknown value of a type, named by its access path.
func inputValue(path string, t types.Type, idx []*Term, wild, obj bool) *Term {
	if policy.value != nil && !obj {
		if v := policy.value(path, t, idx); v != nil {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		nm := symName(path)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return fnBool(nm, idx...)
		case u.Info()&types.IsString != 0:
			seqInfos[nm] = seqInfo{n: -1, elem: types.Typ[types.Byte]}
			return fn(nm, idx...)
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(u.Name())
			fnBounds[nm] = [2]*big.Int{lo, hi}
			return fn(nm, idx...)
		}
		return fn(nm, idx...)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			f := u.Field(i)
			args[i] = inputValue(path+"."+f.Name(), f.Type(), idx, wild, false)
			// objects the library made itself hold whole keys
			if !wild && !f.Exported() && f.Pkg() != nil && isModPath(f.Pkg().Path()) && args[i].op == OSlc && isByteSlice(f.Type()) {
				bases[args[i].args[0].k].maybeNil = false
			}
		}
		return mk(&Term{op: OStruct, typ: t, args: args})
	case *types.Array:
		nm := symName(path)
		seqInfos[nm] = seqInfo{n: int(u.Len()), elem: u.Elem()}
		return fn(nm, idx...)
	case *types.Pointer:
		b := newBase("in:"+path, base{name: path, typ: u.Elem(), nidx: len(idx), input: true, path: path, wild: wild,
			maybeNil: wild || policy.maybeNil != nil && policy.maybeNil(path, t)})
		return ptr(b, idx...)
	case *types.Slice:
		nm := symName(path)
		n := -1
		if policy.length != nil {
			if l := policy.length(path, t); l != 0 {
				n = l
			}
		}
		seqInfos[nm] = seqInfo{n: n, elem: u.Elem()}
		b := newBase("in:"+path+"[]", base{name: path + "[]", elem: u.Elem(), nidx: len(idx), input: true, path: path, seqName: nm, wild: wild,
			maybeNil: n < 0})
		ln := tLen(fn(nm, idx...))
		cp := ln
		if n < 0 {
			fnBounds["spare"] = fnBoundsNat
			cp = add(ln, fn("spare", ptr(b, idx...)))
		}
		return mk(&Term{op: OSlc, args: []*Term{ptr(b, idx...), tZero, ln, cp}})
	case *types.Interface:
		if policy.devirt != nil {
			if d := policy.devirt(t); d != nil {
				mn := wild || policy.maybeNil != nil && policy.maybeNil(path, t)
				pt, ok := d.Underlying().(*types.Pointer)
				if !ok {
					return mk(&Term{op: OIface, typ: d, args: []*Term{inputValue(path+".(v)", d, idx, wild, false)}})
				}
				b := newBase("in:"+path+".(p)", base{name: path, typ: pt.Elem(), nidx: len(idx), input: true, path: path + ".(p)", wild: wild, maybeNil: mn, ifaceNil: mn})
				return mk(&Term{op: OIface, typ: d, args: []*Term{ptr(b, idx...)}})
			}
		}
		nm := symName(path)
		if !wild && (policy.maybeNil == nil || !policy.maybeNil(path, t)) {
			nonNilFns[nm] = true
		}
		return fn(nm, idx...)
	case *types.Signature:
		if policy.value != nil {
			if v := policy.value(path, t, idx); v != nil {
				return v
			}
		}
		nm := symName(path)
		nonNilFns[nm] = true
		return fn(nm, idx...)
	case *types.Map, *types.Chan:
		return fn(symName(path), idx...)
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = inputValue(fmt.Sprintf("%s#%d", path, i), u.At(i).Type(), idx, wild, false)
		}
		return mk(&Term{op: OTuple, args: args})
	}
	panic(undecided("input of type " + t.String()))
}

var nonNilFns = map[string]bool{}

// inputElem is element i of an input sequence of references or structures.
func inputElem(seq *Term, elem types.Type, i *Term) *Term {
	path := strings.TrimPrefix(seq.name, "in:")
	idx := append(append([]*Term(nil), seq.args...), i)
	wild := false
	if b, ok := baseByKey["in:"+path+"[]"]; ok {
		wild = b.wild
	}
	return inputValue(path+"[*]", elem, idx, wild, false)
}

// ---------- slices ----------

func slc(p, off, ln, cp *Term) *Term {
	return lift(func(x []*Term) *Term {
		return mk(&Term{op: OSlc, args: append([]*Term(nil), x...)})
	}, p, off, ln, cp)
}

func sliceLen(s *Term) *Term {
	return lift(func(x []*Term) *Term {
		switch x[0].op {
		case ONil:
			return tZero
		case OSlc:
			return x[0].args[2]
		}
		panic(undecided("length of " + str(x[0])))
	}, s)
}

func sliceCap(s *Term) *Term {
	return lift(func(x []*Term) *Term {
		switch x[0].op {
		case ONil:
			return tZero
		case OSlc:
			return x[0].args[3]
		}
		panic(undecided("capacity of " + str(x[0])))
	}, s)
}

// sliceSeq is the current content of a slice.
func sliceSeq(h *heap, s *Term) *Term {
	return lift(func(x []*Term) *Term {
		switch x[0].op {
		case ONil:
			return tEmpty
		case OSlc:
			if x[0].args[2] == tZero {
				return tEmpty
			}
			return tSub(load(h, x[0].args[0]), x[0].args[1], x[0].args[2])
		}
		panic(undecided("content of " + str(x[0])))
	}, s)
}
