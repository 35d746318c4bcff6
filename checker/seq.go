package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// seqInfo describes the symbols and functions of sort "sequence".
type seqInfo struct {
	n    int // fixed length, or -1
	elem types.Type
}

var seqInfos = map[string]seqInfo{}

// elemOf is the element type of a sequence when it is known.
func elemOf(t *Term) types.Type {
	switch t.op {
	case OFn:
		if s, ok := seqInfos[t.name]; ok {
			return s.elem
		}
	case OSub, OIter:
		if t.op == OIter {
			return elemOf(t.args[1])
		}
		return elemOf(t.args[0])
	case OBytes:
		return types.Typ[types.Byte]
	case OCat:
		for _, a := range t.args {
			if e := elemOf(a); e != nil {
				return e
			}
		}
	case OIte:
		if e := elemOf(t.args[1]); e != nil {
			return e
		}
		return elemOf(t.args[2])
	}
	return nil
}

func elemBounds(t *Term) ([2]*big.Int, bool) {
	if e := elemOf(t); e != nil {
		if b, ok := e.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			lo, hi := intRange(b.Name())
			return [2]*big.Int{lo, hi}, true
		}
	}
	return [2]*big.Int{}, false
}

func tBytes(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return mk(&Term{op: OBytes, name: s})
}

func tLen(t *Term) *Term {
	switch t.op {
	case OBytes:
		return tInt(int64(len(t.name)))
	case OCat:
		r := tZero
		for _, a := range t.args {
			r = add(r, tLen(a))
		}
		return r
	case OSub:
		return t.args[2]
	case OUnit:
		return tOne
	case OGen:
		return t.args[0]
	case ORep:
		return t.args[1]
	case OIte:
		return ite(asBDD(t.args[0]), tLen(t.args[1]), tLen(t.args[2]))
	case OFn:
		if s, ok := seqInfos[t.name]; ok && s.n >= 0 {
			return tInt(int64(s.n))
		}
		if t.name == "hkdf" {
			return t.args[3]
		}
		if f, ok := fnLens[t.name]; ok {
			return f(t)
		}
	}
	return fn("len", t)
}

// fnLens gives the length of function results that depends on arguments.
var fnLens = map[string]func(*Term) *Term{}

func tUnit(e *Term) *Term {
	if e.op == OInt && e.n.IsInt64() && e.n.Sign() >= 0 && e.i64() < 256 {
		return tBytes(string([]byte{byte(e.i64())}))
	}
	return mk(&Term{op: OUnit, args: []*Term{e}})
}

func tRep(e, n *Term) *Term {
	return lift(func(x []*Term) *Term {
		n := x[0]
		if n == tZero {
			return tEmpty
		}
		if n.op == OInt && n.i64() <= 512 && e.op == OInt && e.n.IsInt64() && e.i64() >= 0 && e.i64() < 256 {
			return tBytes(strings.Repeat(string([]byte{byte(e.i64())}), int(n.i64())))
		}
		if n.op == OInt && n.i64() <= 64 {
			var p []*Term
			for i := int64(0); i < n.i64(); i++ {
				p = append(p, tUnit(e))
			}
			return tCat(p...)
		}
		return mk(&Term{op: ORep, args: []*Term{e, n}})
	}, n)
}

// asSub views a part as a range of a base sequence.
func asSub(t *Term) (base, off, ln *Term) {
	switch t.op {
	case OSub:
		return t.args[0], t.args[1], t.args[2]
	case OUnit:
		e := t.args[0]
		if e.op == OFn && e.name == "at" {
			return e.args[0], e.args[1], tOne
		}
	}
	return t, tZero, tLen(t)
}

func tCat(parts ...*Term) *Term {
	return lift(tCat1, parts...)
}

func tCat1(parts []*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.op == OCat {
			fl = append(fl, p.args...)
		} else {
			fl = append(fl, p)
		}
	}
	var out []*Term
	for _, p := range fl {
		if tLen(p) == tZero {
			continue
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if m := mergeParts(l, p); m != nil {
				out[len(out)-1] = m
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: OCat, args: out})
}

func mergeParts(l, p *Term) *Term {
	// zeros up to a width in front of a number
	if p.op == OFn && p.name == "decimal" && l.op == ORep && l.args[0] == tInt(48) {
		w := add(l.args[1], tLen(p))
		if lo, _ := bounds(p.args[0]); w.op == OInt && w.i64() > 0 && w.i64() < 20 && lo != nil && lo.Sign() >= 0 {
			seqInfos["format"] = seqInfo{-1, byteT}
			return fn("format", tBytes(fmt.Sprintf("%%0%dd", w.i64())), p.args[0])
		}
	}
	if l.op == OBytes && p.op == OBytes {
		return mk(&Term{op: OBytes, name: l.name + p.name})
	}
	b1, o1, l1 := asSub(l)
	b2, o2, l2 := asSub(p)
	if b1 == b2 && add(o1, l1) == o2 && (l.op == OSub || l.op == OUnit || p.op == OSub || p.op == OUnit) {
		return tSub(b1, o1, add(l1, l2))
	}
	if l.op == OGen && p.op == OUnit && bindOpen(l.args[1], l.k, l.args[0]) == p.args[0] {
		return genN(addi(l.args[0], 1), l.k, l.args[1])
	}
	if l.op == OFilt {
		// one more element that is kept under the same condition
		if p.op == OFilt && p.args[0] == tOne && l.k == p.k {
			n := l.args[0]
			if bindOpen(l.args[1], l.k, n) == bindOpen(p.args[1], p.k, tZero) && bindOpen(l.args[2], l.k, n) == bindOpen(p.args[2], p.k, tZero) {
				return mk(&Term{op: OFilt, k: l.k, args: []*Term{addi(n, 1), l.args[1], l.args[2]}})
			}
		}
	}
	if l.op == ORep && p.op == ORep && l.args[0] == p.args[0] {
		return tRep(l.args[0], add(l.args[1], p.args[1]))
	}
	return nil
}

func tSub(t, off, ln *Term) *Term {
	return lift(func(x []*Term) *Term { return tSub1(x[0], x[1], x[2]) }, t, off, ln)
}

func tSub1(t, off, ln *Term) *Term {
	if ln == tZero || decide(eqInt(ln, tZero)) == 1 {
		return tEmpty
	}
	if off == tZero {
		if n := tLen(t); ln == n || decide(eqInt(ln, n)) == 1 {
			return t
		}
	}
	switch t.op {
	case OSub:
		return tSub(t.args[0], add(t.args[1], off), ln)
	case OBytes:
		if off.op == OInt && ln.op == OInt {
			o, l := off.i64(), ln.i64()
			if o >= 0 && l >= 0 && o+l <= int64(len(t.name)) {
				return tBytes(t.name[o : o+l])
			}
		}
		if strings.Count(t.name, t.name[:1]) == len(t.name) && decide(le(add(off, ln), tInt(int64(len(t.name))))) == 1 {
			return tRep(tInt(int64(t.name[0])), ln)
		}
	case ORep:
		return tRep(t.args[0], ln)
	case OGen:
		s := freshInt("g")
		return tGen(ln, bindOpen(t.args[1], t.k, add(s, off)), s)
	case OUnit:
		if off == tZero && ln == tOne {
			return t
		}
	case OCat:
		// walk the parts
		var out []*Term
		rest := ln
		o := off
		for i := 0; i < len(t.args); i++ {
			p := t.args[i]
			pl := tLen(p)
			if rest == tZero {
				break
			}
			if o != tZero {
				switch decide(le(pl, o)) {
				case 1: // the range starts after this part
					o = sub(o, pl)
					continue
				case 0:
					if decide(le(tZero, o)) != 1 {
						return mk(&Term{op: OSub, args: []*Term{t, off, ln}})
					}
					if i == len(t.args)-1 {
						break
					}
					// the start is not located: split
					return lateSub(t, off, ln)
				}
			}
			avail := sub(pl, o)
			switch decide(le(rest, avail)) {
			case 1:
				out = append(out, tSub(p, o, rest))
				rest = tZero
			case -1:
				out = append(out, tSub(p, o, avail))
				rest = sub(rest, avail)
				o = tZero
			default:
				if i == len(t.args)-1 {
					out = append(out, tSub(p, o, rest))
					rest = tZero
				} else if decide(le(avail, rest)) == 1 {
					// may be equal, then the remainder is empty
					out = append(out, tSub(p, o, avail))
					rest = sub(rest, avail)
					o = tZero
				} else {
					return lateSub(t, off, ln)
				}
			}
		}
		if rest == tZero || decide(eqInt(rest, tZero)) == 1 {
			return tCat(out...)
		}
	}
	if ln == tOne && !isRaw(t) {
		return tUnit(tAt(t, off))
	}
	return mk(&Term{op: OSub, args: []*Term{t, off, ln}})
}

func isRaw(t *Term) bool {
	switch t.op {
	case OFn, OIter, OFilt, OSub:
		return false
	}
	return true
}

func lateSub(t, off, ln *Term) *Term {
	return mk(&Term{op: OSub, args: []*Term{t, off, ln}})
}

func tAt(t, i *Term) *Term {
	return lift(func(x []*Term) *Term { return tAt1(x[0], x[1]) }, t, i)
}

func tAt1(t, i *Term) *Term {
	switch t.op {
	case OBytes:
		if i.op == OInt && i.n.Sign() >= 0 && i.n.IsInt64() && i.i64() < int64(len(t.name)) {
			return tInt(int64(t.name[i.i64()]))
		}
		// a constant function of the index
		same := true
		for j := 1; j < len(t.name); j++ {
			if t.name[j] != t.name[0] {
				same = false
			}
		}
		if same && len(t.name) > 0 {
			return tInt(int64(t.name[0]))
		}
	case OSub:
		return tAt(t.args[0], add(t.args[1], i))
	case OUnit:
		return t.args[0]
	case ORep:
		return t.args[0]
	case OGen:
		return bindOpen(t.args[1], t.k, i)
	case OCat:
		if len(t.args) == 0 {
			break
		}
		p := t.args[0]
		pl := tLen(p)
		if len(t.args) == 1 {
			return tAt(p, i)
		}
		rest := mk(&Term{op: OCat, args: t.args[1:]})
		if len(t.args) == 2 {
			rest = t.args[1]
		}
		c := lt(i, pl)
		switch decide(c) {
		case 1:
			return tAt(p, i)
		case -1:
			return tAt(rest, sub(i, pl))
		}
		if c.op == OIte {
			return lift(func(x []*Term) *Term {
				if x[0] == tTrue {
					return tAt(p, i)
				}
				return tAt(rest, sub(i, pl))
			}, c)
		}
	case OFn:
		if si, ok := seqInfos[t.name]; ok && si.elem != nil && strings.HasPrefix(t.name, "in:") {
			if _, basic := si.elem.Underlying().(*types.Basic); !basic {
				return inputElem(t, si.elem, i)
			}
		}
	}
	return mk(&Term{op: OFn, name: "at", args: []*Term{t, i}})
}

// tUpd is the sequence with element i replaced.
func tUpd(t, i, e *Term) *Term {
	return lift(func(x []*Term) *Term {
		t, i := x[0], x[1]
		n := tLen(t)
		u := tUnit(e)
		return tCat(tSub(t, tZero, i), u, tSub(t, addi(i, 1), sub(sub(n, i), tOne)))
	}, t, i)
}

// parts of a sequence as a list.
func partsOf(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	return []*Term{t}
}

// tEq is equality of two values of the same type.
func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return lift(func(x []*Term) *Term { return tEq1(x[0], x[1]) }, a, b)
}

func isInt(t *Term) bool {
	switch t.op {
	case OInt, OLin, OFirst:
		return true
	case OFn:
		if t.name == "at" {
			_, ok := elemBounds(t.args[0])
			return ok
		}
		if _, ok := fnBounds[t.name]; ok {
			return true
		}
		return t.name == "len" || t.name == "cap" || t.name == "div" || t.name == "mask:" || strings.HasPrefix(t.name, "wrap:") || strings.HasPrefix(t.name, "int:")
	}
	return false
}

func isSeq(t *Term) bool {
	switch t.op {
	case OBytes, OCat, OSub, OUnit, OGen, OFilt, ORep:
		return true
	case OIter:
		return isSeq(t.args[1])
	case OFn:
		_, ok := seqInfos[t.name]
		_, ok2 := fnLens[t.name]
		return ok || ok2 || t.name == "hkdf"
	}
	return false
}

func tEq1(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OTrue || a.op == OFalse || a.isAtom() || b.isAtom() {
		if a.isAtom() || a == tTrue || a == tFalse {
			return ite(asBoolT(a), asBoolT(b), not(asBoolT(b)))
		}
	}
	if isInt(a) || isInt(b) {
		return eqInt(a, b)
	}
	if isSeq(a) || isSeq(b) {
		return eqSeq(a, b)
	}
	switch {
	case a.op == ONil:
		return isNil(b)
	case b.op == ONil:
		return isNil(a)
	case a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args), a.op == OTuple && b.op == OTuple:
		r := tTrue
		for i := range a.args {
			r = and(r, tEq(a.args[i], b.args[i]))
		}
		return r
	case a.op == OIface && b.op == OIface:
		if typeKey(a.typ) != typeKey(b.typ) {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	case a.op == OObj && b.op == OObj:
		return tEq(a.args[0], b.args[0])
	case a.op == OSeqv && b.op == OSeqv:
		return tEq(a.args[1], b.args[1])
	case a.op == OSeqv && b.op == ONil:
		return eqInt(tLen(a.args[1]), tZero)
	case a.op == OPtr && b.op == OPtr:
		if a.k != b.k {
			if !bases[a.k].input || !bases[b.k].input {
				return tFalse
			}
			return eqAtom(a, b)
		}
		r := tTrue
		for i := range a.args {
			r = and(r, tEq(a.args[i], b.args[i]))
		}
		return r
	}
	return eqAtom(a, b)
}

func eqAtom(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return asBDD(mk(&Term{op: OEq, args: []*Term{a, b}}))
}

func eqSeq(a, b *Term) *Term {
	la, lb := tLen(a), tLen(b)
	if c := eqInt(la, lb); c == tFalse {
		return tFalse
	}
	if la == tZero || lb == tZero {
		return eqInt(la, lb)
	}
	pa, pb := partsOf(a), partsOf(b)
	// strip equal parts at both ends
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	// parts of equal length compare separately
	if len(pa) > 0 && len(pb) > 0 && (len(pa) > 1 || len(pb) > 1) {
		if pa[0].op == OBytes && pb[0].op == OBytes {
			x, y := pa[0].name, pb[0].name
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[:n] != y[:n] {
				return tFalse
			}
			ra := append([]*Term{tBytes(x[n:])}, pa[1:]...)
			rb := append([]*Term{tBytes(y[n:])}, pb[1:]...)
			return tEq(tCat(ra...), tCat(rb...))
		}
		if tLen(pa[0]) == tLen(pb[0]) {
			return and(tEq(pa[0], pb[0]), tEq(tCat(pa[1:]...), tCat(pb[1:]...)))
		}
		if x, y := pa[len(pa)-1], pb[len(pb)-1]; tLen(x) == tLen(y) {
			return and(tEq(tCat(pa[:len(pa)-1]...), tCat(pb[:len(pb)-1]...)), tEq(x, y))
		}
	}
	// a range compared with a concatenation is cut at the concatenation's parts
	for i := 0; i < 2; i++ {
		if len(pa) == 1 && len(pb) > 1 && (pa[0].op == OSub || pa[0].op == OFn) {
			n := tLen(pb[0])
			if decide(le(n, tLen(pa[0]))) == 1 {
				l, r := tSub(pa[0], tZero, n), tSub(pa[0], n, sub(tLen(pa[0]), n))
				return and(tEq(l, pb[0]), tEq(r, tCat(pb[1:]...)))
			}
		}
		pa, pb = pb, pa
	}
	x, y := tCat(pa...), tCat(pb...)
	if x.op == OSub && y.op == OSub && x.args[0] == y.args[0] && x.args[1] == y.args[1] {
		return eqInt(tLen(x), tLen(y))
	}
	if y.op == ORep {
		x, y = y, x
	}
	if x.op == ORep && y.op != ORep {
		// every element is the same
		h := freshInt("g")
		n := tLen(x)
		return and(eqInt(n, tLen(y)), not(tExists(n, not(tEq(tAt(y, h), x.args[0])), h)))
	}
	if x == y {
		return tTrue
	}
	if x.op == OBytes && y.op == OBytes {
		return tBool(x.name == y.name)
	}
	if tLen(x) == tZero || tLen(y) == tZero {
		return eqInt(tLen(x), tLen(y))
	}
	if tLen(x) == tOne && tLen(y) == tOne {
		return tEq(tAt(x, tZero), tAt(y, tZero))
	}
	return eqAtom(x, y)
}

// isNil is the nilness of a pointer, slice, interface or function value.
func isNil(t *Term) *Term {
	return lift(func(x []*Term) *Term {
		t := x[0]
		switch t.op {
		case ONil:
			return tTrue
		case OPtr:
			if bases[t.k].maybeNil {
				return asBDD(mk(&Term{op: OIsNil, args: []*Term{t}}))
			}
			return tFalse
		case OFAddr, OIAddr, OFunc, OObj:
			return tFalse
		case OFn:
			if nonNilFns[t.name] {
				return tFalse
			}
		case OSlc:
			p := t.args[0]
			if p.op == OPtr && bases[p.k].maybeNil && t.args[1] == tZero {
				return asBDD(mk(&Term{op: OIsNil, args: []*Term{p}}))
			}
			return tFalse
		case OSeqv:
			return tFalse
		case OIface:
			v := t.args[0]
			if v.op == OPtr && bases[v.k].ifaceNil {
				return isNil(v)
			}
			if v.op == OIte {
				return ite(asBDD(v.args[0]), isNil(mk(&Term{op: OIface, typ: t.typ, args: []*Term{v.args[1]}})), isNil(mk(&Term{op: OIface, typ: t.typ, args: []*Term{v.args[2]}})))
			}
			return tFalse
		}
		return asBDD(mk(&Term{op: OIsNil, args: []*Term{t}}))
	}, t)
}
