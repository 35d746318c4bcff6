package main

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"sort"
	"strings"
)

// Sessions of a peer: what a session cipher and a session builder do with the
// record of a remote address. The decryption with one state is replaced by a
// summary of its effects, which is itself established by analysis.

const maxArchived = 40

// effects summarises what DecryptWithState may change.
type effects struct {
	keep  map[string]bool // fields of the state it never assigns
	types map[string]bool // what it writes into objects that were there before
}

// decryptEffects analyses DecryptWithState on every case for its effects.
func (c *ctx) decryptEffects() *effects {
	e := &effects{map[string]bool{}, map[string]bool{}}
	lost := map[string]bool{}
	defer func(f *ssa.Function, n string) { c.trial, c.trialNote = f, n }(c.trial, c.trialNote)
	withTrials(func(c *ctx) { c.effectsOf(e, lost) })(c)
	for f := range lost {
		delete(e.keep, f)
	}
	return e
}

func (c *ctx) effectsOf(e *effects, lost map[string]bool) {
	for _, k := range append(append([]string{}, decKinds...), "far", "new far") {
		c.scenario("effects of a decryption: "+k, func(s *scn) {
			x := s.decryptState(k)
			o, n := simp(load(x.h0, x.st), s.st.g), simp(load(s.st.h, x.st), s.st.g)
			if o.op != OStruct || n.op != OStruct {
				panic(undecided("the content of a session state"))
			}
			t := o.typ.Underlying().(*types.Struct)
			for i := range o.args {
				f := t.Field(i).Name()
				if tEq(o.args[i], n.args[i]) == tTrue {
					e.keep[f] = true
				} else {
					lost[f] = true
				}
			}
			var ks []int
			for b := range s.st.h.cells {
				ks = append(ks, b)
			}
			sort.Ints(ks)
			for _, b := range ks {
				bs := bases[b]
				if s.st.h.cells[b] == x.h0.cells[b] || b >= x.b0 && bs.alloc {
					continue
				}
				same := true
				for _, w := range s.st.h.cells[b].ws {
					p := mk(&Term{op: OPtr, k: b, args: w.idx})
					amb = s.st.g
					if tEq(simp(x.h0.content(p), s.st.g), simp(s.st.h.content(p), s.st.g)) != tTrue {
						same = false
					}
				}
				if same {
					continue
				}
				e.types[objKind(bs)] = true
				s.ob("trial.effects", s.name2("writes only into the state: "+objKind(bs)), s.pos,
					strings.HasPrefix(bs.path, "state") || strings.HasPrefix(bs.name, "state"), func() string { return "writes into " + bs.name })
			}
			for _, v := range s.in.events[x.m0:] {
				if strings.Contains(v.name, "/store.") {
					s.ob("trial.effects", s.name2("no use of a store"), s.pos, false, func() string { return v.name + " " + v.where })
				}
			}
			s.ob("trial.effects", s.name2("effects"), s.pos, true, nil)
		})
	}
}

func objKind(b *base) string {
	if b.typ != nil {
		return b.typ.String()
	}
	return "[]" + b.elem.String()
}

// reachable collects the objects a value leads to.
func reachable(h *heap, g, v *Term, seen map[int]bool) {
	done := map[*Term]bool{}
	var walk func(t *Term, d int)
	var elems func(t *Term, d int)
	walk = func(t *Term, d int) {
		if d > 60 {
			panic(undecided("reachable objects"))
		}
		if done[t] {
			return
		}
		done[t] = true
		switch t.op {
		case OIte:
			walk(t.args[1], d+1)
			walk(t.args[2], d+1)
		case OPtr:
			if seen[t.k] {
				return
			}
			seen[t.k] = true
			if bases[t.k].typ != nil || isRef(bases[t.k].elem) {
				walk(simp(h.content(t), g), d+1)
			}
		case OFAddr, OIAddr, OIface, OSlc:
			walk(t.args[0], d+1)
		case OStruct, OTuple:
			for _, a := range t.args {
				walk(a, d+1)
			}
		default:
			if isSeq(t) {
				elems(t, d)
			}
		}
	}
	elems = func(t *Term, d int) {
		switch t.op {
		case OCat:
			for _, a := range t.args {
				walk(a, d+1)
			}
			return
		case OUnit, ORep:
			walk(t.args[0], d+1)
			return
		}
		if e := elemOf(t); e != nil && isRef(e) {
			i := freshInt("r")
			fnBounds[i.name] = fnBoundsNat
			underRange(i, tLen(t), func() *Term { walk(tAt(t, i), d+1); return nil })
		}
	}
	walk(v, 0)
}

// peer is a session cipher and builder for one remote address.
type peer struct {
	*scn
	eff                                 *effects
	addr, ser                           *Term
	sessions, prekeys, signed, identity *Term
	builder, cipher                     *Term
	rec                                 *Term
	before, cur0                        *Term
	arch0                               *Term // archived states' structures
	m0, trials                          int
	ptrs0                               *Term // archived states
	cur                                 *Term
	curD                                *Term
	h0                                  *heap
	r                                   *Term
}

func (s *scn) peer(eff *effects, fresh bool) *peer {
	x := &peer{scn: s, eff: eff}
	b := s.args("session.NewBuilder", "sessions", "prekeys", "signed", "identity", "address", "serializer")
	for _, a := range b {
		s.assume(not(isNil(a)))
	}
	x.sessions, x.prekeys, x.signed, x.identity, x.addr, x.ser = b[0], b[1], b[2], b[3], b[4], b[5]
	x.builder = s.call("session.NewBuilder", b...)
	x.cipher = s.call("session.NewCipher", x.builder, x.addr)
	if fresh {
		a := s.args("state/record.NewSession", "recserializer", "stserializer")
		s.assume(not(isNil(a[0])))
		s.assume(not(isNil(a[1])))
		x.rec = s.call("state/record.NewSession", a...)
	} else {
		x.rec = s.input("record", "*state/record.Session")
		x.established(s.method(x.rec, "SessionState"))
	}
	x.ptrs0 = s.sq(s.method(x.rec, "PreviousSessionStates"))
	s.assume(le(tLen(x.ptrs0), tInt(maxArchived)))
	x.cur = s.method(x.rec, "SessionState")
	x.arch0 = tEmpty
	if !fresh {
		x.before = x.now()
		x.cur0 = s.df(x.before, "SessionState")
		x.arch0 = s.sq(s.df(x.before, "PreviousStates"))
	}
	s.in.hooks["state/store.Session.LoadSession"] = func(in *interp, st *state, c *callCtx) *Term {
		in.emit(st, c.name, c.pos, x.rec, c.args...)
		return x.rec
	}
	// what the stores hold depends on what they are asked for
	load := func(what string) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			id := simp(c.args[1], st.g)
			v := inputValue(what, c.sig.Results().At(0).Type(), []*Term{id}, false, false)
			bases[v.k].maybeNil = false
			r := ite(fnBool("has:"+what, id), v, tNil)
			in.emit(st, c.name, c.pos, r, c.args...)
			return r
		}
	}
	s.in.hooks["state/store.PreKey.LoadPreKey"] = load("prekey")
	s.in.hooks["state/store.SignedPreKey.LoadSignedPreKey"] = load("signedprekey")
	own := func(what string) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			r := inputValue(what, c.sig.Results().At(0).Type(), nil, false, false)
			in.emit(st, c.name, c.pos, r, c.args...)
			return r
		}
	}
	s.in.hooks["state/store.IdentityKey.GetIdentityKeyPair"] = own("ownidentity")
	s.in.hooks["state/store.IdentityKey.GetLocalRegistrationId"] = own("ownregistration")
	s.in.hooks["state/store.IdentityKey.IsTrustedIdentity"] = func(in *interp, st *state, c *callCtx) *Term {
		amb = st.g
		r := fnBool("trusted", simp(c.args[1], st.g), simp(deep(st.h, simp(c.args[2], st.g)), st.g))
		in.emit(st, c.name, c.pos, r, c.args...)
		return r
	}
	if eff != nil {
		for _, f := range s.p.trials() {
			s.in.hooks[relName(f)] = x.trialOf(f)
		}
	}
	x.m0, x.h0 = s.mark(), s.st.h.clone()
	return x
}

func (x *peer) now() (r *Term) {
	x.peek(func() { r = x.snapOf(x.rec, "SessionSerializer.Serialize") })
	return
}

// ident is what a trial's outcome depends on.
func (x *peer) ident(h *heap, st *Term) *Term { return x.plain(deep(h, st)) }

func trialOK(d, msg *Term) *Term { return fnBool("decrypts", d, msg) }

// trial stands for DecryptWithState: it succeeds or fails depending on what
// the state and the message hold, and leaves anything in what it may change.
func (x *peer) trialOf(f *ssa.Function) modelFn {
	_, si, mi, _ := trialArgs(f)
	return func(in *interp, st *state, c *callCtx) *Term { return x.trial(in, st, c, si, mi) }
}

func (x *peer) trial(in *interp, st *state, c *callCtx, si, mi int) *Term {
	return in.split(st, c.args[si], func(st *state, p *Term) *Term {
		if p.op != OPtr {
			panic(undecided("decryption with the state " + str(p)))
		}
		x.trials++
		if x.trials > 200 {
			panic(undecided("too many decryptions"))
		}
		amb = st.g
		msg := simp(c.args[mi], st.g)
		d := simp(x.ident(st.h, p), st.g)
		// nothing the decryption may change belongs to the record
		mine, theirs := map[int]bool{}, map[int]bool{}
		reachable(st.h, st.g, p, mine)
		reachable(st.h, st.g, x.rec, theirs)
		shared := ""
		for b := range mine {
			if theirs[b] && (x.eff.types[objKind(bases[b])]) {
				shared = bases[b].name + " (" + objKind(bases[b]) + ")"
			}
		}
		x.ob("trial.separate", x.name2("a trial changes nothing of the record"), c.pos, shared == "", func() string {
			return "the decryption may change " + shared + " of the record, in " + in.where()
		})
		ok := trialOK(d, msg)
		r := trialResult(c.sig, d, msg)
		in.emit(st, "trial", c.pos, r, p, msg, d)
		st.h.set(p, x.after(simp(load(st.h, p), st.g), d, msg), tTrue)
		return tuple(ite(ok, r.args[0], tNil), ite(ok, r.args[1], tNil), ite(ok, tNil, r.args[2]))
	})
}

func trialResult(sig *types.Signature, d, msg *Term) *Term {
	idx := []*Term{d, msg}
	nonNilFns["error:trial"] = true
	return tuple(inputValue("trialtext", sig.Results().At(0).Type(), idx, false, false),
		inputValue("trialkeys", sig.Results().At(1).Type(), idx, false, false), fn("error:trial", idx...))
}

// after is the content of a state after a trial.
func (x *peer) after(o, d, msg *Term) *Term {
	if o.op != OStruct {
		panic(undecided("the content of a session state " + str(o)))
	}
	t := o.typ.Underlying().(*types.Struct)
	args := make([]*Term, len(o.args))
	for i := range args {
		f := t.Field(i)
		if x.eff.keep[f.Name()] {
			args[i] = o.args[i]
		} else {
			args[i] = inputValue("after."+f.Name(), f.Type(), []*Term{d, msg}, false, false)
		}
	}
	return mk(&Term{op: OStruct, typ: o.typ, args: args})
}

// firstIdx is the least index below n with a condition.
func (s *scn) firstIdx(n *Term, cond func(i *Term) *Term) (ix, exists *Term) {
	i := freshInt("f")
	fnBounds[i.name] = fnBoundsNat
	var b *Term
	underRange(i, n, func() *Term { b = asBoolT(simp(cond(i), amb)); return nil })
	return tFirst(n, b, i), tExists(n, b, i)
}

// calls are the calls of a store's method, or of all those a prefix names.
func (x *peer) calls(method string) (r []event) {
	if method != "" && !strings.HasSuffix(method, ".") {
		return x.events(x.m0, "state/store."+method)
	}
	for _, e := range x.in.events[x.m0:] {
		if strings.Contains(e.name, "state/store."+method) && simp(e.g, x.st.g) != tFalse {
			r = append(r, e)
		}
	}
	return r
}

// archived is an archived state as it was, and as a trial leaves it.
func (x *peer) archived(i *Term) (p, d *Term) {
	p = simp(tAt(x.ptrs0, i), x.st.g)
	return p, simp(x.ident(x.h0, p), x.st.g)
}

func (x *peer) dOf(i *Term) *Term {
	_, d := x.archived(i)
	return d
}

// outcome splits a decryption of a message against the record into its cases:
// the current state, the first archived state that decrypts it, none.
func (x *peer) outcome(msg *Term, f func(kind string, d, j *Term)) {
	s := x.scn
	d0 := simp(x.ident(x.h0, x.cur), s.st.g)
	s.at(trialOK(d0, msg), func() { f("current", d0, nil) })
	s.assume(not(trialOK(d0, msg)))
	if n := simp(tLen(x.ptrs0), s.st.g); n == tZero {
		f("none", nil, nil)
		return
	}
	J, ex := s.firstIdx(tLen(x.ptrs0), func(i *Term) *Term { _, d := x.archived(i); return trialOK(d, msg) })
	s.at(ex, func() {
		// the state archived just now is known better than the others
		J := simp(J, s.st.g)
		if J.op == OIte {
			c := asBDD(J.args[0])
			s.at(c, func() { j := simp(J, s.st.g); f("archived first", x.dOf(j), j) })
			s.assume(not(c))
			J = simp(J, s.st.g)
		}
		f("archived", x.dOf(J), J)
	})
	s.at(not(ex), func() { f("none", nil, nil) })
}

// once: an event happens exactly when a condition holds, and at most once.
func (s *scn) once(rule, what string, es []event, when *Term, f func(e event)) {
	one, two := tFalse, tFalse
	for _, e := range es {
		e := e
		s.ob(rule, s.name2(what+": not repeated"), e.pos, len(e.iter) == 0, func() string { return e.where })
		s.at(e.g, func() { f(e) })
		two = or(two, and(one, e.g))
		one = or(one, e.g)
	}
	s.iff(rule, what, one, when)
	s.holds(rule, what+": once", not(two))
}

// saved: the record is stored exactly when the operation succeeds, once, under
// the address, and as it is in the end.
func (x *peer) saved(rule string, ok *Term, as func()) {
	s := x.scn
	s.once(rule, "the session is stored exactly on success", x.calls("Session.StoreSession"), ok, func(e event) {
		s.eq(rule, "stored in the session store", e.args[0], x.sessions)
		s.eq(rule, "stored under the address", e.args[1], x.addr)
		s.eq(rule, "the loaded record is stored", e.args[2], x.rec)
		s.peek(func() {
			s.st.h = e.h.clone()
			as()
		})
	})
	for _, e := range x.calls("Session.") {
		e := e
		n := strings.TrimPrefix(e.name, "state/store.Session.")
		switch n {
		case "StoreSession":
		case "LoadSession", "ContainsSession":
			s.at(e.g, func() {
				s.eq(rule, n+": of the session store", e.args[0], x.sessions)
				s.eq(rule, n+": of the address", e.args[1], x.addr)
			})
		default:
			s.ob(rule, s.name2("no other use of the session store"), e.pos, false, func() string { return n })
		}
	}
}

// trusts: the identity store is asked about a key for the address, a refusal
// ends in an error without a session or that identity being stored, and success
// saves that same key.
func (x *peer) trusts(rule string, ok *Term, keyOf func() *Term) {
	s := x.scn
	var key *Term
	s.at(ok, func() { key = keyOf() })
	right := func(e event) *Term {
		return and(and(tEq(e.args[0], x.identity), tEq(e.args[1], x.addr)), tEq(s.pubBytes(s.method(e.args[2], "PublicKey")), key))
	}
	asked := tFalse
	for _, e := range x.calls("IdentityKey.IsTrustedIdentity") {
		e := e
		s.at(and(ok, e.g), func() { asked = or(asked, and(and(e.g, asBoolT(e.res)), s.is2(right(e)))) })
		s.at(and(e.g, not(asBoolT(e.res))), func() {
			s.reach(rule, "not trusted")
			s.holds(rule, "an error when not trusted", not(ok))
			for _, v := range x.calls("Session.StoreSession") {
				s.holds(rule, "no session stored when not trusted", not(v.g))
			}
			for _, v := range x.calls("IdentityKey.SaveIdentity") {
				s.holds(rule, "identity not saved when not trusted", not(and(v.g, tEq(v.args[2], e.args[2]))))
			}
		})
	}
	s.at(ok, func() {
		s.reach(rule, "success")
		s.holds(rule, "asked about the identity, and trusted", asked)
		saved := tFalse
		for _, e := range x.calls("IdentityKey.SaveIdentity") {
			e := e
			s.at(e.g, func() {
				s.eq(rule, "the identity saved", s.pubBytes(s.method(e.args[2], "PublicKey")), key)
				s.eq(rule, "saved for the address", e.args[1], x.addr)
				s.eq(rule, "saved in the identity store", e.args[0], x.identity)
			})
			saved = or(saved, e.g)
		}
		s.holds(rule, "the identity is saved", saved)
	})
}

// currentPeer is the identity of the peer in the record's current state.
func (x *peer) currentPeer() *Term {
	s := x.scn
	return s.pubBytes(s.method(s.method(s.method(x.rec, "SessionState"), "RemoteIdentityKey"), "PublicKey"))
}

// is2 is a condition, as decided in the current state.
func (s *scn) is2(c *Term) *Term { return simp(asBoolT(c), s.st.g) }

// states compares the states of the record with what they should be.
func (x *peer) states(rule, what string, cur *Term, n *Term, arch func(i *Term) *Term) {
	s := x.scn
	s.eq(rule, what+": current state", s.deep(load(s.st.h, simpDeep(s.method(x.rec, "SessionState"), s.st.g))), cur)
	prev := s.sq(s.method(x.rec, "PreviousSessionStates"))
	s.eq(rule, what+": number of archived states", tLen(prev), n)
	if simp(n, s.st.g) == tZero {
		return
	}
	s.anyIndex(n, func(i *Term) {
		s.eq(rule, what+": archived states", s.deep(s.el(prev, i)), arch(i))
	})
}

func (x *peer) sameRecord(rule, what string) {
	x.eq(rule, what+": record unchanged", x.now(), x.before)
}

// results: an operation that fails yields nothing.
func (x *peer) nothing(rule string, r *Term) {
	s := x.scn
	s.at(not(okOf(r)), func() {
		s.reach(rule, "failure")
		s.holds(rule, "no plaintext with an error", eqInt(sliceLen(res(r, 0)), tZero))
		s.holds(rule, "no keys with an error", isNil(res(r, 1)))
		for _, e := range x.calls("") {
			n := strings.TrimPrefix(e.name, "state/store.")
			if strings.Contains(n, ".Store") || strings.Contains(n, ".Remove") || strings.Contains(n, ".Delete") {
				s.holds(rule, "no "+n+" with an error", not(e.g))
			}
		}
	})
}

// released: what a successful decryption yields is what the trial yielded.
func (x *peer) released(rule string, r, d, msg *Term) {
	s := x.scn
	t := trialResult(s.fn("session.Cipher.DecryptWithState").Signature, d, msg)
	s.eq(rule, "plaintext", s.bytes(res(r, 0)), s.bytes(t.args[0]))
	s.eq(rule, "message keys", res(r, 1), t.args[1])
}

// afterOf is the state a trial leaves, followed to its end.
func (x *peer) afterOf(p, d, msg *Term) *Term {
	return deep(x.h0, x.after(simp(load(x.h0, p), x.st.g), d, msg))
}

// moved: the states after a decryption.
func (x *peer) moved(rule, kind string, d, j, msg *Term) {
	s := x.scn
	n := tLen(x.ptrs0)
	old := func(i *Term) *Term { return deep(x.h0, simp(tAt(x.ptrs0, i), s.st.g)) }
	switch kind {
	case "current":
		x.states(rule, kind, x.afterOf(x.cur, d, msg), n, old)
	case "archived", "archived first":
		p, _ := x.archived(j)
		x.states(rule, kind, x.afterOf(p, d, msg), n, func(i *Term) *Term {
			return ite(eqInt(i, tZero), deep(x.h0, x.cur), ite(le(i, j), old(addi(i, -1)), old(i)))
		})
	}
}

func (c *ctx) decryptRecord(eff *effects, f func(x *peer, r *Term, kind string, d, j, msg *Term)) {
	c.scenario("decrypt with a record", func(s *scn) {
		x := s.peer(eff, false)
		m := s.input("message", "*protocol.SignalMessage")
		r := s.method(x.cipher, "DecryptWithRecord", x.rec, m)
		x.outcome(m, func(kind string, d, j *Term) { f(x, r, kind, d, j, m) })
	})
}

func c07rec(c *ctx, eff *effects) {
	c.decryptRecord(eff, func(x *peer, r *Term, kind string, d, j, msg *Term) {
		s := x.scn
		if kind == "none" {
			s.reach("record.none", "no state decrypts the message")
			s.holds("record.none", "an error", not(okOf(r)))
			x.nothing("record.none", r)
			x.sameRecord("record.none", "no state decrypts the message")
			return
		}
		s.reach("record."+kind, "decrypted")
		s.holds("record."+kind, "no error", okOf(r))
		x.released("record."+kind, r, d, msg)
	})
}

func c08rec(c *ctx, eff *effects) {
	c.decryptRecord(eff, func(x *peer, r *Term, kind string, d, j, msg *Term) {
		s := x.scn
		if kind != "none" {
			s.assume(okOf(r))
			s.reach("record."+kind, "decrypted")
			x.released("record."+kind, r, d, msg)
			x.moved("record."+kind, kind, d, j, msg)
		}
	})
}

// decryptStored is the decryption of a session message.
func (c *ctx) decryptStored(eff *effects, f func(x *peer, r, msg *Term)) {
	c.scenario("decrypt a session message", func(s *scn) {
		x := s.peer(eff, false)
		m := s.input("message", "*protocol.SignalMessage")
		r := s.method(x.cipher, "DecryptAndGetKey", m)
		f(x, r, m)
	})
}

func init() {
	reg("C07", 80, "encryption and decryption with an unknown record and stores that answer anything: what every failure leaves in the record and does to the stores", func(c *ctx) {
		e := c.decryptEffects()
		c07rec(c, e)
		c.decryptStored(e, func(x *peer, r, m *Term) {
			x.nothing("stored.none", r)
			x.outcome(m, func(kind string, d, j *Term) {
				if kind == "none" {
					x.holds("stored.none", "an error", not(okOf(r)))
					x.sameRecord("stored.none", "no state decrypts the message")
				} else {
					x.at(okOf(r), func() { x.reach("stored."+kind, "decrypted") })
				}
			})
		})
		c07e(c)
		c07p(c, e)
	})
	reg("C08", 220, "encryption and decryption with an unknown record and any archived states: what success stores, when, and what the record then holds", func(c *ctx) {
		e := c.decryptEffects()
		c08rec(c, e)
		c.decryptStored(e, func(x *peer, r, m *Term) {
			x.outcome(m, func(kind string, d, j *Term) {
				if kind == "none" {
					x.holds("stored.none", "not a success", not(okOf(r)))
					return
				}
				x.saved("stored."+kind, okOf(r), func() { x.moved("stored."+kind, kind, d, j, m) })
				x.assume(okOf(r))
				x.reach("stored."+kind, "decrypted")
				x.released("stored."+kind, r, d, m)
				x.moved("after."+kind, kind, d, j, m)
			})
		})
		c08e(c)
		c08p(c, e)
	})
	reg("C05", 120, "processing of unknown bundles, with and without a one-time prekey and a signed prekey, against stores that answer anything: what acceptance requires, what is then installed, what a rejection leaves", c05)
	reg("C06", 45, "encryption, both decryptions and both ways to build a session, against an identity store that answers anything: the key asked about, the key saved, the effect of a refusal", c06)
	reg("C16", 160, "bundles, prekey messages and their decryption in all cases of ids and stores: the prekey used, loaded, reported and removed", c16)
	reg("C26", 15, "records after processing a bundle or a prekey message: the archived states one by one, and known sessions left alone", c26)
}
