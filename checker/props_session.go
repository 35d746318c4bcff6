package main

import "go/types"

// Sessions: what DecryptWithState does to a state and yields.

const maxKept, maxChains, maxAhead = 2000, 5, 5000

// dec is one analysis of a decryption with an unknown state and message.
type dec struct {
	*scn
	st, msg, d         *Term
	struc, ser         *Term
	rk                 *Term // the message's ratchet key, 32 bytes
	counter            *Term
	old, new           *Term // deep snapshots of the state
	oldC, newC         *Term // receiver chains
	F                  *Term // index of the message's chain
	ck, idx            *Term // its chain key and index before
	kept               *Term // its kept keys before
	nKept              *Term
	r                  *Term
	text, mac, ver, pn *Term
	wireRK             *Term
	m0, b0             int
	h0                 *heap
	kind               string
	key                mkey
	root1, R, have     *Term
	chain              *Term
}

// message is an unknown session message that was accepted as such.
func (s *scn) message(name string) *dec {
	x := &dec{scn: s}
	x.struc = s.input(name, "*protocol.SignalMessageStructure")
	x.ser = s.args("protocol.NewSignalMessageFromStruct", name, "serializer")[1]
	f := func(n string) *Term { return s.fld(x.struc, n) }
	x.wireRK, x.mac, x.text, x.counter, x.pn, x.ver = s.bytes(f("RatchetKey")), s.bytes(f("Mac")), f("CipherText"), f("Counter"), f("PreviousCounter"), f("Version")
	r := s.call("protocol.NewSignalMessageFromStruct", x.struc, x.ser)
	s.assume(okOf(r))
	x.msg = res(r, 0)
	x.rk = s.bytes(s.method(s.method(x.msg, "SenderRatchetKey"), "PublicKey"))
	return x
}

// snap is the structure a session state serializes to, followed to its end.
func (s *scn) snap(st *Term) *Term {
	m, o := s.mark(), len(s.in.obls)
	s.method(st, "Serialize")
	s.in.obls = s.in.obls[:o] // only looked at
	for _, e := range s.events(m, "StateSerializer.Serialize") {
		return s.deep(e.args[1])
	}
	panic(undecided("no structure of a session state"))
}

// df follows fields of a structure given by deep or by pointer.
func (s *scn) df(v *Term, names ...string) *Term {
	for _, n := range names {
		name := n
		v = lift(func(x []*Term) *Term {
			v := x[0]
			for v.op == OObj || v.op == OIface {
				v = v.args[0]
			}
			if v.op == OPtr {
				v = load(s.st.h, v)
			}
			if v == tNil {
				return tNil
			}
			if v.op != OStruct {
				panic(undecided("field " + name + " of " + str(v)))
			}
			st := v.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return v.args[i]
				}
			}
			panic(undecided("no field " + name + " in " + v.typ.String()))
		}, simp(v, s.st.g))
	}
	return simp(v, s.st.g)
}

// sq is the sequence a slice holds.
func (s *scn) sq(v *Term) *Term {
	return simp(lift(func(x []*Term) *Term {
		switch x[0].op {
		case OSeqv:
			return x[0].args[1]
		case ONil:
			return tEmpty
		}
		if isSeq(x[0]) {
			return x[0]
		}
		return sliceSeq(s.st.h, x[0])
	}, simp(v, s.st.g)), s.st.g)
}

func (s *scn) el(v, i *Term) *Term { return simp(tAt(s.sq(v), i), s.st.g) }

// first is the least index of a sequence at which a condition holds, and
// whether there is one.
func (s *scn) first(seq *Term, cond func(e *Term) *Term) (ix, exists *Term) {
	i := freshInt("f")
	fnBounds[i.name] = fnBoundsNat
	n := tLen(seq)
	var b *Term
	underRange(i, n, func() *Term { b = asBoolT(simp(cond(tAt(seq, i)), amb)); return nil })
	return tFirst(n, b, i), tExists(n, b, i)
}

// anyIndex is an unknown index below a length.
func (s *scn) anyIndex(n *Term, f func(j *Term)) {
	j := freshInt("any")
	fnBounds[j.name] = fnBoundsNat
	s.at(lt(j, n), func() { f(j) })
}

// decryptState analyses DecryptWithState in one of the cases that cover it.
func (s *scn) decryptState(kind string) *dec {
	x := s.message("message")
	x.st = s.input("state", "*state/record.State")
	x.d = s.args("session.Cipher.DecryptWithState", "cipher", "", "")[0]
	if kind == "uninitialized" {
		s.assume(not(asBoolT(s.method(x.st, "HasSenderChain"))))
		x.r = s.tryWith(x.d, x.st, x.msg)
		return x
	}
	s.established(x.st)
	s.assume(lt(x.counter, tInt(1<<32-1)))
	x.old = s.snap(x.st)
	x.oldC = s.sq(s.df(x.old, "ReceiverChains"))
	s.assume(le(tLen(x.oldC), tInt(maxChains)))
	var ex *Term
	x.F, ex = s.first(x.oldC, func(e *Term) *Term {
		return tEq(s.sq(s.df(e, "SenderRatchetKeyPublic")), enc5(x.rk))
	})
	if kind == "new" || kind == "new far" {
		s.assume(not(ex))
		if kind == "new" {
			s.assume(le(x.counter, tInt(maxAhead)))
		} else {
			s.assume(lt(tInt(maxAhead), x.counter))
		}
	} else {
		s.assume(ex)
		e := s.el(x.oldC, x.F)
		x.ck, x.idx, x.kept = s.sq(s.df(e, "ChainKey", "Key")), s.df(e, "ChainKey", "Index"), s.sq(s.df(e, "MessageKeys"))
		x.nKept = tLen(x.kept)
		s.assume(le(x.nKept, tInt(maxKept)))
		switch kind {
		case "equal":
			s.assume(eqInt(x.idx, x.counter))
		case "behind":
			s.assume(lt(x.counter, x.idx))
		case "ahead":
			s.assume(and(lt(x.idx, x.counter), le(x.counter, addi(x.idx, maxAhead))))
		case "far":
			s.assume(lt(addi(x.idx, maxAhead), x.counter))
		}
	}
	x.m0, x.h0, x.b0 = s.mark(), s.st.h.clone(), len(bases)
	x.r = s.tryWith(x.d, x.st, x.msg)
	return x
}

// after is the state after a successful decryption.
func (x *dec) after() {
	x.assume(okOf(x.r))
	if x.st != nil && x.scn.st.g != tFalse {
		x.new = x.snap(x.st)
		x.newC = x.sq(x.df(x.new, "ReceiverChains"))
	}
}

// keyOf are the parts of a kept message key.
type mkey struct{ cipher, mac, iv, index *Term }

func (s *scn) keptKey(e *Term) mkey {
	return mkey{s.sq(s.df(e, "CipherKey")), s.sq(s.df(e, "MacKey")), s.sq(s.df(e, "IV")), s.df(e, "Index")}
}

func derived(ck, index *Term) mkey {
	m := mkeys(ck)
	return mkey{tSub(m, tZero, tInt(32)), tSub(m, tInt(32), tInt(32)), tSub(m, tInt(64), tInt(16)), index}
}

// chainAt is a chain key some steps on.
func chainAt(ck, steps *Term) *Term {
	k, c := freshInt("k"), freshInt("c")
	seqInfos[c.name] = seqInfo{32, byteT}
	return tIter(steps, ck, nextChain(c), k, c)
}

// authentic: the message was authenticated and decrypted with a key.
func (x *dec) authentic(rule, what string, k mkey) {
	s := x.scn
	s.eq(rule, what+": version", x.ver, s.df(x.old, "SessionVersion"))
	remote, local := s.sq(s.df(x.old, "RemoteIdentityPublic")), s.sq(s.df(x.old, "LocalIdentityPublic"))
	want := s.macOf(x.ver, x.ver, tSub(remote, tOne, tInt(32)), tSub(local, tOne, tInt(32)), k.mac, x.ser, x.wireRK, x.counter, x.pn, x.text)
	s.eq(rule, what+": MAC", x.mac, want)
	ct := s.bytes(x.text)
	plain := tCBC("dec", k.cipher, k.iv, ct)
	ok, n := wellPadded(plain)
	s.holds(rule, what+": padding", ok)
	s.at(ok, func() {
		s.eq(rule, what+": plaintext", s.bytes(res(x.r, 0)), tSub(plain, tZero, sub(tLen(plain), n)))
	})
	s.sameKeys(rule, what+": returned keys", res(x.r, 1), k)
}

func (s *scn) sameKeys(rule, what string, keys *Term, k mkey) {
	s.eq(rule, what+" cipher key", s.bytes(s.method(keys, "CipherKey")), k.cipher)
	s.eq(rule, what+" MAC key", s.bytes(s.method(keys, "MacKey")), k.mac)
	s.eq(rule, what+" IV", s.bytes(s.method(keys, "Iv")), k.iv)
	s.eq(rule, what+" index", s.method(keys, "Index"), k.index)
}

func (s *scn) sameKept(rule, what string, e *Term, k mkey) {
	g := s.keptKey(e)
	s.eq(rule, what+" cipher key", g.cipher, k.cipher)
	s.eq(rule, what+" MAC key", g.mac, k.mac)
	s.eq(rule, what+" IV", g.iv, k.iv)
	s.eq(rule, what+" index", g.index, k.index)
}

// others: the chains other than the message's own are as before.
func (x *dec) others(rule string) {
	s := x.scn
	s.eq(rule, "number of receiving chains", tLen(x.newC), tLen(x.oldC))
	s.anyIndex(tLen(x.oldC), func(j *Term) {
		s.at(not(eqInt(j, x.F)), func() {
			s.eq(rule, "other receiving chains", s.el(x.newC, j), s.el(x.oldC, j))
		})
	})
	o, n := s.el(x.oldC, x.F), s.el(x.newC, x.F)
	s.eq(rule, "ratchet key of the chain", s.df(n, "SenderRatchetKeyPublic"), s.df(o, "SenderRatchetKeyPublic"))
	s.eq(rule, "private ratchet key of the chain", s.df(n, "SenderRatchetKeyPrivate"), s.df(o, "SenderRatchetKeyPrivate"))
}

var stateRest = []string{"LocalIdentityPublic", "LocalRegistrationID", "NeedsRefresh", "RemoteIdentityPublic", "RemoteRegistrationID", "SenderBaseKey", "SessionVersion", "PendingKeyExchange"}

// rest: the remaining fields of the state are as before.
func (x *dec) rest(rule string, more ...string) {
	for _, f := range append(append([]string{}, stateRest...), more...) {
		x.eq(rule, "state "+f, x.df(x.new, f), x.df(x.old, f))
	}
}

// refused: an error comes with neither plaintext nor keys.
func (x *dec) refused(rule string) {
	s := x.scn
	s.at(not(okOf(x.r)), func() {
		s.reach(rule, "refusal")
		s.holds(rule, "no plaintext with an error", eqInt(sliceLen(res(x.r, 0)), tZero))
		s.holds(rule, "no keys with an error", isNil(res(x.r, 1)))
	})
}

// cases of a decryption
var decKinds = []string{"equal", "behind", "ahead", "new"}

// step prepares what the specification says about a case: the chain before
// (key and index), and the key of the message.
func (x *dec) step(kind string) {
	s := x.scn
	x.kind = kind
	if kind == "new" {
		sc := s.df(x.old, "SenderChain")
		t := tHKDF(tDH(x.rk, s.sq(s.df(sc, "SenderRatchetKeyPrivate"))), s.sq(s.df(x.old, "RootKey")), tBytes("WhisperRatchet"), tInt(64))
		x.root1 = tSub(t, tZero, tInt(32))
		x.ck, x.idx = tSub(t, tInt(32), tInt(32)), tZero
		x.kept, x.nKept = tEmpty, tZero
	}
	if kind == "behind" {
		x.R, x.have = s.first(x.kept, func(e *Term) *Term { return eqInt(s.df(e, "Index"), x.counter) })
		return
	}
	x.key = derived(chainAt(x.ck, sub(x.counter, x.idx)), x.counter)
	if kind == "equal" {
		x.key = derived(x.ck, x.counter)
	}
}

// succeeded restricts to a successful decryption.
func (x *dec) succeeded(rule string) {
	s := x.scn
	s.assume(okOf(x.r))
	s.reach(rule, "acceptance")
	if x.kind == "behind" {
		s.holds(rule, "only with a kept key", x.have)
		s.assume(x.have)
		x.key = s.keptKey(s.el(x.kept, x.R))
		// kept keys are whole
		s.wholeKey(s.el(x.kept, x.R))
	}
	x.after()
	x.chain = x.F
	if x.kind == "new" {
		x.chain = addi(tLen(x.newC), -1)
	}
}

func (s *scn) wholeKey(e *Term) {
	for f, n := range map[string]int64{"CipherKey": 32, "MacKey": 32, "IV": 16} {
		v := s.df(e, f)
		s.assume(not(isNil(v)))
		s.assume(eqInt(tLen(s.sq(v)), tInt(n)))
	}
}

// advanced: the message's chain stands past the message, and exactly the
// skipped keys are kept with those already there, the oldest going first.
func (x *dec) advanced(rule string) {
	s := x.scn
	n := s.el(x.newC, x.chain)
	gap := sub(x.counter, x.idx)
	if x.kind == "equal" {
		gap = tZero
	}
	s.eq(rule, "chain key", s.sq(s.df(n, "ChainKey", "Key")), nextChain(chainAt(x.ck, gap)))
	s.eq(rule, "chain index", s.df(n, "ChainKey", "Index"), addi(x.counter, 1))
}

func (x *dec) keeps(rule string) {
	s := x.scn
	n := s.el(x.newC, x.chain)
	nk := s.sq(s.df(n, "MessageKeys"))
	switch x.kind {
	case "equal":
		s.eq(rule, "kept keys", nk, x.kept)
	case "behind":
		s.eq(rule, "chain key", s.df(n, "ChainKey"), s.df(s.el(x.oldC, x.F), "ChainKey"))
		s.eq(rule, "number of kept keys", tLen(nk), addi(x.nKept, -1))
		s.anyIndex(tLen(nk), func(j *Term) {
			s.at(lt(j, x.R), func() { s.eq(rule, "keys kept before the one used", s.el(nk, j), s.el(x.kept, j)) })
			s.at(le(x.R, j), func() { s.eq(rule, "keys kept after the one used", s.el(nk, j), s.el(x.kept, addi(j, 1))) })
		})
	default:
		gap := sub(x.counter, x.idx)
		all := add(x.nKept, gap)
		drop := ite(le(all, tInt(maxKept)), tZero, addi(all, -maxKept))
		s.eq(rule, "number of kept keys", tLen(nk), sub(all, drop))
		s.anyIndex(tLen(nk), func(j *Term) {
			p := add(j, drop)
			if x.kind == "ahead" {
				s.at(lt(p, x.nKept), func() { s.eq(rule, "keys already kept", s.el(nk, j), s.el(x.kept, p)) })
			}
			s.at(le(x.nKept, p), func() {
				i := sub(p, x.nKept)
				s.sameKept(rule, "skipped key", s.el(nk, j), derived(chainAt(x.ck, i), add(x.idx, i)))
			})
		})
	}
}

// older: in the case of a new chain, the others as before except the oldest of
// too many.
func (x *dec) older(rule string) {
	s := x.scn
	n := tLen(x.oldC)
	drop := ite(lt(n, tInt(maxChains)), tZero, tOne)
	s.eq(rule, "number of receiving chains", tLen(x.newC), sub(addi(n, 1), drop))
	s.anyIndex(addi(tLen(x.newC), -1), func(j *Term) {
		s.eq(rule, "other receiving chains", s.el(x.newC, j), s.el(x.oldC, add(j, drop)))
	})
	s.eq(rule, "ratchet key of the new chain", s.sq(s.df(s.el(x.newC, x.chain), "SenderRatchetKeyPublic")), enc5(x.rk))
}

func (x *dec) ratchet(rule string) {
	s := x.scn
	sc, osc := s.df(x.new, "SenderChain"), s.df(x.old, "SenderChain")
	priv := s.sq(s.df(sc, "SenderRatchetKeyPrivate"))
	s.isFreshKey(rule, "sending ratchet key", priv)
	s.eq(rule, "sending ratchet key pair", s.sq(s.df(sc, "SenderRatchetKeyPublic")), enc5(tPub(priv)))
	t := tHKDF(tDH(x.rk, priv), x.root1, tBytes("WhisperRatchet"), tInt(64))
	s.eq(rule, "root key", s.sq(s.df(x.new, "RootKey")), tSub(t, tZero, tInt(32)))
	s.eq(rule, "sending chain key", s.sq(s.df(sc, "ChainKey", "Key")), tSub(t, tInt(32), tInt(32)))
	s.eq(rule, "sending chain index", s.df(sc, "ChainKey", "Index"), tZero)
	s.eq(rule, "no keys kept for the sending chain", tLen(s.sq(s.df(sc, "MessageKeys"))), tZero)
	i := s.df(osc, "ChainKey", "Index")
	s.eq(rule, "previous counter", s.df(x.new, "PreviousCounter"), ite(lt(tZero, i), addi(i, -1), tZero))
}

// c02s: the ratchet step of a session.
func c02s(c *ctx) {
	c.scenario("first message under a new ratchet key", func(s *scn) {
		x := s.decryptState("new")
		x.step("new")
		x.succeeded("session.step")
		x.ratchet("session.step")
		x.advanced("session.step")
		x.older("session.step")
	})
	for _, k := range []string{"equal", "ahead", "behind"} {
		k := k
		c.scenario("no ratchet step: "+k, func(s *scn) {
			x := s.decryptState(k)
			x.step(k)
			x.succeeded("session.step")
			x.rest("session.step", "RootKey", "SenderChain", "PreviousCounter")
			if k != "behind" {
				x.advanced("session.step")
			}
		})
	}
}

func c04(c *ctx) {
	for _, k := range decKinds {
		k := k
		c.scenario(k, func(s *scn) {
			x := s.decryptState(k)
			x.step(k)
			x.refused("session.refused")
			x.succeeded("session.authentic")
			x.authentic("session.authentic", k, x.key)
			x.rest("session.state")
		})
	}
	c.scenario("uninitialized", func(s *scn) {
		x := s.decryptState("uninitialized")
		s.holds("session.refused", "error", not(okOf(x.r)))
		x.refused("session.refused")
	})
}

func c09(c *ctx) {
	for _, k := range decKinds {
		k := k
		c.scenario(k, func(s *scn) {
			x := s.decryptState(k)
			x.step(k)
			if k == "behind" {
				s.at(not(x.have), func() {
					s.reach("kept.unknown", "no kept key")
					s.holds("kept.unknown", "refused without a kept key", not(okOf(x.r)))
					x.refused("kept.unknown")
				})
			}
			x.succeeded("kept.accept")
			x.sameKeysAs("kept.key", x.key)
			x.keeps("kept.keys")
			if k != "behind" {
				x.advanced("kept.advance")
			}
			if k == "new" {
				x.older("kept.others")
			} else {
				x.others("kept.others")
			}
		})
	}
}

func (x *dec) sameKeysAs(rule string, k mkey) { x.scn.sameKeys(rule, "returned keys", res(x.r, 1), k) }

func c10s(c *ctx) {
	for _, k := range decKinds {
		k := k
		c.scenario("session "+k, func(s *scn) {
			x := s.decryptState(k)
			x.step(k)
			x.succeeded("bounds.accept")
			n := tLen(x.newC)
			s.holds("bounds.chains", "receiving chains", le(n, tInt(maxChains)))
			s.anyIndex(n, func(j *Term) {
				s.at(eqInt(j, x.chain), func() {
					s.holds("bounds.kept", "kept keys", le(tLen(s.sq(s.df(s.el(x.newC, j), "MessageKeys"))), tInt(maxKept)))
				})
			})
			switch k {
			case "new":
				x.older("bounds.chains")
				s.at(eqInt(x.counter, tInt(maxAhead)), func() { s.reach("bounds.ahead", "a counter of exactly the limit is accepted") })
			default:
				x.others("bounds.chains")
				if k == "ahead" {
					s.at(eqInt(x.counter, addi(x.idx, maxAhead)), func() { s.reach("bounds.ahead", "a counter at exactly the limit is accepted") })
				}
			}
			x.keeps("bounds.kept")
		})
	}
	for _, k := range []string{"far", "new far"} {
		k := k
		c.scenario("session "+k, func(s *scn) {
			x := s.decryptState(k)
			s.holds("bounds.ahead", "refused", not(okOf(x.r)))
			x.refused("bounds.ahead")
		})
	}
}

func c31s(c *ctx) {
	for _, k := range decKinds {
		k := k
		c.scenario("decrypt "+k, func(s *scn) {
			x := s.decryptState(k)
			x.step(k)
			x.succeeded("pending.end")
			s.holds("pending.end", "no pending prekey after a decryption", isNil(s.df(x.new, "PendingPreKey")))
		})
	}
}

func init() {
	reg("C04", 80, "DecryptWithState on an unknown state (any chains, any kept keys) and unknown message, in the cases that cover all counters and ratchet keys: what success requires and yields", withTrials(c04))
	reg("C09", 60, "DecryptWithState on an unknown state and message: every kept key, for any number and any gap, before and after", withTrials(c09))
	reg("C10", 76, "bounds of chains, kept keys and gaps after any decryption of an unknown message under an unknown state that respects them", func(c *ctx) { withTrials(c10s)(c); c10g(c) })
	reg("C31", 85, "kind and content of every encrypted message, and the pending prekey after bundles, encryption and any decryption of an unknown state", func(c *ctx) { withTrials(c31s)(c); c31e(c) })
}
