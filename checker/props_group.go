package main

import "fmt"

// Groups: what a group cipher and a session builder do with the record of a
// sender.

const maxAheadGroup = 2000

const skName, skStore = "protocol.SenderKeyName", "groups/state/store.SenderKey"

// grp is a group cipher over a store that holds one record (or none).
type grp struct {
	*scn
	gc, name, builder, store, ser *Term
	rec, have                     *Term
	m0                            int
	before                        *Term // snapshot of the record
	states                        *Term
}

func (s *scn) group() *grp {
	x := &grp{scn: s}
	b := s.args("groups.NewGroupSessionBuilder", "store", "serializer")
	x.store, x.ser = b[0], b[1]
	s.assume(not(isNil(x.store)))
	s.assume(not(isNil(x.ser)))
	x.builder = s.call("groups.NewGroupSessionBuilder", b...)
	x.name = s.input("name", "*"+skName)
	s.assume(not(isNil(x.name)))
	x.gc = s.call("groups.NewGroupCipher", x.builder, x.name, x.store)
	x.rec = s.input("record", "*groups/state/record.SenderKey")
	s.assume(not(isNil(x.rec)))
	x.have = fnBool("stored")
	s.in.hooks[skStore+".LoadSenderKey"] = func(in *interp, st *state, c *callCtx) *Term {
		r := ite(x.have, x.rec, tNil)
		in.emit(st, skStore+".LoadSenderKey", c.pos, r, c.args...)
		return r
	}
	x.before = x.snapOf(x.rec, "SenderKeySerializer.Serialize")
	x.states = s.sq(s.df(x.before, "SenderKeyStates"))
	s.assume(le(tLen(x.states), tInt(maxKept)))
	x.m0 = s.mark()
	return x
}

// snapAt is the structure a record has at some point, or the current one.
func (x *grp) now() *Term { return x.snapOf(x.rec, "SenderKeySerializer.Serialize") }

func (x *grp) loads() {
	for _, e := range x.events(x.m0, ".LoadSenderKey") {
		x.holds("group.store", "the record of the named sender is loaded", and(tEq(e.args[0], x.store), tEq(e.args[1], x.name)))
	}
}

func (x *grp) stores() []event { return x.events(x.m0, ".StoreSenderKey") }

// stored: exactly one record is stored under the name, as it is in the end.
func (x *grp) stored(rule string, rec *Term) {
	s := x.scn
	es := x.stores()
	once, twice := tFalse, tFalse
	for _, e := range es {
		s.at(e.g, func() {
			s.holds(rule, "stored under the name", and(tEq(e.args[0], x.store), tEq(e.args[1], x.name)))
			s.holds(rule, "the record is stored", tEq(e.args[2], rec))
			s.ob(rule, s.name2("stored once"), s.pos, len(e.iter) == 0, func() string { return e.where })
			s.eq(rule, "stored as it is in the end", deep(e.h, e.args[2]), s.deep(e.args[2]))
		})
		twice = or(twice, and(once, e.g))
		once = or(once, e.g)
	}
	s.holds(rule, "the record is stored", once)
	s.holds(rule, "the record is stored once", not(twice))
}

func (x *grp) notStored(rule, what string) {
	for _, e := range x.stores() {
		x.holds(rule, what+": nothing stored", not(e.g))
	}
	x.ob(rule, x.name2(what+": nothing stored"), x.pos, true, nil)
}

// gdec is a decryption of an unknown group message.
type gdec struct {
	h0 *heap
	*grp
	struc, ser, msg, r      *Term
	id, iter, text, version *Term
	sig                     *Term
	S, found                *Term // the state with the message's key id
	ck, idx, kept, nKept    *Term
	R, have1                *Term
	now1                    *Term
	kind                    string
}

func (s *scn) groupDecrypt(kind string) *gdec {
	x := &gdec{grp: s.group(), kind: kind}
	x.struc = s.input("message", "*protocol.SenderKeyMessageStructure")
	s.assume(not(isNil(x.struc)))
	x.ser = s.args("protocol.NewSenderKeyMessageFromStruct", "message", "mserializer")[1]
	s.assume(not(isNil(x.ser)))
	f := func(n string) *Term { return s.fld(x.struc, n) }
	x.sig = s.bytes(f("Signature"))
	s.assume(eqInt(tLen(x.sig), tInt(64)))
	r := s.call("protocol.NewSenderKeyMessageFromStruct", x.struc, x.ser)
	s.assume(okOf(r))
	x.msg = res(r, 0)
	x.id, x.iter, x.text, x.version = f("ID"), f("Iteration"), s.bytes(f("CipherText")), f("Version")
	s.assume(lt(x.iter, tInt(1<<32-1)))
	x.S, x.found = s.first(x.states, func(e *Term) *Term { return eqInt(s.df(e, "KeyID"), x.id) })
	if kind == "none" {
		s.assume(or(not(x.have), not(x.found)))
	} else {
		s.assume(and(x.have, x.found))
		e := s.el(x.states, x.S)
		x.ck, x.idx, x.kept = s.sq(s.df(e, "SenderChainKey", "ChainKey")), s.df(e, "SenderChainKey", "Iteration"), s.sq(s.df(e, "Keys"))
		x.nKept = tLen(x.kept)
		s.assume(le(x.nKept, tInt(maxKept)))
		switch kind {
		case "equal":
			s.assume(eqInt(x.iter, x.idx))
		case "ahead":
			s.assume(and(lt(x.idx, x.iter), le(x.iter, addi(x.idx, maxAheadGroup))))
		case "far":
			s.assume(lt(addi(x.idx, maxAheadGroup), x.iter))
		case "behind":
			s.assume(lt(x.iter, x.idx))
			x.R, x.have1 = s.first(x.kept, func(e *Term) *Term { return eqInt(s.df(e, "Iteration"), x.iter) })
		}
	}
	x.m0 = s.mark()
	x.h0 = s.st.h.clone()
	x.r = s.method(x.gc, "Decrypt", x.msg)
	return x
}

var groupKinds = []string{"equal", "ahead", "behind"}

// verdict: the verification that decides about the message.
func (x *gdec) verdict(rule string) {
	s := x.scn
	key := s.sq(s.df(s.el(x.states, x.S), "SigningKeyPublic"))
	ed := s.edwardsKey(tSub(key, tOne, tInt(32)))
	sign := mask(tAt(x.sig, tInt(63)), 128, 0)
	ed = tCat(tSub(ed, tZero, tInt(31)), tUnit(orByte(tAt(ed, tInt(31)), sign)))
	clear := tCat(tSub(x.sig, tZero, tInt(63)), tUnit(mask(tAt(x.sig, tInt(63)), 127, 0)))
	signed := fnL("ser:protocol.SenderKeyMessageSerializer", x.ser, s.deep(s.build("protocol.SenderKeyMessageStructure", map[string]*Term{
		"ID": x.id, "Iteration": x.iter, "CipherText": s.fld(x.struc, "CipherText"), "Version": x.version,
	})))
	verified := tFalse
	n := 0
	for _, e := range x.events(x.m0, "ed25519.Verify") {
		n++
		s.at(e.g, func() {
			s.eq(rule, "verified under the state's signing key", e.args[0], ed)
			s.eq(rule, "verified over the message's serialization", e.args[1], signed)
			s.eq(rule, "verified with the message's signature", e.args[2], clear)
		})
		verified = or(verified, and(e.g, asBoolT(e.res)))
	}
	s.ob(rule, s.name2("a verification"), s.pos, n > 0, func() string { return "none" })
	s.at(okOf(x.r), func() {
		s.reach(rule, "accepted")
		s.holds(rule, "accepted only when verified", verified)
	})
	s.at(not(verified), func() {
		s.reach(rule, "not verified")
		s.holds(rule, "an error when not verified", not(okOf(x.r)))
		s.eq(rule, "record unchanged when not verified", x.now(), x.before)
		x.notStored(rule, "not verified")
	})
	for _, e := range x.stores() {
		s.holds(rule, "stored only when verified", or(not(e.g), verified))
	}
}

func (x *gdec) refusedText(rule string) {
	s := x.scn
	s.at(not(okOf(x.r)), func() {
		s.holds(rule, "no plaintext with an error", eqInt(sliceLen(res(x.r, 0)), tZero))
		x.notStored(rule, "error")
	})
}

func c17(c *ctx) {
	for _, k := range append(append([]string{}, groupKinds...), "far") {
		k := k
		c.scenario("decrypt "+k, func(s *scn) {
			x := s.groupDecrypt(k)
			if k == "far" {
				s.holds("group.far", "refused", not(okOf(x.r)))
				x.refusedText("group.far")
				return
			}
			x.verdict("group.verified")
			x.refusedText("group.refused")
		})
	}
}

// groupKey is the key of an iteration of a chain.
func groupKey(ck *Term) (iv, key, seed *Term) {
	seed = tHMAC("sha256", ck, tBytes("\x01"))
	t := tHKDF(seed, tEmpty, tBytes("WhisperGroup"), tInt(48))
	return tSub(t, tZero, tInt(16)), tSub(t, tInt(16), tInt(32)), seed
}

// gkept compares a kept key with the one of a chain key at an iteration.
func (s *scn) gkept(rule, what string, e, ck, iter *Term) {
	iv, key, seed := groupKey(ck)
	s.eq(rule, what+" IV", s.sq(s.df(e, "IV")), iv)
	s.eq(rule, what+" cipher key", s.sq(s.df(e, "CipherKey")), key)
	s.eq(rule, what+" seed", s.sq(s.df(e, "Seed")), seed)
	s.eq(rule, what+" iteration", s.df(e, "Iteration"), iter)
}

// otherStates: the states other than one are as before, and that one keeps
// its key id and signing key.
func (x *grp) otherStates(rule string, S, now *Term) {
	s := x.scn
	n := s.sq(s.df(now, "SenderKeyStates"))
	s.eq(rule, "number of states", tLen(n), tLen(x.states))
	s.anyIndex(tLen(x.states), func(j *Term) {
		s.at(not(eqInt(j, S)), func() { s.eq(rule, "other states", s.el(n, j), s.el(x.states, j)) })
	})
	a, b := s.el(x.states, S), s.el(n, S)
	for _, f := range []string{"KeyID", "SigningKeyPrivate", "SigningKeyPublic"} {
		s.eq(rule, "state "+f, s.df(b, f), s.df(a, f))
	}
}

func (x *gdec) keys(rule string, now *Term) {
	s := x.scn
	e := s.el(s.sq(s.df(now, "SenderKeyStates")), x.S)
	old := s.el(x.states, x.S)
	nk := s.sq(s.df(e, "Keys"))
	if x.kind == "behind" {
		s.eq(rule, "chain key", s.df(e, "SenderChainKey"), s.df(old, "SenderChainKey"))
		s.eq(rule, "number of kept keys", tLen(nk), addi(x.nKept, -1))
		s.anyIndex(tLen(nk), func(j *Term) {
			s.at(lt(j, x.R), func() { s.eq(rule, "keys kept before the one used", s.el(nk, j), s.el(x.kept, j)) })
			s.at(le(x.R, j), func() { s.eq(rule, "keys kept after the one used", s.el(nk, j), s.el(x.kept, addi(j, 1))) })
		})
		return
	}
	gap := sub(x.iter, x.idx)
	if x.kind == "equal" {
		gap = tZero
	}
	s.eq(rule, "chain key", s.sq(s.df(e, "SenderChainKey", "ChainKey")), nextChain(chainAt(x.ck, gap)))
	s.eq(rule, "chain iteration", s.df(e, "SenderChainKey", "Iteration"), addi(x.iter, 1))
	all := add(x.nKept, gap)
	drop := ite(le(all, tInt(maxKept)), tZero, addi(all, -maxKept))
	s.eq(rule, "number of kept keys", tLen(nk), sub(all, drop))
	s.anyIndex(tLen(nk), func(j *Term) {
		p := add(j, drop)
		s.at(lt(p, x.nKept), func() { s.eq(rule, "keys already kept", s.el(nk, j), s.el(x.kept, p)) })
		if x.kind == "ahead" {
			s.at(le(x.nKept, p), func() {
				i := sub(p, x.nKept)
				s.gkept(rule, "skipped key", s.el(nk, j), chainAt(x.ck, i), add(x.idx, i))
			})
		}
	})
}

func c18(c *ctx) {
	c.scenario("chain key", func(s *scn) {
		a := s.args("groups/ratchet.NewSenderChainKey", "iteration", "chainkey")
		k := s.bytes(a[1])
		s.assume(lt(a[0], tInt(1<<32-1)))
		ck := s.call("groups/ratchet.NewSenderChainKey", a...)
		n := s.method(ck, "Next")
		s.eq("chain.next", "next chain key", s.bytes(s.method(n, "Seed")), nextChain(k))
		s.eq("chain.next", "next iteration", s.method(n, "Iteration"), addi(a[0], 1))
		m := s.method(ck, "SenderMessageKey")
		s.holds("chain.key", "a message key", okOf(m))
		iv, key, _ := groupKey(k)
		mk := res(m, 0)
		s.eq("chain.key", "IV", s.bytes(s.method(mk, "Iv")), iv)
		s.eq("chain.key", "cipher key", s.bytes(s.method(mk, "CipherKey")), key)
		s.eq("chain.key", "iteration", s.method(mk, "Iteration"), a[0])
		s.eq("chain.key", "chain key unchanged", s.bytes(s.method(ck, "Seed")), k)
		s.eq("chain.key", "iteration unchanged", s.method(ck, "Iteration"), a[0])
	})
	for _, k := range groupKinds {
		k := k
		c.scenario("decrypt "+k, func(s *scn) {
			x := s.groupDecrypt(k)
			if k == "behind" {
				s.at(not(x.have1), func() {
					s.reach("group.repeated", "no kept key")
					s.holds("group.repeated", "refused without a kept key", not(okOf(x.r)))
					s.eq("group.repeated", "record unchanged", x.now(), x.before)
				})
			}
			s.assume(okOf(x.r))
			s.reach("group.accept", "accepted")
			var iv, key *Term
			if k == "behind" {
				e := s.el(x.kept, x.R)
				iv, key = s.sq(s.df(e, "IV")), s.sq(s.df(e, "CipherKey"))
				s.assume(and(eqInt(tLen(iv), tInt(16)), eqInt(tLen(key), tInt(32))))
			} else {
				gap := sub(x.iter, x.idx)
				if k == "equal" {
					gap = tZero
				}
				iv, key, _ = groupKey(chainAt(x.ck, gap))
			}
			plain := tCBC("dec", key, iv, x.text)
			ok, n := wellPadded(plain)
			s.holds("group.text", "padding", ok)
			s.at(ok, func() {
				s.eq("group.text", "plaintext", s.bytes(res(x.r, 0)), tSub(plain, tZero, sub(tLen(plain), n)))
			})
			now := x.now()
			x.keys("group.keys", now)
			x.otherStates("group.others", x.S, now)
			x.loads()
			x.stored("group.stored", x.rec)
		})
	}
	c.scenario("encrypt", func(s *scn) {
		x := s.group()
		x.encrypt(func(text, r, e, ct, m *Term, rnd []event) {
			k, idx := s.sq(s.df(e, "SenderChainKey", "ChainKey")), s.df(e, "SenderChainKey", "Iteration")
			iv, key, _ := groupKey(k)
			s.eq("group.encrypt", "ciphertext", ct, tCBC("enc", key, iv, padded(text)))
			s.eq("group.encrypt", "iteration", s.method(m, "Iteration"), idx)
			s.eq("group.encrypt", "key id", s.method(m, "KeyID"), s.df(e, "KeyID"))
			now := x.now()
			n := s.el(s.sq(s.df(now, "SenderKeyStates")), tZero)
			s.eq("group.advance", "chain key", s.sq(s.df(n, "SenderChainKey", "ChainKey")), nextChain(k))
			s.eq("group.advance", "iteration", s.df(n, "SenderChainKey", "Iteration"), addi(idx, 1))
			s.eq("group.advance", "kept keys", s.df(n, "Keys"), s.df(e, "Keys"))
			x.otherStates("group.advance", tZero, now)
			x.loads()
			x.stored("group.stored", x.rec)
		})
	})
}

// encrypt analyses an encryption of an unknown text and hands over what it
// made: the state it used, as it was, and the message.
func (x *grp) encrypt(f func(text, r, e, ct, m *Term, rnd []event)) {
	s := x.scn
	s.assume(and(x.have, lt(tZero, tLen(x.states))))
	e := s.el(x.states, tZero)
	s.assume(lt(s.df(e, "SenderChainKey", "Iteration"), tInt(1<<32-1)))
	pt := s.input("plaintext", "[]byte")
	text := s.bytes(pt)
	x.m0 = s.mark()
	r := s.method(x.gc, "Encrypt", pt)
	s.at(not(okOf(r)), func() {
		s.reach("group.fails", "an error")
		x.notStored("group.fails", "error")
		s.eq("group.fails", "record unchanged", x.now(), x.before)
		s.holds("group.fails", "no message with an error", isNil(res(r, 0)))
	})
	s.assume(okOf(r))
	s.reach("group.encrypt", "encrypted")
	m := res(r, 0)
	f(text, r, e, s.bytes(s.method(m, "Ciphertext")), m, x.events(x.m0, "random"))
}

func c17e(c *ctx) {
	c.scenario("encrypt", func(s *scn) {
		x := s.group()
		x.encrypt(func(text, r, e, ct, m *Term, rnd []event) {
			priv := s.sq(s.df(e, "SigningKeyPrivate"))
			s.holds("group.sign", "with a private signing key", not(isNil(s.df(e, "SigningKeyPrivate"))))
			s.assume(eqInt(tLen(priv), tInt(32)))
			sig := s.bytes(s.method(m, "Signature"))
			ser := s.fld(x.ser, "SenderKeyMessage")
			body := s.bytes(s.method(m, "Serialize"))
			want := fnL("ser:protocol.SenderKeyMessageSerializer", ser, s.deep(s.build("protocol.SenderKeyMessageStructure", map[string]*Term{
				"ID": s.method(m, "KeyID"), "Iteration": s.method(m, "Iteration"), "CipherText": s.method(m, "Ciphertext"), "Version": tInt(v3),
			})))
			s.eq("group.sign", "what is signed", body, want)
			found := false
			for _, e := range rnd {
				if tLen(e.res) == tInt(64) && s.isFresh(e.res) {
					found = true
					s.eq("group.sign", "signature over the serialization", sig, s.signature(priv, want, e.res))
				}
			}
			s.ob("group.sign", s.name2("signed with fresh bytes"), s.pos, found, func() string { return dag(sig, 300) })
		})
	})
}

// ---------- C19: distribution ----------

func c19(c *ctx) {
	c.scenario("create", func(s *scn) {
		x := s.group()
		at := s.mark()
		r := s.method(x.builder, "Create", x.name)
		had := and(x.have, lt(tZero, tLen(x.states)))
		x.loads()
		what := func(w string, e *Term) {
			m := res(r, 0)
			s.eq("create.message", w+"key id", s.method(m, "ID"), s.df(e, "KeyID"))
			s.eq("create.message", w+"iteration", s.method(m, "Iteration"), s.df(e, "SenderChainKey", "Iteration"))
			s.eq("create.message", w+"chain key", s.bytes(s.method(m, "ChainKey")), s.sq(s.df(e, "SenderChainKey", "ChainKey")))
			s.eq("create.message", w+"signing key", enc5(s.pubBytes(s.method(m, "SignatureKey"))), s.sq(s.df(e, "SigningKeyPublic")))
		}
		s.at(had, func() {
			s.reach("create.again", "a session exists")
			s.holds("create.again", "no error", okOf(r))
			x.notStored("create.again", "a session exists")
			s.eq("create.again", "record unchanged", x.now(), x.before)
			for _, e := range s.events(at, "random") {
				s.holds("create.again", "no new keys", not(e.g))
			}
			what("existing: ", s.el(x.states, tZero))
		})
		s.at(not(had), func() {
			s.at(okOf(r), func() {
				s.reach("create.new", "created")
				es := x.stores()
				if !s.ob("create.new", s.name2("stored"), s.pos, len(es) == 1, func() string { return fmt.Sprint(len(es)) }) {
					return
				}
				rec := es[0].args[2]
				x.stored("create.new", rec)
				now := x.snapOf(rec, "SenderKeySerializer.Serialize")
				q := s.sq(s.df(now, "SenderKeyStates"))
				s.eq("create.new", "one state", tLen(q), tOne)
				e := s.el(q, tZero)
				s.eq("create.new", "iteration", s.df(e, "SenderChainKey", "Iteration"), tZero)
				s.eq("create.new", "no kept keys", tLen(s.sq(s.df(e, "Keys"))), tZero)
				ck := s.sq(s.df(e, "SenderChainKey", "ChainKey"))
				s.ob("create.new", s.name2("fresh chain key"), s.pos, s.isFresh(ck) && tLen(ck) == tInt(32), func() string { return dag(ck, 200) })
				priv := s.sq(s.df(e, "SigningKeyPrivate"))
				s.isFreshKey("create.new", "signing key", priv)
				s.eq("create.new", "public signing key", s.sq(s.df(e, "SigningKeyPublic")), enc5(tPub(priv)))
				what("new: ", e)
			})
			s.at(not(okOf(r)), func() {
				s.reach("create.fails", "an error")
				x.notStored("create.fails", "error")
			})
		})
	})
	c.scenario("process", func(s *scn) {
		x := s.group()
		st := s.input("message", "*protocol.SenderKeyDistributionMessageStructure")
		s.assume(not(isNil(st)))
		ser := s.args("protocol.NewSenderKeyDistributionMessageFromStruct", "message", "mserializer")[1]
		r := s.call("protocol.NewSenderKeyDistributionMessageFromStruct", st, ser)
		s.assume(okOf(r))
		m := res(r, 0)
		x.m0 = s.mark()
		s.method(x.builder, "Process", x.name, m)
		x.loads()
		es := x.stores()
		s.ob("process.stored", s.name2("stored"), s.pos, len(es) > 0, func() string { return "never" })
		g := s.st.g
		once := tFalse
		for _, e := range es {
			s.holds("process.stored", "stored once", not(and(once, e.g)))
			once = or(once, e.g)
			for _, had := range []bool{true, false} {
				cond := x.have
				w := "into a record: "
				if !had {
					cond = not(x.have)
					w = "into a new record: "
				}
				s.at(and(e.g, cond), func() {
					s.reach("process.install", w+"installed")
					s.holds("process.stored", w+"under the name", and(tEq(e.args[0], x.store), tEq(e.args[1], x.name)))
					rec := e.args[2]
					s.eq("process.stored", w+"as it is in the end", deep(e.h, rec), s.deep(rec))
					q := s.sq(s.df(x.snapOf(rec, "SenderKeySerializer.Serialize"), "SenderKeyStates"))
					n := tZero
					if had {
						n = tLen(x.states)
						s.holds("process.stored", w+"the record", tEq(rec, x.rec))
					}
					drop := ite(lt(n, tInt(maxKept)), tZero, tOne)
					s.eq("process.keep", w+"number of states", tLen(q), sub(addi(n, 1), drop))
					if had {
						s.anyIndex(addi(tLen(q), -1), func(j *Term) {
							s.eq("process.keep", w+"states already there", s.el(q, j), s.el(x.states, add(j, drop)))
						})
					}
					v := s.el(q, addi(tLen(q), -1))
					s.eq("process.install", w+"key id", s.df(v, "KeyID"), s.fld(st, "ID"))
					s.eq("process.install", w+"iteration", s.df(v, "SenderChainKey", "Iteration"), s.fld(st, "Iteration"))
					s.eq("process.install", w+"chain key", s.sq(s.df(v, "SenderChainKey", "ChainKey")), s.bytes(s.fld(st, "ChainKey")))
					s.eq("process.install", w+"signing key", s.sq(s.df(v, "SigningKeyPublic")), tSub(s.bytes(s.fld(st, "SigningKey")), tZero, tInt(33)))
					s.eq("process.install", w+"no private signing key", tLen(s.sq(s.df(v, "SigningKeyPrivate"))), tZero)
					s.eq("process.install", w+"no kept keys", tLen(s.sq(s.df(v, "Keys"))), tZero)
				})
			}
		}
		s.st.g = g
		s.resetAmb()
		s.holds("process.stored", "stored", once)
	})
	c.scenario("no matching key id", func(s *scn) {
		x := s.groupDecrypt("none")
		s.reach("decrypt.unknown", "unknown key id")
		s.holds("decrypt.unknown", "an error", not(okOf(x.r)))
		x.refusedText("decrypt.unknown")
		s.eq("decrypt.unknown", "record unchanged", x.now(), x.before)
	})
}

func c10g(c *ctx) {
	for _, k := range groupKinds {
		k := k
		c.scenario("group "+k, func(s *scn) {
			x := s.groupDecrypt(k)
			s.assume(okOf(x.r))
			s.reach("bounds.group", "accepted")
			now := x.now()
			x.keys("bounds.group", now)
			n := s.el(s.sq(s.df(now, "SenderKeyStates")), x.S)
			s.holds("bounds.group", "kept keys of a group state", le(tLen(s.sq(s.df(n, "Keys"))), tInt(maxKept)))
			x.otherStates("bounds.group", x.S, now)
			if k == "ahead" {
				s.at(eqInt(x.iter, addi(x.idx, maxAheadGroup)), func() { s.reach("bounds.group", "an iteration at exactly the limit is accepted") })
			}
		})
	}
	c.scenario("group far", func(s *scn) {
		x := s.groupDecrypt("far")
		s.holds("bounds.group", "refused", not(okOf(x.r)))
		x.refusedText("bounds.group")
	})
}

func init() {
	reg("C17", 40, "group encryption and every case of group decryption: what is signed, what is verified before any key, store or plaintext", func(c *ctx) { c17(c); c17e(c) })
	reg("C18", 75, "group chain key derivation, and the keys used, kept, removed and stored by encryption and decryption", c18)
	reg("C19", 48, "creation and processing of group sessions, and decryption without a matching state", c19)
}
