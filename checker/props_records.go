package main

import "go/types"

// Stored records and wire messages come back as they went.

var serializerKinds = []string{"any", "JSON", "ProtoBuf"}

// serializerOf is a serializer: an unknown one that follows its contract, or
// one of the library's own.
func (s *scn) serializerOf(kind, field, fn string, param int) *Term {
	if kind == "any" {
		n := make([]string, param+1)
		for i := range n {
			n[i] = "p"
		}
		n[param] = "ser:" + field
		return s.args(fn, n...)[param]
	}
	return s.fld(s.call("serialize.New"+kind+"Serializer"), field)
}

func c13(c *ctx) {
	for _, kind := range serializerKinds[:2] {
		kind := kind
		c.scenario("prekey, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "PreKeyRecord", "state/record.NewPreKeyFromBytes", 1)
			pair, pub, priv := s.anyPair("pair")
			id := s.input("id", "uint32")
			p := s.call("state/record.NewPreKey", id, pair, ser)
			q := s.call("state/record.NewPreKeyFromBytes", s.method(p, "Serialize"), ser)
			s.holds("prekey.load", "a serialized record loads", okOf(q))
			s.assume(okOf(q))
			for i, v := range []*Term{p, res(q, 0)} {
				w := []string{"new ", "loaded "}[i]
				o := s.method(v, "ID")
				s.eq("prekey.id", w+"id", s.fld(o, "Value"), id)
				s.holds("prekey.id", w+"id is there", not(asBoolT(s.fld(o, "IsEmpty"))))
				k := s.method(v, "KeyPair")
				s.eq("prekey.key", w+"public key", s.pubBytes(s.method(k, "PublicKey")), pub)
				s.eq("prekey.key", w+"private key", s.bytes(s.method(s.method(k, "PrivateKey"), "Serialize")), priv)
			}
			s.eq("prekey.again", "serialized again", s.bytes(s.method(res(q, 0), "Serialize")), s.bytes(s.method(p, "Serialize")))
		})
		c.scenario("signed prekey, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "SignedPreKeyRecord", "state/record.NewSignedPreKeyFromBytes", 1)
			pair, pub, priv := s.anyPair("pair")
			a := s.args("state/record.NewSignedPreKey", "id", "timestamp", "pair", "signature", "ser")
			sig := s.input("signature", "[64]byte")
			p := s.call("state/record.NewSignedPreKey", a[0], a[1], pair, sig, ser)
			q := s.call("state/record.NewSignedPreKeyFromBytes", s.method(p, "Serialize"), ser)
			s.holds("signed.load", "a serialized record loads", okOf(q))
			s.assume(okOf(q))
			for i, v := range []*Term{p, res(q, 0)} {
				w := []string{"new ", "loaded "}[i]
				s.eq("signed.id", w+"id", s.method(v, "ID"), a[0])
				s.eq("signed.time", w+"timestamp", s.method(v, "Timestamp"), a[1])
				s.eq("signed.signature", w+"signature", s.bytes(s.method(v, "Signature")), s.bytes(sig))
				k := s.method(v, "KeyPair")
				s.eq("signed.key", w+"public key", s.pubBytes(s.method(k, "PublicKey")), pub)
				s.eq("signed.key", w+"private key", s.bytes(s.method(s.method(k, "PrivateKey"), "Serialize")), priv)
			}
			s.eq("signed.again", "serialized again", s.bytes(s.method(res(q, 0), "Serialize")), s.bytes(s.method(p, "Serialize")))
		})
	}
}

// established: a session state holds all that an established one does.
func (s *scn) established(st *Term) {
	s.assume(s.method(st, "HasSenderChain"))
	s.assume(not(isNil(s.method(s.method(st, "SenderRatchetKeyPair"), "PrivateKey"))))
	has := s.method(st, "HasPendingKeyExchange")
	all := tTrue
	s.at(has, func() {
		for _, m := range []string{"PendingKeyExchangeBaseKeyPair", "PendingKeyExchangeRatchetKeyPair", "PendingKeyExchangeIdentityKeyPair"} {
			all = and(all, not(isNil(s.method(s.method(st, m), "PrivateKey"))))
		}
	})
	s.assume(or(not(asBoolT(has)), all))
}

// sameState: two states behave alike, as far as their methods tell.
func (s *scn) sameState(rule, what string, a, b *Term) {
	for _, m := range []string{"Version", "PreviousCounter", "LocalRegistrationID", "RemoteRegistrationID", "SenderBaseKey", "HasSenderChain", "HasUnacknowledgedPreKeyMessage", "HasPendingKeyExchange"} {
		x, y := s.method(a, m), s.method(b, m)
		if m == "SenderBaseKey" {
			x, y = s.bytes(x), s.bytes(y)
		}
		s.eq(rule, what+m, y, x)
	}
	id := func(v *Term, m string) *Term { return s.pubBytes(s.method(s.method(v, m), "PublicKey")) }
	for _, m := range []string{"RemoteIdentityKey", "LocalIdentityKey"} {
		s.eq(rule, what+m, id(b, m), id(a, m))
	}
	s.eq(rule, what+"RootKey", s.bytes(s.method(s.method(b, "RootKey"), "Bytes")), s.bytes(s.method(s.method(a, "RootKey"), "Bytes")))
	half := func(v *Term, m string) *Term {
		k := s.method(s.method(v, "SenderRatchetKeyPair"), m)
		if m == "PublicKey" {
			return s.pubBytes(k)
		}
		return s.bytes(s.method(k, "Serialize"))
	}
	s.eq(rule, what+"public sending ratchet key", half(b, "PublicKey"), half(a, "PublicKey"))
	s.eq(rule, what+"private sending ratchet key", half(b, "PrivateKey"), half(a, "PrivateKey"))
	s.eq(rule, what+"sending chain key", s.bytes(s.method(s.method(b, "SenderChainKey"), "Key")), s.bytes(s.method(s.method(a, "SenderChainKey"), "Key")))
	s.eq(rule, what+"sending chain index", s.method(s.method(b, "SenderChainKey"), "Index"), s.method(s.method(a, "SenderChainKey"), "Index"))
	// the loaded root key works
	s.peek(func() {
		pair, _, _ := s.anyPair("ourRatchet")
		pub := s.iface(s.pubKey(s.input("theirRatchet", "[32]byte")))
		x := s.method(s.method(a, "RootKey"), "CreateChain", pub, pair)
		y := s.method(s.method(b, "RootKey"), "CreateChain", pub, pair)
		s.iff(rule, what+"root key step", okOf(y), okOf(x))
		s.assume(and(okOf(x), okOf(y)))
		s.eq(rule, what+"root key step: root", s.rootBytes(res(y, 0)), s.rootBytes(res(x, 0)))
		s.eq(rule, what+"root key step: chain", s.chainBytes(res(y, 0)), s.chainBytes(res(x, 0)))
	})
	s.at(s.method(a, "HasUnacknowledgedPreKeyMessage"), func() {
		x, y := s.method(a, "UnackPreKeyMessageItems"), s.method(b, "UnackPreKeyMessageItems")
		s.holds(rule, what+"pending prekey", and(okOf(x), okOf(y)))
		s.assume(and(okOf(x), okOf(y)))
		x, y = res(x, 0), res(y, 0)
		s.eq(rule, what+"pending signed prekey id", s.method(y, "SignedPreKeyID"), s.method(x, "SignedPreKeyID"))
		s.eq(rule, what+"pending base key", s.pubBytes(s.method(y, "BaseKey")), s.pubBytes(s.method(x, "BaseKey")))
		s.eq(rule, what+"pending prekey id", s.deep(s.method(y, "PreKeyID")), s.deep(s.method(x, "PreKeyID")))
	})
	s.at(s.method(a, "HasPendingKeyExchange"), func() {
		s.eq(rule, what+"pending key exchange", s.method(b, "PendingKeyExchangeSequence"), s.method(a, "PendingKeyExchangeSequence"))
		for _, m := range []string{"PendingKeyExchangeBaseKeyPair", "PendingKeyExchangeRatchetKeyPair", "PendingKeyExchangeIdentityKeyPair"} {
			x, y := s.method(a, m), s.method(b, m)
			pb := func(v *Term) *Term {
				k := s.method(v, "PublicKey")
				if m == "PendingKeyExchangeIdentityKeyPair" {
					k = s.method(k, "PublicKey")
				}
				return s.pubBytes(k)
			}
			s.eq(rule, what+m+" public", pb(y), pb(x))
			s.eq(rule, what+m+" private", s.bytes(s.method(s.method(y, "PrivateKey"), "Serialize")), s.bytes(s.method(s.method(x, "PrivateKey"), "Serialize")))
		}
	})
	e := s.iface(s.pubKey(s.input("ephemeral", "[32]byte")))
	h := s.method(a, "HasReceiverChain", e)
	s.iff(rule, what+"HasReceiverChain", s.method(b, "HasReceiverChain", e), h)
	s.at(h, func() {
		x, y := s.method(a, "ReceiverChainKey", e), s.method(b, "ReceiverChainKey", e)
		s.eq(rule, what+"receiving chain key", s.bytes(s.method(y, "Key")), s.bytes(s.method(x, "Key")))
		s.eq(rule, what+"receiving chain index", s.method(y, "Index"), s.method(x, "Index"))
		mx, my := s.method(x, "MessageKeys"), s.method(y, "MessageKeys")
		s.eq(rule, what+"receiving chain message keys", s.bytes(s.method(my, "CipherKey")), s.bytes(s.method(mx, "CipherKey")))
		n := s.input("counter", "uint32")
		k := s.method(a, "HasMessageKeys", e, n)
		s.iff(rule, what+"HasMessageKeys", s.method(b, "HasMessageKeys", e, n), k)
	})
}

func (s *scn) snapOf(v *Term, suffix string) *Term {
	m, o := s.mark(), len(s.in.obls)
	s.method(v, "Serialize")
	s.in.obls = s.in.obls[:o]
	for _, e := range s.events(m, suffix) {
		return s.deep(e.args[1])
	}
	for _, e := range s.events(m, "marshal:json") {
		v := e.args[0]
		if v.op == OIface {
			v = v.args[0]
		}
		return s.deep(v)
	}
	panic(undecided("no structure"))
}

// likewise: two structures hold the same, in the same order.
func (s *scn) likewise(rule, what string, a, b *Term) { s.eq(rule, what, s.plain(b), s.plain(a)) }

// plain replaces slices by the sequences they hold.
func (s *scn) plain(v *Term) *Term {
	var rec func(v *Term) *Term
	rec = func(v *Term) *Term {
		return lift(func(x []*Term) *Term {
			v := x[0]
			switch v.op {
			case OSeqv:
				return rec(v.args[1])
			case OGen:
				i := freshInt("d")
				fnBounds[i.name] = fnBoundsNat
				return tGen(v.args[0], rec(bindOpen(v.args[1], v.k, i)), i)
			case OStruct:
				st, _ := v.typ.Underlying().(*types.Struct)
				args := make([]*Term, len(v.args))
				for i, a := range v.args {
					if st != nil {
						if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
							args[i] = noEmpty(lift(func(y []*Term) *Term {
								if y[0] == tNil {
									return tEmpty
								}
								return rec(y[0])
							}, a))
							continue
						}
					}
					args[i] = rec(a)
				}
				return mk(&Term{op: OStruct, typ: v.typ, args: args})
			case OObj, OUnit:
				return mk(&Term{op: v.op, args: []*Term{rec(v.args[0])}})
			case OCat:
				ps := make([]*Term, len(v.args))
				for i, p := range v.args {
					ps[i] = rec(p)
				}
				return tCat(ps...)
			}
			return v
		}, v)
	}
	return simp(rec(simp(v, s.st.g)), s.st.g)
}

// noEmpty writes [nothing in s ? empty : s] as s.
func noEmpty(v *Term) *Term {
	if v.op != OIte {
		return v
	}
	a, b := v.args[1], v.args[2]
	if a == tEmpty && isSeq(b) && simp(tLen(b), v.args[0]) == tZero {
		return b
	}
	if b == tEmpty && isSeq(a) && simp(tLen(a), not(v.args[0])) == tZero {
		return a
	}
	return v
}

func c11(c *ctx) {
	for _, kind := range serializerKinds[:2] {
		kind := kind
		c.scenario("state, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "State", "state/record.NewStateFromBytes", 1)
			st0 := s.input("state", "*state/record.State")
			s.established(st0)
			// the same state, kept by this serializer
			q := s.call("state/record.NewStateFromStructure", s.structureOf(st0, "StateSerializer.Serialize"), ser)
			s.holds("state.load", "a state loads from its structure", okOf(q))
			s.assume(okOf(q))
			st1 := res(q, 0)
			s.sameState("state.methods", "from structure: ", st0, st1)
			p := s.call("state/record.NewStateFromBytes", s.method(st1, "Serialize"), ser)
			s.holds("state.load", "a state loads from its bytes", okOf(p))
			s.assume(okOf(p))
			s.sameState("state.methods", "from bytes: ", st1, res(p, 0))
			s.likewise("state.structure", "structure", s.snapOf(st1, "Serialize"), s.snapOf(res(p, 0), "Serialize"))
			s.likewise("state.structure", "structure at first", s.snapOf(st0, "Serialize"), s.snapOf(st1, "Serialize"))
		})
	}
	c.scenario("a stored state, loaded and stored again", func(s *scn) {
		ser := s.serializerOf(serializerKinds[0], "State", "state/record.NewStateFromBytes", 1)
		str := s.input("structure", "*state/record.StateStructure")
		s.assume(not(isNil(str)))
		s.assume(not(isNil(s.fld(str, "SenderChain"))))
		before := s.deep(str)
		q := s.call("state/record.NewStateFromStructure", str, ser)
		s.assume(okOf(q))
		s.reach("state.kept", "a structure loads")
		again := s.snapOf(res(q, 0), "Serialize")
		for _, f := range []string{"LocalRegistrationID", "RemoteRegistrationID", "NeedsRefresh", "PreviousCounter", "SessionVersion"} {
			s.eq("state.kept", f, s.df(again, f), s.df(before, f))
		}
	})
	for _, kind := range serializerKinds[:2] {
		kind := kind
		c.scenario("session, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "Session", "state/record.NewSessionFromBytes", 1)
			sts := s.serializerOf(kind, "State", "state/record.NewStateFromBytes", 1)
			r0 := s.input("record", "*state/record.Session")
			prev := s.sq(s.method(r0, "PreviousSessionStates"))
			_, ex := s.first(prev, func(e *Term) *Term { return not(asBoolT(s.method(e, "HasSenderChain"))) })
			s.assume(not(ex))
			s.established(s.method(r0, "SessionState"))
			q := s.call("state/record.NewSessionFromStructure", s.structureOf(r0, "SessionSerializer.Serialize"), ser, sts)
			s.holds("record.load", "a record loads from its structure", okOf(q))
			s.assume(okOf(q))
			r1 := res(q, 0)
			p := s.call("state/record.NewSessionFromBytes", s.method(r1, "Serialize"), ser, sts)
			s.holds("record.load", "a record loads from its bytes", okOf(p))
			s.assume(okOf(p))
			r2 := res(p, 0)
			s.likewise("record.structure", "structure at first", s.snapOf(r0, "Serialize"), s.snapOf(r1, "Serialize"))
			s.likewise("record.structure", "structure", s.snapOf(r1, "Serialize"), s.snapOf(r2, "Serialize"))
			for _, w := range []string{"from structure: ", "from bytes: "} {
				r := map[string]*Term{"from structure: ": r1, "from bytes: ": r2}[w]
				s.holds("record.methods", w+"not fresh", not(asBoolT(s.method(r, "IsFresh"))))
				s.sameState("record.current", w, s.method(r0, "SessionState"), s.method(r, "SessionState"))
				got := s.sq(s.method(r, "PreviousSessionStates"))
				s.eq("record.archived", w+"number of archived states", tLen(got), tLen(prev))
				s.anyIndex(tLen(prev), func(j *Term) {
					a, b := s.el(prev, j), s.el(got, j)
					s.established(a)
					s.sameState("record.archived", w+"archived: ", a, b)
				})
			}
		})
	}
}

func (s *scn) structureOf(v *Term, suffix string) *Term {
	m := s.mark()
	s.method(v, "Serialize")
	for _, e := range s.events(m, suffix) {
		return e.args[1]
	}
	panic(undecided("no structure"))
}

// sameSenderState: two sender key states behave alike.
func (s *scn) sameSenderState(rule, what string, a, b *Term) {
	s.eq(rule, what+"key id", s.method(b, "KeyID"), s.method(a, "KeyID"))
	ck := func(v *Term) *Term { return s.method(v, "SenderChainKey") }
	s.eq(rule, what+"iteration", s.method(ck(b), "Iteration"), s.method(ck(a), "Iteration"))
	s.eq(rule, what+"chain key", s.bytes(s.method(ck(b), "Seed")), s.bytes(s.method(ck(a), "Seed")))
	k := func(v *Term, m string) *Term { return s.method(s.method(v, "SigningKey"), m) }
	s.eq(rule, what+"public signing key", s.pubBytes(k(b, "PublicKey")), s.pubBytes(k(a, "PublicKey")))
	pa, pb := k(a, "PrivateKey"), k(b, "PrivateKey")
	s.iff(rule, what+"private signing key present", isNil(pb), isNil(pa))
	s.at(not(isNil(pa)), func() {
		s.reach(rule, what+"private signing key")
		s.eq(rule, what+"private signing key", s.bytes(s.method(k(b, "PrivateKey"), "Serialize")), s.bytes(s.method(k(a, "PrivateKey"), "Serialize")))
	})
	s.at(isNil(pa), func() { s.reach(rule, what+"no private signing key") })
	n := s.input("iteration", "uint32")
	h := s.method(a, "HasSenderMessageKey", n)
	s.iff(rule, what+"HasSenderMessageKey", s.method(b, "HasSenderMessageKey", n), h)
	s.at(h, func() {
		x, y := s.method(a, "RemoveSenderMessageKey", n), s.method(b, "RemoveSenderMessageKey", n)
		s.eq(rule, what+"skipped key iteration", s.method(y, "Iteration"), s.method(x, "Iteration"))
		for _, m := range []string{"Iv", "CipherKey", "Seed"} {
			s.eq(rule, what+"skipped key "+m, s.bytes(s.method(y, m)), s.bytes(s.method(x, m)))
		}
	})
}

func c12(c *ctx) {
	for _, kind := range serializerKinds[:2] {
		kind := kind
		c.scenario("sender key state, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "SenderKeyState", "groups/state/record.NewSenderKeyStateFromBytes", 1)
			st0 := s.input("state", "*groups/state/record.SenderKeyState")
			q := s.call("groups/state/record.NewSenderKeyStateFromStructure", s.structureOf(st0, "StateSerializer.Serialize"), ser)
			s.holds("state.load", "a state loads from its structure", okOf(q))
			s.assume(okOf(q))
			st1 := res(q, 0)
			p := s.call("groups/state/record.NewSenderKeyStateFromBytes", s.method(st1, "Serialize"), ser)
			s.holds("state.load", "a state loads from its bytes", okOf(p))
			s.assume(okOf(p))
			s.likewise("state.structure", "structure at first", s.snapOf(st0, "Serialize"), s.snapOf(st1, "Serialize"))
			s.likewise("state.structure", "structure", s.snapOf(st1, "Serialize"), s.snapOf(res(p, 0), "Serialize"))
			s.sameSenderState("state.methods", "from structure: ", st0, st1)
			s.sameSenderState("state.methods", "from bytes: ", st0, res(p, 0))
		})
		c.scenario("sender key record, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "SenderKeyRecord", "groups/state/record.NewSenderKeyFromBytes", 1)
			sts := s.serializerOf(kind, "SenderKeyState", "groups/state/record.NewSenderKeyStateFromBytes", 1)
			r0 := s.input("record", "*groups/state/record.SenderKey")
			q := s.call("groups/state/record.NewSenderKeyFromStruct", s.structureOf(r0, "Serializer.Serialize"), ser, sts)
			s.holds("record.load", "a record loads from its structure", okOf(q))
			s.assume(okOf(q))
			r1 := res(q, 0)
			p := s.call("groups/state/record.NewSenderKeyFromBytes", s.method(r1, "Serialize"), ser, sts)
			s.holds("record.load", "a record loads from its bytes", okOf(p))
			s.assume(okOf(p))
			r2 := res(p, 0)
			s.likewise("record.structure", "structure at first", s.snapOf(r0, "Serialize"), s.snapOf(r1, "Serialize"))
			s.likewise("record.structure", "structure", s.snapOf(r1, "Serialize"), s.snapOf(r2, "Serialize"))
			id := s.input("keyid", "uint32")
			for _, w := range []string{"from structure: ", "from bytes: "} {
				r := map[string]*Term{"from structure: ": r1, "from bytes: ": r2}[w]
				s.iff("record.methods", w+"IsEmpty", s.method(r, "IsEmpty"), s.method(r0, "IsEmpty"))
				x, y := s.method(r0, "SenderKeyState"), s.method(r, "SenderKeyState")
				s.iff("record.methods", w+"SenderKeyState", okOf(y), okOf(x))
				s.at(and(okOf(x), okOf(y)), func() {
					s.reach("record.methods", w+"a first state")
					s.sameSenderState("record.first", w+"first state: ", res(x, 0), res(y, 0))
				})
				x, y = s.method(r0, "GetSenderKeyStateByID", id), s.method(r, "GetSenderKeyStateByID", id)
				s.iff("record.methods", w+"GetSenderKeyStateByID", okOf(y), okOf(x))
				s.at(and(okOf(x), okOf(y)), func() {
					s.reach("record.methods", w+"a state with a key id")
					s.sameSenderState("record.byid", w+"state with a key id: ", res(x, 0), res(y, 0))
				})
				// it can still be added to
				s.peek(func() {
					s.assume(lt(tLen(s.sq(s.df(s.snapOf(r0, "Serialize"), "SenderKeyStates"))), tInt(maxKept)))
					k := s.iface(s.pubKey(s.input("newkey", "[32]byte")))
					ck := s.input("newchain", "[]byte")
					s.method(r, "AddSenderKeyState", id, s.input("newiteration", "uint32"), ck, k)
					z := s.method(r, "GetSenderKeyStateByID", id)
					s.holds("record.usable", w+"a state can be added", okOf(z))
				})
			}
		})
	}
}

func init() {
	reg("C12", 100, "sender key states and records with any number of states and skipped keys, stored and loaded by structure and by bytes, with any serializer that keeps what it is given and with the JSON one; methods and structures compared", c12)
	reg("C11", 400, "session states and records with any number of chains, kept keys and archived states, stored and loaded by structure and by bytes, with any serializer that keeps what it is given and with the JSON one; methods and structures compared", c11)
	reg("C13", 20, "records with unknown key pairs, ids, timestamps and signatures, stored and loaded with any serializer that keeps what it is given and with the JSON one", c13)
}
