package main

// C01, C02, C03: key agreement, key schedule and message authentication.

import (
	"go/types"
)

// fld is an exported field of the structure a pointer designates.
func (s *scn) fld(p *Term, name string) *Term {
	return lift(func(x []*Term) *Term {
		v := x[0]
		if v.op == OIface {
			v = v.args[0]
		}
		if v.op == OPtr || v.op == OFAddr {
			v = load(s.st.h, v)
		}
		if v.op != OStruct {
			panic(undecided("field " + name + " of " + str(v)))
		}
		st := v.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return v.args[i]
			}
		}
		panic(undecided("no field " + name + " in " + v.typ.String()))
	}, simp(p, s.st.g))
}

// kp is a key pair whose public key belongs to its private key.
func (s *scn) kp(name string) (pair, pub, priv *Term) {
	priv = s.input(name, "[32]byte")
	pub = tPub(priv)
	pair = s.call("ecc.NewECKeyPair", s.call("ecc.NewDjbECPublicKey", pub), s.call("ecc.NewDjbECPrivateKey", priv))
	return
}

func (s *scn) pubKey(k *Term) *Term { return s.call("ecc.NewDjbECPublicKey", k) }

func (s *scn) idKey(k *Term) *Term { return s.call("keys/identity.NewKey", s.pubKey(k)) }

func (s *scn) idPair(name string) (pair, pub, priv *Term) {
	priv = s.input(name, "[32]byte")
	pub = tPub(priv)
	pair = s.call("keys/identity.NewKeyPair", s.idKey(pub), s.call("ecc.NewDjbECPrivateKey", priv))
	return
}

// anyPair is a key pair with unrelated halves.
func (s *scn) anyPair(name string) (pair, pub, priv *Term) {
	priv, pub = s.input(name+".priv", "[32]byte"), s.input(name+".pub", "[32]byte")
	pair = s.call("ecc.NewECKeyPair", s.pubKey(pub), s.call("ecc.NewDjbECPrivateKey", priv))
	return
}

func (s *scn) anyIDPair(name string) (pair, pub, priv *Term) {
	priv, pub = s.input(name+".priv", "[32]byte"), s.input(name+".pub", "[32]byte")
	pair = s.call("keys/identity.NewKeyPair", s.idKey(pub), s.call("ecc.NewDjbECPrivateKey", priv))
	return
}

func (s *scn) rootBytes(pair *Term) *Term {
	return s.bytes(s.method(s.fld(pair, "RootKey"), "Bytes"))
}

func (s *scn) chainBytes(pair *Term) *Term {
	return s.bytes(s.method(s.fld(pair, "ChainKey"), "Key"))
}

func (s *scn) chainIndex(pair *Term) *Term { return s.method(s.fld(pair, "ChainKey"), "Index") }

func ffs() *Term { return tRep(tInt(255), tInt(32)) }

// x3dh is the pair of keys the specification derives from agreements.
func x3dh(dhs ...*Term) (root, chain *Term) {
	t := tHKDF(tCat(append([]*Term{ffs()}, dhs...)...), tEmpty, tBytes("WhisperText"), tInt(64))
	return tSub(t, tZero, tInt(32)), tSub(t, tInt(32), tInt(32))
}

func (s *scn) keysEq(rule, what string, pair, root, chain *Term) {
	s.eq(rule, what+" root key", s.rootBytes(pair), root)
	s.eq(rule, what+" chain key", s.chainBytes(pair), chain)
	s.eq(rule, what+" chain index", s.chainIndex(pair), tZero)
}

func c01(c *ctx) {
	for _, one := range []bool{false, true} {
		one := one
		sfx := " without a one-time prekey"
		if one {
			sfx = " with a one-time prekey"
		}
		c.scenario("sender"+sfx, func(s *scn) {
			id, _, idp := s.anyIDPair("ourIdentity")
			base, _, bp := s.anyPair("ourBase")
			tid, tsp, trk, totp := s.input("theirIdentity", "[32]byte"), s.input("theirSigned", "[32]byte"), s.input("theirRatchet", "[32]byte"), s.input("theirOneTime", "[32]byte")
			ot := tNil
			dhs := []*Term{tDH(tsp, idp), tDH(tid, bp), tDH(tsp, bp)}
			if one {
				ot = s.pubKey(totp)
				dhs = append(dhs, tDH(totp, bp))
			}
			p := s.call("ratchet.NewSenderParameters", id, base, s.idKey(tid), s.pubKey(tsp), s.pubKey(trk), ot)
			r := s.call("ratchet.CalculateSenderSession", p)
			s.assume(okOf(r))
			rk, ck := x3dh(dhs...)
			s.keysEq("x3dh.sender", "CalculateSenderSession"+sfx, res(r, 0), rk, ck)
			q := s.call("ratchet.NewEmptySenderParameters")
			s.method(q, "SetOurIdentityKey", id)
			s.method(q, "SetOurBaseKey", base)
			s.method(q, "SetTheirIdentityKey", s.idKey(tid))
			s.method(q, "SetTheirSignedPreKey", s.iface(s.pubKey(tsp)))
			s.method(q, "SetTheirRatchetKey", s.iface(s.pubKey(trk)))
			if one {
				s.method(q, "SetTheirOneTimePreKey", s.iface(ot))
			}
			r2 := s.call("ratchet.CalculateSenderSession", q)
			s.assume(okOf(r2))
			s.keysEq("x3dh.sender", "CalculateSenderSession of set parameters"+sfx, res(r2, 0), rk, ck)
		})
		c.scenario("receiver"+sfx, func(s *scn) {
			id, _, idp := s.anyIDPair("ourIdentity")
			sp, _, spp := s.anyPair("ourSigned")
			rp, _, _ := s.anyPair("ourRatchet")
			op, _, opp := s.anyPair("ourOneTime")
			tid, tb := s.input("theirIdentity", "[32]byte"), s.input("theirBase", "[32]byte")
			dhs := []*Term{tDH(tid, spp), tDH(tb, idp), tDH(tb, spp)}
			ot := tNil
			if one {
				ot = op
				dhs = append(dhs, tDH(tb, opp))
			}
			p := s.call("ratchet.NewReceiverParameters", id, sp, ot, rp, s.pubKey(tb), s.idKey(tid))
			r := s.call("ratchet.CalculateReceiverSession", p)
			s.assume(okOf(r))
			rk, ck := x3dh(dhs...)
			s.keysEq("x3dh.receiver", "CalculateReceiverSession"+sfx, res(r, 0), rk, ck)
			q := s.call("ratchet.NewEmptyReceiverParameters")
			s.method(q, "SetOurIdentityKeyPair", id)
			s.method(q, "SetOurSignedPreKey", sp)
			s.method(q, "SetOurRatchetKey", rp)
			s.method(q, "SetTheirBaseKey", s.iface(s.pubKey(tb)))
			s.method(q, "SetTheirIdentityKey", s.idKey(tid))
			if one {
				s.method(q, "SetOurOneTimePreKey", ot)
			}
			r2 := s.call("ratchet.CalculateReceiverSession", q)
			s.assume(okOf(r2))
			s.keysEq("x3dh.receiver", "CalculateReceiverSession of set parameters"+sfx, res(r2, 0), rk, ck)
		})
		c.scenario("agreement"+sfx, func(s *scn) {
			ida, idaPub, _ := s.idPair("identityA")
			idb, idbPub, _ := s.idPair("identityB")
			base, basePub, _ := s.kp("baseA")
			spk, spkPub, _ := s.kp("signedB")
			opk, opkPub, _ := s.kp("oneTimeB")
			otA, otB := tNil, tNil
			if one {
				otA, otB = s.pubKey(opkPub), opk
			}
			pa := s.call("ratchet.NewSenderParameters", ida, base, s.idKey(idbPub), s.pubKey(spkPub), s.pubKey(spkPub), otA)
			ra := s.call("ratchet.CalculateSenderSession", pa)
			s.assume(okOf(ra))
			pb := s.call("ratchet.NewReceiverParameters", idb, spk, otB, spk, s.pubKey(basePub), s.idKey(idaPub))
			rb := s.call("ratchet.CalculateReceiverSession", pb)
			s.assume(okOf(rb))
			s.reach("x3dh.agree", "both sides succeed"+sfx)
			s.keysEq("x3dh.agree", "responder"+sfx, res(rb, 0), s.rootBytes(res(ra, 0)), s.chainBytes(res(ra, 0)))
		})
	}
	c.scenario("symmetric", func(s *scn) {
		ida, idaPub, _ := s.idPair("identityA")
		idb, idbPub, _ := s.idPair("identityB")
		ba, baPub, _ := s.kp("baseA")
		bb, bbPub, _ := s.kp("baseB")
		ra, raPub, _ := s.kp("ratchetA")
		rb, rbPub, _ := s.kp("ratchetB")
		s.assume(not(tEq(baPub, bbPub)))
		pa := s.build("ratchet.SymmetricParameters", map[string]*Term{"OurBaseKey": ba, "OurRatchetKey": ra, "OurIdentityKeyPair": ida, "TheirBaseKey": s.iface(s.pubKey(bbPub)), "TheirRatchetKey": s.iface(s.pubKey(rbPub)), "TheirIdentityKey": s.idKey(idbPub)})
		pb := s.build("ratchet.SymmetricParameters", map[string]*Term{"OurBaseKey": bb, "OurRatchetKey": rb, "OurIdentityKeyPair": idb, "TheirBaseKey": s.iface(s.pubKey(baPub)), "TheirRatchetKey": s.iface(s.pubKey(raPub)), "TheirIdentityKey": s.idKey(idaPub)})
		r1 := s.call("ratchet.CalculateSymmetricSession", pa)
		s.assume(okOf(r1))
		r2 := s.call("ratchet.CalculateSymmetricSession", pb)
		s.assume(okOf(r2))
		s.reach("x3dh.symmetric", "both sides succeed")
		s.keysEq("x3dh.symmetric", "other side", res(r2, 0), s.rootBytes(res(r1, 0)), s.chainBytes(res(r1, 0)))
	})
}

// iface puts a pointer into an interface value.
func (s *scn) iface(p *Term) *Term {
	if p.op == OPtr {
		return mk(&Term{op: OIface, typ: types.NewPointer(bases[p.k].typ), args: []*Term{p}})
	}
	return p
}

// build is a new structure with the given exported fields.
func (s *scn) build(typ string, f map[string]*Term) *Term {
	t := s.p.typeNamed(typ)
	st := t.Underlying().(*types.Struct)
	v := zeroOf(t)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if x, ok := f[st.Field(i).Name()]; ok {
			v = setField(v, i, x)
			n++
		}
	}
	if n != len(f) {
		panic(undecided("fields of " + typ))
	}
	return s.box(v)
}

// newSlice is a slice of an object of its own.
func (s *scn) slice(v *Term) *Term {
	s.n++
	return s.in.newSlice(s.st, "slice"+string(rune('a'+s.n%26))+str(tInt(int64(s.n))), byteT, v, nil)
}

// ---------- C02 ----------

func mkeys(k *Term) *Term {
	return tHKDF(tHMAC("sha256", k, tBytes("\x01")), tEmpty, tBytes("WhisperMessageKeys"), tInt(80))
}

func (s *scn) keysAre(rule, what string, mk, k, index *Term) {
	m := mkeys(k)
	s.eq(rule, what+" cipher key", s.bytes(s.method(mk, "CipherKey")), tSub(m, tZero, tInt(32)))
	s.eq(rule, what+" MAC key", s.bytes(s.method(mk, "MacKey")), tSub(m, tInt(32), tInt(32)))
	s.eq(rule, what+" IV", s.bytes(s.method(mk, "Iv")), tSub(m, tInt(64), tInt(16)))
	s.eq(rule, what+" index", s.method(mk, "Index"), index)
}

func nextChain(k *Term) *Term { return tHMAC("sha256", k, tBytes("\x02")) }

func c02(c *ctx) {
	c.scenario("chain key", func(s *scn) {
		k, i := s.input("key", "[]byte"), s.input("index", "uint32")
		k0 := s.bytes(k)
		ck := s.call("keys/chain.NewKey", s.kdf(), k, i)
		s.keysAre("ratchet.message-keys", "chain.Key.MessageKeys", s.method(ck, "MessageKeys"), k0, i)
		nk := s.method(ck, "NextKey")
		s.eq("ratchet.chain", "chain.Key.NextKey", s.bytes(s.method(nk, "Key")), nextChain(k0))
		s.at(lt(i, tInt(1<<32-1)), func() {
			s.eq("ratchet.chain", "chain.Key.NextKey index", s.method(nk, "Index"), addi(i, 1))
		})
		s.eq("ratchet.chain", "chain.Key.Key unchanged", s.bytes(s.method(ck, "Key")), k0)
		s.eq("ratchet.chain", "chain.Key.Index unchanged", s.method(ck, "Index"), i)
		s.keysAre("ratchet.message-keys", "chain.Key.MessageKeys of the next key", s.method(nk, "MessageKeys"), nextChain(k0), s.method(nk, "Index"))
		n2 := s.method(nk, "NextKey")
		s.eq("ratchet.chain", "chain.Key.NextKey twice", s.bytes(s.method(n2, "Key")), nextChain(nextChain(k0)))
	})
	c.scenario("root key", func(s *scn) {
		r := s.input("root", "[]byte")
		r0 := s.bytes(r)
		pair, _, priv := s.anyPair("ourRatchet")
		pub := s.input("theirRatchet", "[32]byte")
		rk := s.call("keys/root.NewKey", s.kdf(), r)
		x := s.method(rk, "CreateChain", s.iface(s.pubKey(pub)), pair)
		s.assume(okOf(x))
		s.reach("ratchet.root", "root.Key.CreateChain succeeds")
		t := tHKDF(tDH(pub, priv), r0, tBytes("WhisperRatchet"), tInt(64))
		s.keysEq("ratchet.root", "root.Key.CreateChain", res(x, 0), tSub(t, tZero, tInt(32)), tSub(t, tInt(32), tInt(32)))
		s.eq("ratchet.root", "root.Key.Bytes unchanged", s.bytes(s.method(rk, "Bytes")), r0)
		// the new root key is usable for the next step
		pub2 := s.input("theirRatchet2", "[32]byte")
		y := s.method(s.fld(res(x, 0), "RootKey"), "CreateChain", s.iface(s.pubKey(pub2)), pair)
		s.assume(okOf(y))
		t2 := tHKDF(tDH(pub2, priv), tSub(t, tZero, tInt(32)), tBytes("WhisperRatchet"), tInt(64))
		s.keysEq("ratchet.root", "root.Key.CreateChain again", res(y, 0), tSub(t2, tZero, tInt(32)), tSub(t2, tInt(32), tInt(32)))
	})
}

// ---------- C03 ----------

// env calls a method of an interface of the environment.
func (s *scn) env(iface, m string, recv *Term, args ...*Term) *Term {
	n := s.p.typeNamed(iface)
	it := n.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if f := it.Method(i); f.Name() == m {
			s.n++
			return s.in.envCall(s.st, iface+"."+m, append([]*Term{recv}, args...), f.Type().(*types.Signature), "e"+tInt(int64(s.n)).n.String(), f.Pos())
		}
	}
	panic(undecided("no method " + m + " in " + iface))
}

const sigSer = "protocol.SignalMessageSerializer"

func enc5(k *Term) *Term { return tCat(tBytes("\x05"), k) }

// macOf is the MAC of a message by the specification.
func (s *scn) macOf(version, wireVersion, sid, rid, key, ser, ratchet, counter, prev, text *Term) *Term {
	st := s.build("protocol.SignalMessageStructure", map[string]*Term{"RatchetKey": s.slice(ratchet), "Counter": counter, "PreviousCounter": prev, "CipherText": text})
	body := s.bytes(s.env(sigSer, "Serialize", ser, st))
	seqInfos["decimal"] = seqInfo{-1, byteT}
	v := fnL("decimal", wireVersion)
	if wireVersion.op == OInt {
		v = tBytes(wireVersion.n.String())
	}
	with := tSub(tHMAC("sha256", key, tCat(enc5(sid), enc5(rid), v, body)), tZero, tInt(8))
	without := tSub(tHMAC("sha256", key, tCat(v, body)), tZero, tInt(8))
	return ite(le(tInt(3), version), with, without)
}

func c03(c *ctx) {
	c.scenario("sender", func(s *scn) {
		a := s.args("protocol.NewSignalMessage", "version", "counter", "previous", "mackey", "ratchet", "text", "sender", "receiver", "serializer")
		sid, rid, rk := s.input("sid", "[32]byte"), s.input("rid", "[32]byte"), s.input("rk", "[32]byte")
		a[4], a[6], a[7] = s.pubKey(rk), s.idKey(sid), s.idKey(rid)
		key, text := s.bytes(a[3]), s.bytes(a[5])
		m0 := s.mark()
		r := s.call("protocol.NewSignalMessage", a...)
		_ = m0
		s.assume(okOf(r))
		s.reach("mac.sender", "NewSignalMessage succeeds")
		st := s.method(res(r, 0), "Structure")
		want := s.macOf(a[0], a[0], sid, rid, key, a[8], enc5(rk), a[1], a[2], a[5])
		s.eq("mac.sender", "NewSignalMessage MAC", s.bytes(s.fld(st, "Mac")), want)
		s.eq("mac.sender", "NewSignalMessage version", s.fld(st, "Version"), a[0])
		s.eq("mac.sender", "NewSignalMessage counter", s.fld(st, "Counter"), a[1])
		s.eq("mac.sender", "NewSignalMessage previous counter", s.fld(st, "PreviousCounter"), a[2])
		s.eq("mac.sender", "NewSignalMessage ratchet key", s.bytes(s.fld(st, "RatchetKey")), enc5(rk))
		s.eq("mac.sender", "NewSignalMessage ciphertext", s.bytes(s.fld(st, "CipherText")), text)
		s.eq("mac.sender", "SignalMessage.Serialize", s.bytes(s.method(res(r, 0), "Serialize")), s.bytes(s.env(sigSer, "Serialize", a[8], st)))
	})
	c.scenario("receiver", func(s *scn) {
		b := s.input("structure", "*protocol.SignalMessageStructure")
		ser := s.args("protocol.NewSignalMessageFromStruct", "structure", "serializer")[1]
		f := func(n string) *Term { return s.fld(b, n) }
		rk, mac, text, cn, pn, ver := s.bytes(f("RatchetKey")), s.bytes(f("Mac")), f("CipherText"), f("Counter"), f("PreviousCounter"), f("Version")
		r := s.call("protocol.NewSignalMessageFromStruct", b, ser)
		s.assume(okOf(r))
		sid, rid := s.input("sid", "[32]byte"), s.input("rid", "[32]byte")
		key, v := s.input("mackey", "[]byte"), s.input("version", "int")
		k0 := s.bytes(key)
		before := s.deep(s.method(res(r, 0), "Structure"))
		m := s.mark()
		e := s.method(res(r, 0), "VerifyMac", v, s.idKey(sid), s.idKey(rid), key)
		want := s.macOf(v, ver, sid, rid, k0, ser, rk, cn, pn, text)
		s.iff("mac.receiver", "VerifyMac succeeds exactly for the right MAC", isNil(e), tEq(mac, want))
		s.eq("mac.receiver", "VerifyMac leaves the message", s.deep(s.method(res(r, 0), "Structure")), before)
		s.at(isNil(e), func() {
			s.reach("mac.receiver", "VerifyMac can succeed")
			n := 0
			for _, ev := range s.events(m, "hmac.Equal") {
				x, y := simp(ev.args[0], s.st.g), simp(ev.args[1], s.st.g)
				w := simp(want, s.st.g)
				if x == w || y == w || x == mac || y == mac {
					n++
				}
			}
			s.ob("mac.constant-time", s.name2("VerifyMac"), s.pos, n > 0, func() string { return "the MAC is not compared by hmac.Equal or subtle.ConstantTimeCompare" })
		})
	})
	c.scenario("both", func(s *scn) {
		a := s.args("protocol.NewSignalMessage", "version", "counter", "previous", "mackey", "ratchet", "text", "sender", "receiver", "serializer")
		sid, rid, rk := s.input("sid", "[32]byte"), s.input("rid", "[32]byte"), s.input("rk", "[32]byte")
		a[4], a[6], a[7] = s.pubKey(rk), s.idKey(sid), s.idKey(rid)
		r := s.call("protocol.NewSignalMessage", a...)
		s.assume(okOf(r))
		data := s.method(res(r, 0), "Serialize")
		q := s.call("protocol.NewSignalMessageFromBytes", data, a[8])
		s.holds("mac.roundtrip", "NewSignalMessageFromBytes succeeds", okOf(q))
		s.assume(okOf(q))
		e := s.method(res(q, 0), "VerifyMac", a[0], s.idKey(sid), s.idKey(rid), a[3])
		s.holds("mac.roundtrip", "VerifyMac of a decoded message succeeds", isNil(e))
	})
}

func (s *scn) kdf() *Term { return mk(&Term{op: OFunc, fn: s.fn("kdf.DeriveSecrets")}) }

func init() {
	reg("C01", 150, "both derivations (all cases of one-time prekeys and roles) on unknown keys, compared term by term with the key agreement of the specification; and what processing bundles and prekey messages installs", func(c *ctx) { c01(c); c01p(c); c01b(c) })
	reg("C02", 60, "chain, message and root key steps on unknown keys, and the ratchet step DecryptWithState performs on an unknown state and message, compared with the specification", func(c *ctx) { c02(c); withTrials(c02s)(c) })
	reg("C03", 14, "construction, serialization and verification of unknown messages compared with the specified MAC input", c03)
}
