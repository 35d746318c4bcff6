package main

import (
	"go/types"
	"strings"
)

// Building sessions from bundles and prekey messages, and sending in them.

const lastResort = 0xFFFFFF

// built is the processing of a prekey message.
type built struct {
	accepted *Term // processing succeeds
	*peer
	struc, msg, r            *Term
	base, their              *Term // keys in the message
	version, regID, pid, sid *Term
	hasID, pidValue          *Term
	known                    *Term
	full                     bool
}

// incoming makes an unknown prekey message that was accepted as such.
func (s *scn) incoming(eff *effects, fresh bool) *built {
	x := &built{peer: s.peer(eff, fresh)}
	x.struc = s.input("message", "*protocol.PreKeySignalMessageStructure")
	a := s.args("protocol.NewPreKeySignalMessageFromStruct", "message", "pserializer", "mserializer")
	s.assume(not(isNil(a[1])))
	s.assume(not(isNil(a[2])))
	x.pid = s.fld(x.struc, "PreKeyID")
	x.hasID = and(not(isNil(x.pid)), tTrue)
	val := tZero
	s.at(x.hasID, func() {
		e := asBoolT(s.fld(x.pid, "IsEmpty"))
		x.hasID = and(x.hasID, not(e))
		val = s.fld(x.pid, "Value")
	})
	x.pidValue = val
	r := s.call("protocol.NewPreKeySignalMessageFromStruct", x.struc, a[1], a[2])
	s.assume(okOf(r))
	x.msg = res(r, 0)
	x.base = s.pubBytes(s.method(x.msg, "BaseKey"))
	x.their = s.pubBytes(s.method(s.method(x.msg, "IdentityKey"), "PublicKey"))
	x.version, x.regID, x.sid = s.fld(x.struc, "Version"), s.fld(x.struc, "RegistrationID"), s.fld(x.struc, "SignedPreKeyID")
	is := func(e *Term) *Term {
		return and(eqInt(s.df(e, "SessionVersion"), x.version), asBoolT(tEq(s.sq(s.df(e, "SenderBaseKey")), enc5(x.base))))
	}
	x.known = tFalse
	if !fresh {
		_, ex := s.first(x.arch0, is)
		x.known = or(is(x.cur0), ex)
	}
	x.m0, x.h0 = s.mark(), s.st.h.clone()
	return x
}

// process analyses Builder.Process.
func (s *scn) process(fresh bool) *built {
	x := s.incoming(nil, fresh)
	x.r = s.method(x.builder, "Process", x.rec, x.msg)
	return x
}

// ourIdentity is the identity key pair the store gave.
func (x *peer) ourIdentity(rule string) (pub, priv *Term) {
	s := x.scn
	for _, e := range x.calls("IdentityKey.GetIdentityKeyPair") {
		s.holds(rule, "own identity from the identity store", tEq(e.args[0], x.identity))
		return s.pubBytes(s.method(s.method(e.res, "PublicKey"), "PublicKey")), s.bytes(s.method(s.method(e.res, "PrivateKey"), "Serialize"))
	}
	panic(undecided("own identity key"))
}

func (x *peer) ourRegID(rule string) *Term {
	for _, e := range x.calls("IdentityKey.GetLocalRegistrationId") {
		x.holds(rule, "own registration id from the identity store", tEq(e.args[0], x.identity))
		return e.res
	}
	panic(undecided("own registration id"))
}

// pairOf are the keys of a pair.
func (s *scn) pairOf(p *Term) (pub, priv *Term) {
	return s.pubBytes(s.method(p, "PublicKey")), s.bytes(s.method(s.method(p, "PrivateKey"), "Serialize"))
}

// loaded is the key pair of a record loaded by id, and whether it was there.
func (x *built) loaded(rule, store, method string, own, id *Term) (pub, priv, there *Term) {
	s := x.scn
	for _, e := range x.calls(store + "." + method) {
		e := e
		var a, b *Term
		s.at(and(e.g, not(isNil(e.res))), func() {
			s.eq(rule, method+": of the store", e.args[0], own)
			s.eq(rule, method+": of the id in the message", e.args[1], id)
			a, b = s.pairOf(s.method(e.res, "KeyPair"))
		})
		return a, b, and(e.g, not(isNil(e.res)))
	}
	panic(undecided("no " + method))
}

// current is the structure of the record's current state.
func (x *peer) current() (r *Term) {
	x.peek(func() { r = x.snap(x.method(x.rec, "SessionState")) })
	return
}

// installed: the record's current state is the one agreed upon.
func (x *peer) installed(rule, what string, want map[string]*Term) {
	s := x.scn
	cur := x.current()
	for _, f := range []string{"SessionVersion", "LocalRegistrationID", "RemoteRegistrationID", "PreviousCounter", "NeedsRefresh"} {
		if want[f] != nil {
			s.eq(rule, what+f, s.df(cur, f), want[f])
		}
	}
	for _, f := range []string{"LocalIdentityPublic", "RemoteIdentityPublic", "SenderBaseKey", "RootKey"} {
		if want[f] != nil {
			s.eq(rule, what+f, s.sq(s.df(cur, f)), want[f])
		}
	}
	sc := s.df(cur, "SenderChain")
	s.eq(rule, what+"sending ratchet key", s.sq(s.df(sc, "SenderRatchetKeyPublic")), enc5(want["ratchet"]))
	s.eq(rule, what+"private sending ratchet key", s.sq(s.df(sc, "SenderRatchetKeyPrivate")), want["ratchetPriv"])
	s.eq(rule, what+"sending chain key", s.sq(s.df(sc, "ChainKey", "Key")), want["chain"])
	s.eq(rule, what+"sending chain index", s.df(sc, "ChainKey", "Index"), tZero)
	s.eq(rule, what+"no keys kept for sending", tLen(s.sq(s.df(sc, "MessageKeys"))), tZero)
	rc := s.sq(s.df(cur, "ReceiverChains"))
	if want["receiving"] == nil {
		s.eq(rule, what+"no receiving chains", tLen(rc), tZero)
		s.holds(rule, what+"no pending prekey", isNil(s.df(cur, "PendingPreKey")))
		return
	}
	s.eq(rule, what+"one receiving chain", tLen(rc), tOne)
	r0 := s.el(rc, tZero)
	s.eq(rule, what+"receiving ratchet key", s.sq(s.df(r0, "SenderRatchetKeyPublic")), enc5(want["receivingRatchet"]))
	s.eq(rule, what+"receiving chain key", s.sq(s.df(r0, "ChainKey", "Key")), want["receiving"])
	s.eq(rule, what+"receiving chain index", s.df(r0, "ChainKey", "Index"), tZero)
	s.eq(rule, what+"no keys kept for receiving", tLen(s.sq(s.df(r0, "MessageKeys"))), tZero)
}

// archivedOld: the state that was there is archived first, the others follow
// in order, and the oldest of too many goes.
func (x *peer) archivedOld(rule string) {
	s := x.scn
	n := tLen(x.ptrs0)
	prev := s.sq(s.df(x.now(), "PreviousStates"))
	s.eq(rule, "number of archived states", tLen(prev), ite(lt(n, tInt(maxArchived)), addi(n, 1), tInt(maxArchived)))
	s.anyIndex(tLen(prev), func(j *Term) {
		s.at(eqInt(j, tZero), func() { s.eq(rule, "the former state is archived first", s.el(prev, j), x.cur0) })
		s.at(lt(tZero, j), func() {
			s.reach(rule, "older states")
			s.eq(rule, "older archived states", s.el(prev, j), s.el(x.arch0, addi(j, -1)))
		})
	})
}

// noArchive: nothing was there to archive.
func (x *peer) noArchive(rule string) {
	s := x.scn
	s.eq(rule, "nothing archived", tLen(s.sq(s.df(x.now(), "PreviousStates"))), tZero)
}

// processed is what a prekey message that starts a session leads to.
func (x *built) processed(rule string, f func(one bool)) {
	s := x.scn
	s.assume(and(okOf(x.r), not(x.known)))
	for _, one := range []bool{false, true} {
		one := one
		s.at(ite(asBoolT(x.hasID), boolTerm(one), boolTerm(!one)), func() { f(one) })
	}
}

func boolTerm(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (x *built) installs(rule string) {
	x.processed(rule, func(one bool) {
		s := x.scn
		what := "without a one-time prekey: "
		if one {
			what = "with a one-time prekey: "
		}
		s.reach(rule, what+"processed")
		ourPub, ourPriv := x.ourIdentity(rule)
		sp, spriv, there := x.loaded(rule, "SignedPreKey", "LoadSignedPreKey", x.signed, x.sid)
		s.holds(rule, what+"with the signed prekey", there)
		s.assume(there)
		dhs := []*Term{tDH(x.their, spriv), tDH(x.base, ourPriv), tDH(x.base, spriv)}
		if one {
			_, opriv, there := x.loaded(rule, "PreKey", "LoadPreKey", x.prekeys, x.pidValue)
			s.holds(rule, what+"with the one-time prekey", there)
			s.assume(there)
			dhs = append(dhs, tDH(x.base, opriv))
		}
		root, chain := x3dh(dhs...)
		x.installed(rule, what, map[string]*Term{
			"SessionVersion": tInt(v3), "LocalRegistrationID": x.ourRegID(rule), "RemoteRegistrationID": x.regID,
			"LocalIdentityPublic": enc5(ourPub), "RemoteIdentityPublic": enc5(x.their), "SenderBaseKey": enc5(x.base),
			"RootKey": root, "ratchet": sp, "ratchetPriv": spriv, "chain": chain, "PreviousCounter": tZero,
		})
	})
}

func c01p(c *ctx) {
	for _, fresh := range []bool{true, false} {
		fresh := fresh
		n := "process a prekey message"
		if fresh {
			n += " in a fresh record"
		}
		c.scenario(n, func(s *scn) { s.process(fresh).installs("install.receiver") })
	}
}

// offer is the processing of a bundle.
type offer struct {
	*peer
	bundle, r                 *Term
	their, signedKey, oneKey  *Term
	sig, regID, sid, pidValue *Term
	one                       bool
	kind                      string
}

// offers are the forms of a bundle's one-time prekey: absent, with or without
// an id left over, or there.
var offers = []string{"no one-time prekey", "empty prekey id", "prekey id without a key", "one-time prekey"}

func (s *scn) offer(kind string, fresh bool) *offer {
	x := &offer{peer: s.peer(nil, fresh), kind: kind}
	a := s.args("keys/prekey.NewBundle", "regid", "device", "", "signedid", "", "", "signature", "")
	x.regID, x.sid = a[0], a[3]
	x.their, x.signedKey, x.oneKey = s.input("theirIdentity", "[32]byte"), s.input("theirSigned", "[32]byte"), s.input("theirOneTime", "[32]byte")
	x.pidValue = s.input("prekeyid", "uint32")
	x.sig = s.bytes(a[6])
	a[2], a[4], a[5], a[7] = tNil, tNil, s.pubKey(x.signedKey), s.idKey(x.their)
	switch kind {
	case "empty prekey id":
		a[2] = s.call("util/optional.NewEmptyUint32")
	case "prekey id without a key":
		a[2] = s.call("util/optional.NewOptionalUint32", x.pidValue)
	case "one-time prekey":
		a[2] = s.call("util/optional.NewOptionalUint32", x.pidValue)
		a[4] = s.pubKey(x.oneKey)
		x.one = true
	case "no signed prekey":
		a[5] = tNil
	}
	x.bundle = s.call("keys/prekey.NewBundle", a...)
	x.m0, x.h0 = s.mark(), s.st.h.clone()
	x.r = s.method(x.builder, "ProcessBundle", x.bundle)
	return x
}

// freshPairs are the key pairs the processing generated, as seen in the record.
func (x *offer) installs(rule string) {
	s := x.scn
	what := x.kind + ": "
	s.assume(okOf(x.r))
	s.reach(rule, what+"processed")
	ourPub, ourPriv := x.ourIdentity(rule)
	cur := x.current()
	priv := s.sq(s.df(cur, "SenderChain", "SenderRatchetKeyPrivate"))
	s.isFreshKey(rule, what+"sending ratchet key", priv)
	// the base key whose public half the state names
	var base *Term
	for _, e := range x.events(x.m0, "random") {
		if simp(tLen(e.res), s.st.g) != tInt(32) {
			continue
		}
		k := clamped(e.res)
		if s.is(s.st.g, tEq(s.sq(s.df(cur, "SenderBaseKey")), enc5(tPub(k)))) {
			base = k
		}
	}
	s.ob(rule, s.name2(what+"the base key is generated"), s.pos, base != nil, func() string { return dag(s.df(cur, "SenderBaseKey"), 400) })
	if base == nil {
		return
	}
	s.isFreshKey(rule, what+"base key", base)
	s.ob(rule, s.name2(what+"base and ratchet keys are independent"), s.pos, rndIn(base) != rndIn(priv), func() string { return dag(base, 300) })
	dhs := []*Term{tDH(x.signedKey, ourPriv), tDH(x.their, base), tDH(x.signedKey, base)}
	if x.one {
		dhs = append(dhs, tDH(x.oneKey, base))
	}
	root, chain := x3dh(dhs...)
	t := tHKDF(tDH(x.signedKey, priv), root, tBytes("WhisperRatchet"), tInt(64))
	x.installed(rule, what, map[string]*Term{
		"SessionVersion": tInt(v3), "LocalRegistrationID": x.ourRegID(rule), "RemoteRegistrationID": x.regID,
		"LocalIdentityPublic": enc5(ourPub), "RemoteIdentityPublic": enc5(x.their), "SenderBaseKey": enc5(tPub(base)),
		"RootKey": tSub(t, tZero, tInt(32)), "ratchet": tPub(priv), "ratchetPriv": priv, "chain": tSub(t, tInt(32), tInt(32)), "PreviousCounter": tZero,
		"receiving": chain, "receivingRatchet": x.signedKey,
	})
	p := s.df(cur, "PendingPreKey")
	s.holds(rule, what+"a pending prekey", not(isNil(p)))
	s.eq(rule, what+"pending base key", s.sq(s.df(p, "BaseKey")), enc5(tPub(base)))
	s.eq(rule, what+"pending signed prekey id", s.df(p, "SignedPreKeyID"), x.sid)
	id := s.df(p, "PreKeyID")
	if x.one {
		s.holds(rule, what+"pending prekey id", not(isNil(id)))
		s.holds(rule, what+"pending prekey id is set", not(asBoolT(s.df(id, "IsEmpty"))))
		s.eq(rule, what+"pending prekey id", s.df(id, "Value"), x.pidValue)
	} else {
		none := isNil(id)
		s.at(not(none), func() { none = or(none, asBoolT(s.df(id, "IsEmpty"))) })
		s.holds(rule, what+"no pending prekey id", none)
	}
}

func c01b(c *ctx) {
	for _, k := range []string{"no one-time prekey", "one-time prekey"} {
		for _, fresh := range []bool{true, false} {
			k, fresh := k, fresh
			n := "process a bundle with " + k
			if fresh {
				n += " in a fresh record"
			}
			c.scenario(n, func(s *scn) { s.offer(k, fresh).installs("install.sender") })
		}
	}
}

// ---------- C05: bundles ----------

// nothingDone: the operation had no effect outside.
func (x *peer) nothingDone(rule, what string) {
	s := x.scn
	for _, e := range x.calls("") {
		n := strings.TrimPrefix(e.name, "state/store.")
		if strings.Contains(n, ".Store") || strings.Contains(n, ".Remove") || strings.Contains(n, ".Delete") || strings.Contains(n, ".Save") {
			s.holds(rule, what+": no "+n, not(e.g))
		}
	}
	s.ob(rule, s.name2(what+": nothing stored"), s.pos, true, nil)
}

// verdict: the bundle's signature decides.
func (x *offer) verdict(rule string) {
	s := x.scn
	ed := s.edwardsKey(x.their)
	sign := mask(tAt(x.sig, tInt(63)), 128, 0)
	ed = tCat(tSub(ed, tZero, tInt(31)), tUnit(orByte(tAt(ed, tInt(31)), sign)))
	clear := tCat(tSub(x.sig, tZero, tInt(63)), tUnit(mask(tAt(x.sig, tInt(63)), 127, 0)))
	verified, trusted := tFalse, tFalse
	for _, e := range x.events(x.m0, "ed25519.Verify") {
		s.at(e.g, func() {
			s.eq(rule, "verified under the bundle's identity", e.args[0], ed)
			s.eq(rule, "verified over the serialized signed prekey", e.args[1], enc5(x.signedKey))
			s.eq(rule, "verified with the bundle's signature", e.args[2], clear)
		})
		verified = or(verified, and(e.g, asBoolT(e.res)))
	}
	for _, e := range x.calls("IdentityKey.IsTrustedIdentity") {
		s.at(e.g, func() {
			s.eq(rule, "asked about the bundle's identity", s.pubBytes(s.method(e.args[2], "PublicKey")), x.their)
			s.eq(rule, "asked for the address", e.args[1], x.addr)
			s.eq(rule, "asked of the identity store", e.args[0], x.identity)
		})
		trusted = or(trusted, and(e.g, asBoolT(e.res)))
	}
	for what, c := range map[string]*Term{"not verified": verified, "not trusted": trusted} {
		s.at(not(c), func() {
			s.reach(rule, what)
			s.holds(rule, what+": an error", not(okOf(x.r)))
			x.nothingDone(rule, what)
			x.sameRecord(rule, what)
		})
	}
	s.at(okOf(x.r), func() {
		s.reach(rule, "accepted")
		s.holds(rule, "accepted only when verified", verified)
		s.holds(rule, "accepted only when trusted", trusted)
	})
	s.at(not(okOf(x.r)), func() {
		s.reach(rule, "rejected")
		x.nothingDone(rule, "rejected")
	})
	bad := s.sourceFails(x.m0)
	s.at(and(and(verified, trusted), not(bad)), func() {
		s.holds(rule, "a genuine bundle is accepted", okOf(x.r))
	})
}

func c05(c *ctx) {
	for _, k := range offers {
		k := k
		c.scenario("bundle with "+k, func(s *scn) {
			x := s.offer(k, false)
			x.verdict("bundle.verified")
			x.installs("bundle.keys")
		})
	}
	c.scenario("bundle without a signed prekey", func(s *scn) {
		x := s.offer("no signed prekey", false)
		s.holds("bundle.unsigned", "an error", not(okOf(x.r)))
		x.nothingDone("bundle.unsigned", "no signed prekey")
		x.sameRecord("bundle.unsigned", "no signed prekey")
	})
}

// ---------- C06 ----------

func c06(c *ctx) {
	e := c.decryptEffects()
	c.decryptStored(e, func(x *peer, r, m *Term) { x.trusts("trust.decrypt", okOf(r), x.currentPeer) })
	c.scenario("encrypt", func(s *scn) {
		x := s.send(true)
		x.trusts("trust.encrypt", okOf(x.r), func() *Term {
			return tSub(s.sq(s.df(x.cur0, "RemoteIdentityPublic")), tOne, tInt(32))
		})
	})
	c.scenario("process a bundle", func(s *scn) {
		x := s.offer("one-time prekey", false)
		x.trusts("trust.bundle", okOf(x.r), func() *Term { return x.their })
	})
	for _, fresh := range []bool{true, false} {
		fresh := fresh
		n := "process a prekey message"
		if fresh {
			n += " in a fresh record"
		}
		c.scenario(n, func(s *scn) {
			x := s.process(fresh)
			x.trusts("trust.prekey", okOf(x.r), func() *Term { return x.their })
		})
	}
	c.scenario("decrypt a prekey message", func(s *scn) {
		x := s.receive(e, false)
		x.trusts("trust.prekey", okOf(x.r), func() *Term { return x.their })
	})
}

// ---------- sending ----------

type sending struct {
	*peer
	r, text *Term
}

// send analyses the encryption of an unknown text.
func (s *scn) send(established bool) *sending {
	x := &sending{peer: s.peer(nil, !established)}
	pt := s.input("plaintext", "[]byte")
	x.text = s.bytes(pt)
	if established {
		s.assume(lt(s.df(x.cur0, "SenderChain", "ChainKey", "Index"), tInt(1<<32-1)))
	}
	x.m0, x.h0 = s.mark(), s.st.h.clone()
	x.r = s.method(x.cipher, "Encrypt", pt)
	return x
}

// sent hands over the message of a successful encryption: the session message
// and, as long as the peer has not answered, the prekey message around it.
func (x *sending) message(f func(kind string, sm, pm *Term)) {
	s := x.scn
	s.assume(okOf(x.r))
	pend := not(isNil(s.df(x.cur0, "PendingPreKey")))
	s.at(pend, func() {
		m := res(x.r, 0)
		f("prekey message", s.method(m, "WhisperMessage"), m)
	})
	s.at(not(pend), func() { f("session message", res(x.r, 0), nil) })
}

// pubOf is the key in a serialized public key.
func pubOf(b *Term) *Term { return tSub(b, tOne, tInt(32)) }

func (x *sending) carries(rule, kind string, sm *Term) {
	s := x.scn
	o := x.cur0
	ck, idx := s.sq(s.df(o, "SenderChain", "ChainKey", "Key")), s.df(o, "SenderChain", "ChainKey", "Index")
	k := derived(ck, idx)
	st := s.method(sm, "Structure")
	ver := s.df(o, "SessionVersion")
	rk := s.sq(s.df(o, "SenderChain", "SenderRatchetKeyPublic"))
	ct := tCBC("enc", k.cipher, k.iv, padded(x.text))
	s.eq(rule, kind+": version", s.fld(st, "Version"), ver)
	s.eq(rule, kind+": counter", s.fld(st, "Counter"), idx)
	s.eq(rule, kind+": previous counter", s.fld(st, "PreviousCounter"), s.df(o, "PreviousCounter"))
	s.eq(rule, kind+": ratchet key", s.bytes(s.fld(st, "RatchetKey")), rk)
	s.eq(rule, kind+": ciphertext", s.bytes(s.fld(st, "CipherText")), ct)
	ser := s.fld(x.ser, "SignalMessage")
	want := s.macOf(ver, ver, pubOf(s.sq(s.df(o, "LocalIdentityPublic"))), pubOf(s.sq(s.df(o, "RemoteIdentityPublic"))), k.mac, ser, rk, idx, s.df(o, "PreviousCounter"), s.slice(ct))
	s.eq(rule, kind+": MAC", s.bytes(s.fld(st, "Mac")), want)
}

// advanced: the sending chain has advanced by one step and nothing else.
func (x *sending) advanced(rule string) {
	s := x.scn
	o, n := x.cur0, x.current()
	ck, idx := s.sq(s.df(o, "SenderChain", "ChainKey", "Key")), s.df(o, "SenderChain", "ChainKey", "Index")
	s.eq(rule, "sending chain key", s.sq(s.df(n, "SenderChain", "ChainKey", "Key")), nextChain(ck))
	s.eq(rule, "sending chain index", s.df(n, "SenderChain", "ChainKey", "Index"), addi(idx, 1))
	for _, f := range []string{"SenderRatchetKeyPublic", "SenderRatchetKeyPrivate", "MessageKeys"} {
		s.eq(rule, "sending chain "+f, s.df(n, "SenderChain", f), s.df(o, "SenderChain", f))
	}
	for _, f := range append(append([]string{}, stateRest...), "PendingPreKey", "PreviousCounter", "ReceiverChains", "RootKey") {
		s.eq(rule, "state "+f, s.df(n, f), s.df(o, f))
	}
	s.eq(rule, "archived states", s.sq(s.df(x.now(), "PreviousStates")), x.arch0)
}

func c08e(c *ctx) {
	c.scenario("encrypt", func(s *scn) {
		x := s.send(true)
		x.saved("sent.saved", okOf(x.r), func() { x.advanced("sent.saved") })
		x.message(func(kind string, sm, pm *Term) {
			s.reach("sent.carries", kind)
			x.carries("sent.carries", kind, sm)
		})
		x.advanced("sent.advanced")
	})
}

func c07e(c *ctx) {
	c.scenario("encrypt", func(s *scn) {
		x := s.send(true)
		s.at(not(okOf(x.r)), func() {
			s.reach("sent.none", "failure")
			s.holds("sent.none", "no message with an error", isNil(res(x.r, 0)))
			for _, e := range x.calls("Session.StoreSession") {
				s.holds("sent.none", "no session stored with an error", not(e.g))
			}
			for _, e := range x.calls("PreKey.RemovePreKey") {
				s.holds("sent.none", "no prekey removed with an error", not(e.g))
			}
		})
	})
	c.scenario("encrypt without a session", func(s *scn) {
		x := s.send(false)
		s.holds("sent.none", "an error", not(okOf(x.r)))
		s.holds("sent.none", "no message", isNil(res(x.r, 0)))
		x.nothingDone("sent.none", "no session")
	})
}

func c31e(c *ctx) {
	c.scenario("encrypt", func(s *scn) {
		x := s.send(true)
		regID := s.df(x.cur0, "LocalRegistrationID")
		x.message(func(kind string, sm, pm *Term) {
			s.reach("pending.kind", kind)
			if pm == nil {
				s.ob("pending.kind", s.name2("a session message once answered"), s.pos, dynName(simp(res(x.r, 0), s.st.g)) == "SignalMessage", func() string { return str(sm) })
				s.eq("pending.kind", "type", s.method(sm, "Type"), tInt(2))
				return
			}
			s.ob("pending.kind", s.name2("a prekey message until answered"), s.pos, dynName(simp(res(x.r, 0), s.st.g)) == "PreKeySignalMessage", func() string { return str(pm) })
			p := s.df(x.cur0, "PendingPreKey")
			s.eq("pending.carries", "version", s.method(pm, "MessageVersion"), s.df(x.cur0, "SessionVersion"))
			s.eq("pending.carries", "registration id", s.method(pm, "RegistrationID"), regID)
			s.eq("pending.carries", "signed prekey id", s.method(pm, "SignedPreKeyID"), s.df(p, "SignedPreKeyID"))
			s.eq("pending.carries", "prekey id", s.deep(s.method(pm, "PreKeyID")), s.df(p, "PreKeyID"))
			s.eq("pending.carries", "base key", enc5(s.pubBytes(s.method(pm, "BaseKey"))), s.sq(s.df(p, "BaseKey")))
			s.eq("pending.carries", "identity key", enc5(s.pubBytes(s.method(s.method(pm, "IdentityKey"), "PublicKey"))), s.sq(s.df(x.cur0, "LocalIdentityPublic")))
			s.eq("pending.carries", "type", s.method(pm, "Type"), tInt(3))
		})
		s.eq("pending.stays", "pending prekey after encrypting", s.df(x.current(), "PendingPreKey"), s.df(x.cur0, "PendingPreKey"))
	})
	for _, k := range offers {
		k := k
		c.scenario("bundle with "+k, func(s *scn) { s.offer(k, false).installs("pending.bundle") })
	}
}

func dynName(v *Term) string {
	if v.op == OIface {
		if n, ok := derefT(v.typ).(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	if v.op == OPtr && bases[v.k].typ != nil {
		if n, ok := bases[v.k].typ.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

// ---------- receiving prekey messages ----------

// receive analyses the decryption of a prekey message. The states it starts
// from are those that processing the message leaves.
func (s *scn) receive(eff *effects, fresh bool) *built {
	return s.receiveIn(eff, fresh, func(x *built) *Term { return tTrue })
}

func (s *scn) receiveIn(eff *effects, fresh bool, when func(x *built) *Term) *built {
	x := s.incoming(eff, fresh)
	s.assume(when(x))
	return x.receiving(false)
}

// receiving decrypts the prekey message that was set up.
func (x *built) receiving(onlyAccepted bool) *built {
	s := x.scn
	hooks := s.in.hooks
	s.in.hooks = map[string]modelFn{}
	for n, h := range hooks {
		s.in.hooks[n] = h
	}
	for _, f := range s.p.trials() {
		delete(s.in.hooks, relName(f))
	}
	var h *heap
	s.peek(func() {
		x.accepted = okOf(s.method(x.builder, "Process", x.rec, x.msg))
		s.assume(x.accepted)
		x.cur = s.method(x.rec, "SessionState")
		x.ptrs0 = s.sq(s.method(x.rec, "PreviousSessionStates"))
		h = s.st.h.clone()
	})
	s.in.hooks = hooks
	if onlyAccepted {
		s.assume(x.accepted)
	}
	x.m0, x.h0 = s.mark(), h
	x.r = s.method(x.cipher, "DecryptMessageReturnKey", x.msg)
	return x
}

// starts are the ways in which a prekey message is met.
var starts = []struct {
	name  string
	fresh bool
	when  func(x *built) *Term
}{
	{"for a known session", false, func(x *built) *Term { return x.known }},
	{"for another session", false, func(x *built) *Term { return not(x.known) }},
	{"in a fresh record", true, func(x *built) *Term { return tTrue }},
}

// receptions hands over the decryption of a prekey message that is processed
// without an error, for all ways in which that happens.
func (c *ctx) receptions(eff *effects, f func(x *built, what string)) {
	for _, k := range starts {
		k := k
		if k.name == "for a known session" {
			c.scenario("decrypt a prekey message "+k.name, func(s *scn) {
				x := s.incoming(eff, false)
				s.assume(x.known)
				x.receiving(true)
				f(x, k.name)
			})
			continue
		}
		for _, id := range []string{"with a one-time prekey", "without a one-time prekey", "with an empty one-time prekey id"} {
			id := id
			c.scenario("decrypt a prekey message "+id+" "+k.name, func(s *scn) {
				x := s.incoming(eff, k.fresh)
				s.assume(k.when(x))
				none := isNil(x.pid)
				switch id {
				case "with a one-time prekey":
					s.assume(not(none))
					s.assume(not(asBoolT(s.fld(x.pid, "IsEmpty"))))
					s.assume(fnBool("has:prekey", x.pidValue))
				case "without a one-time prekey":
					s.assume(none)
				default:
					s.assume(not(none))
					s.assume(asBoolT(s.fld(x.pid, "IsEmpty")))
				}
				s.assume(fnBool("has:signedprekey", x.sid))
				// with all archived states in use, one is dropped: see C26
				s.assume(lt(tLen(x.ptrs0), tInt(maxArchived)))
				x.receiving(true)
				f(x, k.name)
			})
		}
	}
}

func c07p(c *ctx, eff *effects) {
	for _, k := range starts {
		k := k
		c.scenario("decrypt a prekey message "+k.name, func(s *scn) {
			x := s.receiveIn(eff, k.fresh, k.when)
			x.nothing("received.none", x.r)
			s.at(not(x.accepted), func() { s.holds("received.none", "an error when it is not accepted", not(okOf(x.r))) })
		})
	}
	c.receptions(eff, func(x *built, what string) {
		s := x.scn
		x.outcome(s.method(x.msg, "WhisperMessage"), func(kind string, d, j *Term) {
			if kind == "none" {
				s.reach("received.none", "no state decrypts the message")
				s.holds("received.none", "an error when no state decrypts", not(okOf(x.r)))
				if what == "for a known session" {
					x.sameRecord("received.none", "no state decrypts the message")
				}
			} else {
				s.at(okOf(x.r), func() { s.reach("received."+kind, "decrypted") })
			}
		})
	})
}

func c08p(c *ctx, eff *effects) {
	c.receptions(eff, func(x *built, what string) {
		s := x.scn
		msg := s.method(x.msg, "WhisperMessage")
		x.outcome(msg, func(kind string, d, j *Term) {
			if kind == "none" {
				s.holds("received.none", "not a success", not(okOf(x.r)))
				return
			}
			s.assume(okOf(x.r))
			s.reach("received."+kind, "decrypted")
			x.saved("received."+kind, okOf(x.r), func() { x.moved("received."+kind, kind, d, j, msg) })
			x.released("received."+kind, x.r, d, msg)
			x.moved("after."+kind, kind, d, j, msg)
		})
	})
}

// ---------- C16: one-time prekeys ----------

func c16(c *ctx) {
	eff := c.decryptEffects()
	for _, k := range offers {
		k := k
		c.scenario("bundle with "+k, func(s *scn) { s.offer(k, false).installs("prekey.offered") })
	}
	for _, fresh := range []bool{true, false} {
		fresh := fresh
		n := "process a prekey message"
		if fresh {
			n += " in a fresh record"
		}
		c.scenario(n, func(s *scn) {
			x := s.process(fresh)
			have := fnBool("has:prekey", x.pidValue)
			s.at(and(and(not(x.known), x.hasID), not(have)), func() {
				s.reach("prekey.missing", "no such prekey")
				s.holds("prekey.missing", "an error without the prekey", not(okOf(x.r)))
				x.nothingDone("prekey.missing", "without the prekey")
			})
			s.at(and(not(x.known), not(x.hasID)), func() {
				for _, e := range x.calls("PreKey.LoadPreKey") {
					s.holds("prekey.none", "no prekey loaded without an id", not(e.g))
				}
				s.at(okOf(x.r), func() { s.reach("prekey.none", "processed without an id") })
			})
			s.peek(func() { x.installs("prekey.used") })
			s.assume(okOf(x.r))
			used := and(and(not(x.known), x.hasID), not(eqInt(x.pidValue, tInt(lastResort))))
			id := res(x.r, 0)
			s.at(used, func() {
				s.reach("prekey.reported", "used")
				s.holds("prekey.reported", "the id is reported", not(isNil(id)))
				s.holds("prekey.reported", "the id is set", not(asBoolT(s.fld(id, "IsEmpty"))))
				s.eq("prekey.reported", "the id", s.fld(id, "Value"), x.pidValue)
			})
			s.at(not(used), func() {
				s.reach("prekey.reported", "not used up")
				s.holds("prekey.reported", "no id is reported", asBoolT(s.fld(id, "IsEmpty")))
			})
		})
	}
	for _, k := range starts {
		k := k
		c.scenario("decrypt a prekey message "+k.name, func(s *scn) {
			x := s.receiveIn(eff, k.fresh, k.when)
			used := and(and(okOf(x.r), not(x.known)), and(x.hasID, not(eqInt(x.pidValue, tInt(lastResort)))))
			if k.name != "for a known session" {
				s.at(used, func() { s.reach("prekey.removed", "used") })
			}
			stores := x.calls("Session.StoreSession")
			s.once("prekey.removed", "removed exactly when used", x.calls("PreKey.RemovePreKey"), used, func(e event) {
				s.eq("prekey.removed", "the id", e.args[1], x.pidValue)
				s.eq("prekey.removed", "from the prekey store", e.args[0], x.prekeys)
				before := tFalse
				for _, v := range stores {
					if v.seq < e.seq {
						before = or(before, v.g)
					}
				}
				s.holds("prekey.removed", "after the session is stored", before)
			})
			for _, e := range append(x.calls("PreKey."), x.calls("SignedPreKey.")...) {
				n := strings.TrimPrefix(e.name, "state/store.")
				if n != "PreKey.RemovePreKey" && n != "PreKey.LoadPreKey" && n != "PreKey.ContainsPreKey" && n != "SignedPreKey.LoadSignedPreKey" {
					s.ob("prekey.removed", s.name2("no other change of the prekey stores"), e.pos, strings.Contains(n, ".Contains") || strings.Contains(n, ".Load"), func() string { return n })
				}
			}
		})
	}
	c.scenario("last resort prekey", func(s *scn) {
		ser := s.args("util/keyhelper.GenerateLastResortKey", "serializer")
		s.assume(not(isNil(ser[0])))
		r := s.call("util/keyhelper.GenerateLastResortKey", ser...)
		s.assume(okOf(r))
		p := s.method(res(r, 0), "ID")
		s.at(not(isNil(p)), func() {
			s.reach("prekey.last", "an id")
			s.eq("prekey.last", "the id", s.fld(p, "Value"), tInt(lastResort))
			s.holds("prekey.last", "the id is set", not(asBoolT(s.fld(p, "IsEmpty"))))
		})
		s.holds("prekey.last", "has an id", not(isNil(p)))
	})
}

// ---------- C26: archived sessions ----------

func c26(c *ctx) {
	c.scenario("is a session known", func(s *scn) {
		r := s.input("record", "*state/record.Session")
		s.assume(not(isNil(r)))
		v, key := s.input("version", "int"), s.input("key", "[]byte")
		prev := s.sq(s.method(r, "PreviousSessionStates"))
		is := func(e *Term) *Term {
			return and(eqInt(s.method(e, "Version"), v), asBoolT(tEq(s.bytes(s.method(e, "SenderBaseKey")), s.bytes(key))))
		}
		cur := is(s.method(r, "SessionState"))
		_, ex := s.first(prev, is)
		got := s.method(r, "HasSessionState", v, key)
		s.reach("known.exact", "HasSessionState")
		s.iff("known.exact", "a state of this version and base key", got, or(cur, ex))
	})
	for _, k := range []string{offers[0], offers[3]} {
		k := k
		c.scenario("bundle with "+k, func(s *scn) {
			x := s.offer(k, false)
			s.assume(okOf(x.r))
			s.reach("archive.bundle", "processed")
			x.archivedOld("archive.bundle")
		})
	}
	c.scenario("bundle in a fresh record", func(s *scn) {
		x := s.offer(offers[3], true)
		s.assume(okOf(x.r))
		s.reach("archive.fresh", "processed")
		x.noArchive("archive.fresh")
	})
	c.scenario("prekey message in a fresh record", func(s *scn) {
		x := s.process(true)
		s.assume(okOf(x.r))
		s.reach("archive.fresh", "processed")
		x.noArchive("archive.fresh")
	})
	c.scenario("prekey message", func(s *scn) {
		x := s.process(false)
		s.at(and(not(x.known), okOf(x.r)), func() {
			s.reach("archive.prekey", "processed")
			x.archivedOld("archive.prekey")
		})
		s.at(x.known, func() {
			s.reach("known.session", "a known session")
			x.sameRecord("known.session", "a known session")
			for _, e := range x.calls("IdentityKey.IsTrustedIdentity") {
				s.at(and(e.g, asBoolT(e.res)), func() { s.holds("known.session", "accepted when trusted", okOf(x.r)) })
			}
			for _, n := range []string{"PreKey.LoadPreKey", "SignedPreKey.LoadSignedPreKey"} {
				for _, e := range x.calls(n) {
					s.holds("known.session", "nothing built: no "+n, not(e.g))
				}
			}
		})
		s.at(and(not(x.known), okOf(x.r)), func() {
			s.eq("unknown.session", "the new session's base key", s.sq(s.df(x.current(), "SenderBaseKey")), enc5(x.base))
			s.eq("unknown.session", "the new session's version", s.df(x.current(), "SessionVersion"), tInt(v3))
		})
	})
	// the state that was archived still decrypts: see the archived states in C08
}
