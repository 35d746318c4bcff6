package main

// C37: what is in order is accepted. The other rules say what must not be let
// through; these say that nothing else is turned away.

// inOrder: a session message was made by the holder of the message's key.
func (x *dec) inOrder(k mkey) *Term {
	s := x.scn
	remote, local := s.sq(s.df(x.old, "RemoteIdentityPublic")), s.sq(s.df(x.old, "LocalIdentityPublic"))
	want := s.macOf(x.ver, x.ver, tSub(remote, tOne, tInt(32)), tSub(local, tOne, tInt(32)), k.mac, x.ser, x.wireRK, x.counter, x.pn, x.text)
	c := and(eqInt(x.ver, s.df(x.old, "SessionVersion")), asBoolT(tEq(x.mac, want)))
	return and(c, s.decryptable(k.cipher, k.iv, s.bytes(x.text)))
}

// decryptable: a ciphertext of whole blocks with proper padding.
func (s *scn) decryptable(key, iv, ct *Term) *Term {
	ok, _ := wellPadded(tCBC("dec", key, iv, ct))
	return and(and(le(tInt(16), tLen(ct)), eqInt(modc(tLen(ct), 16), tZero)), ok)
}

func c37s(c *ctx) {
	for _, k := range decKinds {
		k := k
		c.scenario("decrypt with a state: "+k, func(s *scn) {
			x := s.decryptState(k)
			x.step(k)
			if k == "behind" {
				s.assume(x.have)
				x.key = s.keptKey(s.el(x.kept, x.R))
				s.wholeKey(s.el(x.kept, x.R))
				s.assume(fnBool("ok:aeskey", tLen(x.key.cipher)))
			}
			s.assume(x.inOrder(x.key))
			s.assume(not(s.sourceFails(x.m0)))
			s.reach("accept.session", k)
			s.holds("accept.session", k, okOf(x.r))
		})
	}
}

func c37g(c *ctx) {
	for _, k := range groupKinds {
		k := k
		c.scenario("decrypt for a group: "+k, func(s *scn) {
			x := s.groupDecrypt(k)
			verified := tFalse
			for _, e := range x.events(x.m0, "ed25519.Verify") {
				verified = or(verified, and(e.g, asBoolT(e.res)))
			}
			var iv, key *Term
			if k == "behind" {
				s.assume(x.have1)
				e := s.el(x.kept, x.R)
				s.wholeGroupKey(e)
				iv, key = s.sq(s.df(e, "IV")), s.sq(s.df(e, "CipherKey"))
				s.assume(fnBool("ok:aeskey", tLen(key)))
			} else if k == "equal" {
				iv, key, _ = groupKey(x.ck)
			} else {
				iv, key, _ = groupKey(chainAt(x.ck, sub(x.iter, x.idx)))
			}
			s.assume(verified)
			s.assume(s.decryptable(key, iv, x.text))
			s.reach("accept.group", k)
			s.holds("accept.group", k, okOf(x.r))
		})
	}
}

func (s *scn) wholeGroupKey(e *Term) {
	for f, n := range map[string]int64{"CipherKey": 32, "IV": 16} {
		v := s.df(e, f)
		s.assume(not(isNil(v)))
		s.assume(eqInt(tLen(s.sq(v)), tInt(n)))
	}
}

// affirmed: the stores said yes wherever they were asked.
func (x *peer) affirmed() *Term {
	c := tTrue
	for _, n := range []string{"IdentityKey.IsTrustedIdentity", "Session.ContainsSession"} {
		for _, e := range x.calls(n) {
			c = and(c, or(not(e.g), asBoolT(e.res)))
		}
	}
	return c
}

func c37r(c *ctx, eff *effects) {
	c.decryptStored(eff, func(x *peer, r, m *Term) {
		s := x.scn
		s.assume(x.affirmed())
		x.outcome(m, func(kind string, d, j *Term) {
			if kind != "none" {
				s.reach("accept.stored", kind)
				s.holds("accept.stored", kind, okOf(r))
			}
		})
	})
	for _, fresh := range []bool{true, false} {
		fresh := fresh
		n := "process a prekey message"
		if fresh {
			n += " in a fresh record"
		}
		c.scenario(n, func(s *scn) {
			x := s.process(fresh)
			there := and(fnBool("has:signedprekey", x.sid), or(not(x.hasID), fnBool("has:prekey", x.pidValue)))
			s.assume(and(x.affirmed(), or(x.known, there)))
			s.assume(not(s.sourceFails(x.m0)))
			s.reach("accept.prekey", n)
			s.holds("accept.prekey", n, okOf(x.r))
		})
	}
	c.receptions(eff, func(x *built, what string) {
		s := x.scn
		s.assume(x.affirmed())
		s.assume(not(s.sourceFails(x.m0)))
		x.outcome(s.method(x.msg, "WhisperMessage"), func(kind string, d, j *Term) {
			if kind != "none" {
				s.reach("accept.received", kind)
				s.holds("accept.received", kind, okOf(x.r))
			}
		})
	})
	for _, k := range offers {
		k := k
		c.scenario("bundle with "+k, func(s *scn) {
			x := s.offer(k, false)
			verified := tFalse
			for _, e := range x.events(x.m0, "ed25519.Verify") {
				verified = or(verified, and(e.g, asBoolT(e.res)))
			}
			s.assume(and(verified, x.affirmed()))
			s.assume(not(s.sourceFails(x.m0)))
			s.reach("accept.bundle", k)
			s.holds("accept.bundle", k, okOf(x.r))
		})
	}
}

func c37e(c *ctx) {
	c.scenario("encrypt", func(s *scn) {
		x := s.send(true)
		v := s.df(x.cur0, "SessionVersion")
		s.assume(and(le(tInt(2), v), le(v, tInt(v3))))
		s.assume(x.affirmed())
		s.assume(not(s.sourceFails(x.m0)))
		s.reach("accept.encrypt", "a session")
		s.holds("accept.encrypt", "a session", okOf(x.r))
	})
	c.scenario("encrypt for a group", func(s *scn) {
		x := s.group()
		s.assume(and(x.have, lt(tZero, tLen(x.states))))
		e := s.el(x.states, tZero)
		idx := s.df(e, "SenderChainKey", "Iteration")
		s.assume(lt(idx, tInt(1<<32-1)))
		s.assume(not(isNil(s.df(e, "SigningKeyPrivate"))))
		priv := s.sq(s.df(e, "SigningKeyPrivate"))
		s.assume(eqInt(tLen(priv), tInt(32)))
		pt := s.input("plaintext", "[]byte")
		iv, key, _ := groupKey(s.sq(s.df(e, "SenderChainKey", "ChainKey")))
		ct := tCBC("enc", key, iv, padded(s.bytes(pt)))
		x.m0 = s.mark()
		r := s.method(x.gc, "Encrypt", pt)
		s.assume(not(s.sourceFails(x.m0)))
		body := fnL("ser:protocol.SenderKeyMessageSerializer", s.fld(x.ser, "SenderKeyMessage"), s.deep(s.build("protocol.SenderKeyMessageStructure", map[string]*Term{
			"ID": s.df(e, "KeyID"), "Iteration": idx, "CipherText": s.slice(ct), "Version": tInt(v3),
		})))
		// a signature is never all zeros
		for _, e := range x.events(x.m0, "random") {
			if tLen(e.res) == tInt(64) {
				s.assume(not(asBoolT(tEq(s.signature(priv, body, e.res), tRep(tZero, tInt(64))))))
			}
		}
		s.reach("accept.groupencrypt", "a group")
		s.holds("accept.groupencrypt", "a group", okOf(r))
	})
}

func init() {
	reg("C37", 60, "decryption, processing and encryption of unknown input under the conditions that make it genuine: no way out with an error is left", func(c *ctx) {
		withTrials(c37s)(c)
		c37g(c)
		c37r(c, c.decryptEffects())
		c37e(c)
	})
}
