package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// ---------- C24: display fingerprints ----------

func c24(c *ctx) {
	half := func(fp *Term) *Term {
		var r []*Term
		for k := int64(0); k < 6; k++ {
			v := wordOf(tSub(fp, tInt(5*k), tInt(5)), 5, true)
			r = append(r, fnL("format", tBytes("%05d"), modc(v, 100000)))
		}
		return tCat(r...)
	}
	c.scenario("display text", func(s *scn) {
		a := s.args("fingerprint.NewDisplay", "local", "remote")
		l, r := s.bytes(a[0]), s.bytes(a[1])
		s.assume(and(le(tInt(30), tLen(l)), le(tInt(30), tLen(r))))
		x := s.method(s.call("fingerprint.NewDisplay", a[0], a[1]), "DisplayText")
		y := s.method(s.call("fingerprint.NewDisplay", a[1], a[0]), "DisplayText")
		h, k := half(l), half(r)
		equal := asBoolT(tEq(h, k))
		s.at(not(equal), func() {
			s.reach("fingerprint.symmetric", "different halves")
			s.eq("fingerprint.symmetric", "the text of both sides", y, x)
			one, two := tCat(h, k), tCat(k, h)
			s.holds("fingerprint.text", "the two halves", or(tEq(x, one), tEq(x, two)))
		})
		s.at(equal, func() {
			s.reach("fingerprint.symmetric", "equal halves")
			for i, v := range []*Term{x, y} {
				// all four are the same text
				e := or(or(tEq(v, tCat(h, k)), tEq(v, tCat(k, h))), or(tEq(v, tCat(h, h)), tEq(v, tCat(k, k))))
				s.holds("fingerprint.text", fmt.Sprintf("the two halves, equal (%d)", i), e)
			}
		})
	})
	c.scenario("display text of equal fingerprints", func(s *scn) {
		a := s.args("fingerprint.NewDisplay", "local", "remote")
		l := s.bytes(a[0])
		s.assume(le(tInt(30), tLen(l)))
		x := s.method(s.call("fingerprint.NewDisplay", a[0], a[0]), "DisplayText")
		s.eq("fingerprint.text", "the half twice", x, tCat(half(l), half(l)))
	})
}

// ---------- C25: provisioning ----------

func c25(c *ctx) {
	seqInfos["unbase64"] = seqInfo{-1, byteT}
	c.scenario("provisioning envelope", func(s *scn) {
		a := s.args("provision.Decrypt", "private", "content")
		// base64 of the standard alphabet, taken off both values
		std := ptr(s.in.globalBase(s.p.prog.ImportedPackage("encoding/base64").Var("StdEncoding")))
		std = load(s.st.h, std)
		unbase := func(x *Term) (ok, v *Term) { return fnBool("ok:base64", std, x), fnL("unbase64", std, x) }
		pok, priv := unbase(a[0])
		cok, content := unbase(a[1])
		s.assume(eqInt(tLen(priv), tInt(32)))
		at := s.mark()
		r := s.call("provision.Decrypt", a...)
		es := s.events(at, "unmarshal:json")
		if !s.ob("provision.envelope", s.name2("the envelope is decoded once"), s.pos, len(es) == 1, func() string { return fmt.Sprint(len(es)) }) {
			return
		}
		e := es[0]
		s.at(e.g, func() { s.eq("provision.envelope", "the decoded content", e.args[0], content) })
		good := and(and(pok, cok), asBoolT(okErr(e.res)))
		var cond, text *Term
		s.at(good, func() {
			s.reach("provision.envelope", "an envelope")
			env := ifaceVal(e.args[1])
			body, pk := s.bytes(s.fld(env, "Body")), s.bytes(s.fld(env, "PublicKey"))
			n := tLen(body)
			kdf := tHKDF(tDH(tSub(pk, tOne, tInt(32)), priv), tEmpty, tBytes("Mixin Provisioning Message"), tInt(64))
			front, mac := tSub(body, tZero, addi(n, -32)), tSub(body, addi(n, -32), tInt(32))
			iv, ct := tSub(body, tOne, tInt(16)), tSub(body, tInt(17), addi(n, -49))
			d := tCBC("dec", tSub(kdf, tZero, tInt(32)), iv, ct)
			key := and(le(tInt(33), tLen(pk)), eqInt(tAt(pk, tZero), tInt(5)))
			form := and(le(tInt(49), n), eqInt(tAt(body, tZero), tOne))
			tag := asBoolT(tEq(mac, tHMAC("sha256", tSub(kdf, tInt(32), tInt(32)), front)))
			underGuard(and(s.st.g, form), func() {
				w, pad := wellPadded(d)
				blocks := and(le(tInt(16), tLen(ct)), eqInt(modc(tLen(ct), 16), tZero))
				cond = and(and(key, form), and(tag, and(blocks, w)))
				text = tSub(d, tZero, sub(tLen(d), pad))
			})
			s.at(okOf(r), func() {
				s.reach("provision.open", "opened")
				s.holds("provision.key", "the envelope's public key", key)
				s.holds("provision.version", "version 1", form)
				s.assume(form)
				s.holds("provision.mac", "the MAC verifies", tag)
			})
			s.assume(le(tLen(pk), tInt(33))) // longer keys are left open
			s.iff("provision.accept", "accepted if and only if in order", okOf(r), cond)
			s.at(okOf(r), func() { s.eq("provision.text", "the text", res(r, 0), text) })
		})
		s.at(not(good), func() {
			s.reach("provision.refuse", "no envelope")
			s.holds("provision.refuse", "no envelope", not(okOf(r)))
		})
		s.at(not(okOf(r)), func() { s.eq("provision.refuse", "no text with an error", res(r, 0), tEmpty) })
	})
}

// okErr: an error result is nil.
func okErr(e *Term) *Term { return isNil(e) }

// ---------- C23: signatures ----------

// edw computes with the Edwards curve functions of the library as given.
type edw struct{ s *scn }

func (e edw) obj(typ string) *Term {
	t := types.Type(nil)
	if strings.HasPrefix(typ, "[") {
		var n int64
		fmt.Sscanf(typ, "[%d]byte", &n)
		t = types.NewArray(byteT, n)
	} else {
		t = e.s.p.typeNamed("ecc/edwards25519." + typ)
	}
	e.s.n++
	return e.s.in.newObj(e.s.st, fmt.Sprintf("edw%d", e.s.n), t, zeroOf(t))
}

func (e edw) put(v *Term) *Term {
	p := e.obj(fmt.Sprintf("[%d]byte", tLen(v).i64()))
	store(e.s.st.h, p, v)
	return p
}

func (e edw) call(name string, args ...*Term) {
	f := e.s.fn("ecc/edwards25519." + name)
	e.s.n++
	e.s.in.callStatic(e.s.st, f, args, nil, fmt.Sprintf("edw%d", e.s.n), f.Pos(), nil)
}

func (e edw) get(p *Term) *Term { return load(e.s.st.h, p) }

// base is the encoded multiple of the base point.
func (e edw) base(scalar *Term) *Term {
	p, out := e.obj("ExtendedGroupElement"), e.obj("[32]byte")
	e.call("GeScalarMultBase", p, e.put(scalar))
	e.call("ExtendedGroupElement.ToBytes", p, out)
	return e.get(out)
}

func (e edw) reduce(d *Term) *Term {
	out := e.obj("[32]byte")
	e.call("ScReduce", out, e.put(d))
	return e.get(out)
}

func topBit(b *Term) *Term { return mask(tAt(b, tInt(31)), 128, 0) }

// signature is what signing must produce with given fresh bytes.
func (s *scn) signature(priv, msg, random *Term) *Term {
	e := edw{s}
	a := e.base(priv)
	prefix := tBytes("\xfe" + strings.Repeat("\xff", 31))
	r := e.reduce(tHash("sha512", tCat(prefix, priv, msg, random)))
	R := e.base(r)
	h := e.reduce(tHash("sha512", tCat(R, a, msg)))
	out := e.obj("[32]byte")
	e.call("ScMulAdd", out, e.put(h), e.put(priv), e.put(r))
	sv := e.get(out)
	return tCat(R, tSub(sv, tZero, tInt(31)), tUnit(orByte(tAt(sv, tInt(31)), topBit(a))))
}

func orByte(x, y *Term) *Term { return bitOp(token.OR, "byte", x, y) }

// edwardsKey is the Edwards form of a curve25519 key, sign clear.
func (s *scn) edwardsKey(u *Term) *Term {
	e := edw{s}
	u = tCat(tSub(u, tZero, tInt(31)), tUnit(mask(tAt(u, tInt(31)), 127, 0)))
	x, one, m, p, y := e.obj("FieldElement"), e.obj("FieldElement"), e.obj("FieldElement"), e.obj("FieldElement"), e.obj("FieldElement")
	e.call("FeFromBytes", x, e.put(u))
	e.call("FeOne", one)
	e.call("FeSub", m, x, one)
	e.call("FeAdd", p, x, one)
	e.call("FeInvert", p, p)
	e.call("FeMul", y, m, p)
	out := e.obj("[32]byte")
	e.call("FeToBytes", out, y)
	return e.get(out)
}

// sign is a signature the library makes, and the fresh bytes it took.
func c23(c *ctx) {
	c.scenario("signing", func(s *scn) {
		k := s.input("private", "[32]byte")
		key := s.iface(s.call("ecc.NewDjbECPrivateKey", k))
		a := s.args("ecc.CalculateSignature", "key", "message")
		msg := s.bytes(a[1])
		at := s.mark()
		r := s.call("ecc.CalculateSignature", key, a[1])
		es := s.events(at, "random")
		if !s.ob("sign.fresh", s.name2("fresh bytes are drawn once"), s.pos, len(es) == 1, func() string { return fmt.Sprint(len(es)) }) {
			return
		}
		e := es[0]
		s.ob("sign.fresh", s.name2("from the system source"), s.pos, s.isFresh(e.res) && simp(e.g, s.st.g) == tTrue, func() string { return dag(e.res, 200) })
		s.eq("sign.fresh", "64 bytes", tLen(e.res), tInt(64))
		ok := e.args[3]
		s.at(ok, func() {
			s.reach("sign.value", "signed")
			s.eq("sign.value", "the signature", r, s.signature(k, msg, e.res))
		})
		s.at(not(ok), func() { s.eq("sign.fails", "no signature without fresh bytes", r, tRep(tZero, tInt(64))) })
		s.eq("sign.inputs", "message unchanged", s.bytes(a[1]), msg)
	})
	c.scenario("verification", func(s *scn) {
		k, sig := s.input("public", "[32]byte"), s.input("signature", "[64]byte")
		key := s.pubKey(k)
		a := s.args("ecc.VerifySignature", "key", "message", "signature")
		msg := s.bytes(a[1])
		at := s.mark()
		r := s.call("ecc.VerifySignature", s.iface(key), a[1], sig)
		ed := s.edwardsKey(k)
		sign := mask(tAt(sig, tInt(63)), 128, 0)
		ed = tCat(tSub(ed, tZero, tInt(31)), tUnit(orByte(tAt(ed, tInt(31)), sign)))
		clear := tCat(tSub(sig, tZero, tInt(63)), tUnit(mask(tAt(sig, tInt(63)), 127, 0)))
		es := s.events(at, "ed25519.Verify")
		if s.ob("verify.once", s.name2("Ed25519 verification"), s.pos, len(es) == 1 && simp(es[0].g, s.st.g) == tTrue, func() string { return fmt.Sprint(len(es)) }) {
			s.eq("verify.key", "the Edwards key", es[0].args[0], ed)
			s.eq("verify.message", "the whole message", es[0].args[1], msg)
			s.eq("verify.signature", "the signature, bit cleared", es[0].args[2], clear)
			s.iff("verify.verdict", "the verdict", r, es[0].res)
		}
		s.eq("verify.inputs", "message unchanged", s.bytes(a[1]), msg)
		s.eq("verify.inputs", "key unchanged", s.pubBytes(key), k)
	})
}

// ---------- C22: generated keys ----------

func (s *scn) pairIsFresh(rule, what string, pair *Term) (pub, rnd *Term) {
	priv := s.bytes(s.method(s.method(pair, "PrivateKey"), "Serialize"))
	pub = s.pubBytes(s.method(pair, "PublicKey"))
	rnd = s.isFreshKey(rule, what, priv)
	s.eq(rule, what+" public key", pub, tPub(priv))
	return
}

// sourceFails: the random source fails at some point from an event on.
func (s *scn) sourceFails(from int) *Term {
	f := tFalse
	for _, e := range s.events(from, "random") {
		f = or(f, and(e.g, not(e.args[3])))
	}
	return f
}

func c22(c *ctx) {
	for _, f := range []string{"ecc.GenerateKeyPair", "util/keyhelper.GenerateIdentityKeyPair", "util/keyhelper.GenerateSenderSigningKey"} {
		f := f
		c.scenario(f, func(s *scn) {
			at := s.mark()
			r := s.call(f)
			bad := s.sourceFails(at)
			s.iff("key.source", "no key when the source fails", okOf(r), not(bad))
			s.at(okOf(r), func() {
				s.reach("key.fresh", "a key pair")
				p := res(r, 0)
				if f == "util/keyhelper.GenerateIdentityKeyPair" {
					priv := s.bytes(s.method(s.method(p, "PrivateKey"), "Serialize"))
					s.isFreshKey("key.fresh", "private key", priv)
					s.eq("key.fresh", "public key", s.pubBytes(s.method(s.method(p, "PublicKey"), "PublicKey")), tPub(priv))
					return
				}
				s.pairIsFresh("key.fresh", "pair", p)
			})
		})
	}
	c.scenario("util/keyhelper.GenerateLastResortKey", func(s *scn) {
		a := s.args("util/keyhelper.GenerateLastResortKey", "ser:PreKeyRecord")
		at := s.mark()
		r := s.call("util/keyhelper.GenerateLastResortKey", a...)
		s.iff("key.source", "no key when the source fails", okOf(r), not(s.sourceFails(at)))
		s.at(okOf(r), func() {
			s.reach("key.fresh", "a prekey")
			p := res(r, 0)
			s.pairIsFresh("key.fresh", "pair", s.method(p, "KeyPair"))
			o := s.method(p, "ID")
			s.holds("key.id", "id present", not(s.absent(o)))
			s.eq("key.id", "last resort id", s.fld(o, "Value"), tInt(0xffffff))
		})
	})
	c.scenario("util/keyhelper.GeneratePreKeys", func(s *scn) {
		a := s.args("util/keyhelper.GeneratePreKeys", "start", "count", "ser:PreKeyRecord")
		s.assume(and(le(tZero, a[0]), le(a[0], tInt(1<<30))))
		s.assume(and(le(tZero, a[1]), le(a[1], tInt(1<<30))))
		r := s.call("util/keyhelper.GeneratePreKeys", a...)
		s.at(okOf(r), func() {
			s.reach("prekeys.fresh", "prekeys")
			q := s.sq(res(r, 0))
			n := ite(le(a[0], a[1]), addi(sub(a[1], a[0]), 1), tZero)
			s.eq("prekeys.count", "one for each id from start to the end", tLen(q), n)
			s.anyIndex(tLen(q), func(i *Term) {
				p := tAt(q, i)
				o := s.method(p, "ID")
				s.holds("prekeys.id", "id present", not(s.absent(o)))
				s.eq("prekeys.id", "id", s.fld(o, "Value"), add(a[0], i))
				_, rnd := s.pairIsFresh("prekeys.fresh", "pair", s.method(p, "KeyPair"))
				// of its own
				own := false
				if rnd != nil {
					for _, x := range rnd.args {
						own = own || x == i
					}
				}
				s.ob("prekeys.own", s.name2("each prekey has random bytes of its own"), s.pos, own, func() string { return dag(rnd, 200) })
			})
		})
	})
	c.scenario("util/keyhelper.GenerateSignedPreKey", func(s *scn) {
		a := s.args("util/keyhelper.GenerateSignedPreKey", "identity", "id", "ser:SignedPreKeyRecord")
		pair, _, ipriv := s.idPair("identity")
		a[0] = pair
		at := s.mark()
		r := s.call("util/keyhelper.GenerateSignedPreKey", a...)
		s.at(s.sourceFails(at), func() {
			s.reach("key.source", "the source fails")
			s.holds("key.source", "no key when the source fails", not(okOf(r)))
		})
		s.at(okOf(r), func() {
			s.reach("signed.fresh", "a signed prekey")
			p := res(r, 0)
			pub, rnd := s.pairIsFresh("signed.fresh", "pair", s.method(p, "KeyPair"))
			s.eq("signed.id", "id", s.method(p, "ID"), a[1])
			sig := s.bytes(s.method(p, "Signature"))
			found := false
			for _, e := range s.events(at, "random") {
				if e.res != rnd && tLen(e.res) == tInt(64) && s.isFresh(e.res) {
					found = true
					s.eq("signed.signature", "signature over the serialized public key", sig, s.signature(ipriv, enc5(pub), e.res))
				}
			}
			s.ob("signed.signature", s.name2("signed with fresh bytes"), s.pos, found, func() string { return dag(sig, 300) })
		})
	})
	for _, f := range []string{"util/keyhelper.GenerateRegistrationID", "util/keyhelper.GenerateSenderKeyID"} {
		f := f
		c.scenario(f, func(s *scn) {
			at := s.mark()
			r := s.call(f)
			s.at(not(s.sourceFails(at)), func() {
				s.reach("id.fresh", "an id")
				v := simp(r, s.st.g)
				rnd := rndIn(v)
				s.ob("id.fresh", s.name2("32 random bits"), s.pos, rnd != nil && tLen(rnd) == tInt(4) && (v == wordOf(rnd, 4, true) || v == wordOf(rnd, 4, false)), func() string { return dag(v, 300) })
			})
		})
	}
	c.scenario("util/keyhelper.GenerateSenderKey", func(s *scn) {
		at := s.mark()
		r := s.call("util/keyhelper.GenerateSenderKey")
		bad := s.sourceFails(at)
		s.at(bad, func() {
			s.reach("chain.source", "the source fails")
			s.eq("chain.source", "no key when the source fails", tLen(s.bytes(r)), tZero)
		})
		s.at(not(bad), func() {
			s.reach("chain.fresh", "a chain key")
			b := s.bytes(r)
			s.eq("chain.fresh", "32 bytes", tLen(b), tInt(32))
			s.ob("chain.fresh", s.name2("random"), s.pos, s.isFresh(b), func() string { return dag(b, 200) })
		})
	})
}

// ---------- C28: asynchronous variants ----------

// async compares an asynchronous call with the synchronous one: ok tells
// whether the latter succeeds, value is what it returns then.
func (s *scn) async(sync, name string, args []*Term, split func(r *Term) (ok, value *Term)) {
	at := s.mark()
	ok, value := split(s.call(sync, args...))
	rnd := s.events(at, "random")
	at = s.mark()
	done := inputValue("completion", s.fn(name).Params[len(args)].Type(), nil, false, false)
	s.assume(not(isNil(done)))
	s.call(name, append(append([]*Term{}, args...), done)...)
	// what the source yields is what it yielded before
	var from, to []*Term
	mine := s.events(at, "random")
	if !s.ob("async.same", s.name2("random bytes drawn as in the synchronous call"), s.pos, len(rnd) == len(mine), func() string { return fmt.Sprint(len(rnd), " ", len(mine)) }) {
		return
	}
	for i, e := range mine {
		from, to = append(from, e.res), append(to, rnd[i].res)
		if x, y := e.args[3], rnd[i].args[3]; x.op == OIte && y.op == OIte {
			from, to = append(from, x.args[0]), append(to, y.args[0])
		} else {
			from, to = append(from, x), append(to, y)
		}
	}
	back := func(t *Term) *Term { return substMany(t, from, to) }
	es := s.events(at, "Completionable.OnSuccess", "Completionable.OnFailure")
	g := back(s.st.g)
	calls, twice := tFalse, tFalse
	for _, e := range es {
		s.holds("async.target", "the given completion", tEq(e.args[0], done))
		s.ob("async.once", s.name2("not in a loop"), s.pos, len(e.iter) == 0, func() string { return e.where })
		eg := back(e.g)
		twice = or(twice, and(calls, eg))
		calls = or(calls, eg)
	}
	s.st.g = g
	s.resetAmb()
	s.holds("async.once", "a completion is called", calls)
	s.holds("async.once", "no second completion", not(twice))
	succeeded := tFalse
	for _, e := range es {
		if !strings.HasSuffix(e.name, "OnSuccess") {
			continue
		}
		eg := back(e.g)
		succeeded = or(succeeded, eg)
		s.at(eg, func() {
			s.reach("async.value", "success")
			v := back(load(e.h, e.args[1]))
			if !s.ob("async.value", s.name2("a result of the call"), s.pos, v.op == OFn && v.name == "complete.Result" && v.args[0].op == OIface, func() string { return dag(v, 300) }) {
				return
			}
			s.eq("async.value", "value", v.args[0].args[0], s.deep(value))
		})
	}
	s.iff("async.outcome", "succeeds when the synchronous call does", succeeded, ok)
}

func c28(c *ctx) {
	c.scenario("ecc.CalculateSignatureAsync", func(s *scn) {
		a := s.args("ecc.CalculateSignature", "key", "message")
		a[0] = s.iface(s.call("ecc.NewDjbECPrivateKey", s.input("private", "[32]byte")))
		s.async("ecc.CalculateSignature", "ecc.CalculateSignatureAsync", a, func(r *Term) (*Term, *Term) {
			return not(asBoolT(tEq(r, tRep(tZero, tInt(64))))), r
		})
	})
	c.scenario("ecc.VerifySignatureAsync", func(s *scn) {
		a := s.args("ecc.VerifySignature", "key", "message", "signature")
		a[0] = s.iface(s.pubKey(s.input("public", "[32]byte")))
		s.async("ecc.VerifySignature", "ecc.VerifySignatureAsync", a, func(r *Term) (*Term, *Term) { return asBoolT(r), tTrue })
	})
	c.scenario("util/keyhelper.GenerateIdentityKeyPairAsync", func(s *scn) {
		s.async("util/keyhelper.GenerateIdentityKeyPair", "util/keyhelper.GenerateIdentityKeyPairAsync", nil, func(r *Term) (*Term, *Term) {
			return okOf(r), res(r, 0)
		})
	})
}

func init() {
	reg("C28", 28, "every asynchronous entry point compared with the synchronous one on the same inputs and random bytes", c28)
	reg("C22", 36, "key generation, signed prekeys, identity keys, prekey ids and random ids on every outcome of the random source", c22)
	reg("C23", 12, "signing, verification and key agreement on unknown keys, messages and signatures", c23)
	reg("C24", 5, "display text of two unknown fingerprints, both ways round, and each half's digits", c24)
	reg("C25", 10, "provisioning: every path from an unknown envelope and private key to a text or an error", c25)
}
