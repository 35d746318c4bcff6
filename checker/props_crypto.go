package main

import (
	"go/types"
)

func reg(id string, min int, note string, f func(c *ctx), assum ...string) {
	checks[id] = &rule{level: "other", run: f, min: min, note: note, assum: append(assum, commonAssumptions...)}
}

var commonAssumptions = []string{
	"standard library and golang.org/x/crypto primitives behave as their documentation says (modelled as uninterpreted functions with their documented lengths, errors and aliasing)",
	"interfaces of the environment (stores, serializers, completions) do what their contract says and do not change the library's objects behind its back",
	"counters and lengths stay below 2^48 where 64-bit integers are used",
}

// ---------- C30: CBC ----------

func padTerm(n *Term) *Term { return sub(tInt(16), modc(n, 16)) }

func padded(p *Term) *Term {
	k := padTerm(tLen(p))
	return tCat(p, tRep(k, k))
}

// wellPadded is the PKCS#7 condition on decrypted data.
func wellPadded(d *Term) (cond, n *Term) {
	l := tLen(d)
	last := tAt(d, addi(l, -1))
	s := freshInt("g")
	fnBounds[s.name] = fnBoundsNat
	g := and(le(tOne, last), and(le(last, tInt(16)), le(last, l)))
	var bad *Term
	underGuard(g, func() {
		bad = tExists(last, not(tEq(tAt(d, add(sub(l, last), s)), last)), s)
	})
	return and(g, not(bad)), last
}

func c30(c *ctx) {
	type api struct{ enc, dec string }
	for _, a := range []api{{"cipher.EncryptCbc", "cipher.DecryptCbc"}, {"cipher.Encrypt", "cipher.Decrypt"}} {
		a := a
		c.scenario(a.enc, func(s *scn) {
			iv, key, pt := s.input("iv", "[]byte"), s.input("key", "[]byte"), s.input("plaintext", "[]byte")
			p0, k0, i0 := s.bytes(pt), s.bytes(key), s.bytes(iv)
			r := s.call(a.enc, iv, key, pt)
			s.assume(okOf(r))
			s.reach("cbc.encrypt", a.enc+" succeeds")
			s.at(eqInt(tLen(i0), tInt(16)), func() {
				s.reach("cbc.encrypt", a.enc+" with an iv")
				s.eq("cbc.encrypt", a.enc, s.bytes(res(r, 0)), tCBC("enc", k0, i0, padded(p0)))
			})
			s.at(not(eqInt(tLen(i0), tInt(16))), func() {
				if s.st.g == tFalse {
					return
				}
				out := s.bytes(res(r, 0))
				iv2 := tSub(out, tZero, tInt(16))
				s.eq("cbc.encrypt", a.enc+" with a random iv", tSub(out, tInt(16), sub(tLen(out), tInt(16))), tCBC("enc", k0, iv2, padded(p0)))
				s.holds("cbc.encrypt", a.enc+" without an iv", isNil(iv))
				s.ob("cbc.encrypt", s.name2("iv is fresh randomness"), s.pos, s.isFresh(iv2), func() string { return dag(iv2, 300) })
			})
		})
		c.scenario(a.dec, func(s *scn) {
			iv, key, ct := s.input("iv", "[]byte"), s.input("key", "[]byte"), s.input("ciphertext", "[]byte")
			c0, k0, i0 := s.bytes(ct), s.bytes(key), s.bytes(iv)
			r := s.call(a.dec, iv, key, ct)
			ok := okOf(r)
			check := func(what string, i, body *Term) {
				s.at(ok, func() {
					s.holds("cbc.decrypt", a.dec+" accepts only whole blocks"+what, and(le(tOne, tLen(body)), eqInt(modc(tLen(body), 16), tZero)))
					d := tCBC("dec", k0, i, body)
					w, n := wellPadded(d)
					s.holds("cbc.decrypt", a.dec+" accepts only consistent padding"+what, w)
					s.assume(w)
					s.reach("cbc.decrypt", a.dec+" succeeds"+what)
					s.eq("cbc.decrypt", a.dec+" result"+what, s.bytes(res(r, 0)), tSub(d, tZero, sub(tLen(d), n)))
				})
				// everything well formed is accepted
				good := and(le(tOne, tLen(body)), and(eqInt(modc(tLen(body), 16), tZero), eqInt(tLen(i), tInt(16))))
				good = and(good, eqInt(tLen(k0), tInt(32)))
				s.at(good, func() {
					w, _ := wellPadded(tCBC("dec", k0, i, body))
					s.assume(w)
					s.assume(aesOK(k0))
					s.reach("cbc.accept", a.dec+what)
					s.holds("cbc.accept", a.dec+" accepts well-formed input"+what, ok)
				})
			}
			s.at(eqInt(tLen(i0), tInt(16)), func() { check("", i0, c0) })
			if a.dec == "cipher.DecryptCbc" {
				s.at(isNil(iv), func() {
					s.assume(le(tInt(16), tLen(c0)))
					check(" (iv in front)", tSub(c0, tZero, tInt(16)), tSub(c0, tInt(16), sub(tLen(c0), tInt(16))))
				})
				s.at(isNil(iv), func() {
					s.assume(lt(tLen(c0), tInt(16)))
					s.holds("cbc.decrypt", a.dec+" rejects input shorter than an iv", not(ok))
				})
			}
			s.at(and(not(isNil(iv)), not(eqInt(tLen(i0), tInt(16)))), func() {
				s.holds("cbc.decrypt", a.dec+" rejects an iv of another length", not(ok))
			})
		})
		c.scenario(a.dec+" of "+a.enc, func(s *scn) {
			iv, key, pt := s.input("iv", "[]byte"), s.input("key", "[]byte"), s.input("plaintext", "[]byte")
			p0 := s.bytes(pt)
			s.assume(aesOK(s.bytes(key)))
			r := s.call(a.enc, iv, key, pt)
			s.assume(okOf(r))
			d := s.call(a.dec, iv, key, res(r, 0))
			s.reach("cbc.roundtrip", a.enc)
			s.holds("cbc.roundtrip", a.dec+" succeeds", okOf(d))
			s.eq("cbc.roundtrip", a.dec, s.bytes(res(d, 0)), p0)
		})
	}
}

func aesOK(k *Term) *Term { return fnBool("ok:aeskey", tLen(k)) }

// isFresh tells whether every byte of a value comes from the random source.
func (s *scn) isFresh(t *Term) bool {
	t = simp(t, s.st.g)
	switch t.op {
	case OFn:
		return len(t.name) > 4 && t.name[:4] == "rnd:"
	case OSub:
		return s.isFresh(t.args[0])
	case OCat:
		for _, a := range t.args {
			if !s.isFresh(a) {
				return false
			}
		}
		return len(t.args) > 0
	case OIte:
		return s.isFresh(t.args[1]) && s.isFresh(t.args[2])
	}
	return false
}

// ---------- C32: public keys ----------

func (s *scn) pubBytes(k *Term) *Term {
	return s.bytes(s.method(k, "PublicKey"))
}

func c32(c *ctx) {
	c.scenario("encode", func(s *scn) {
		k := s.input("key", "[32]byte")
		p := s.call("ecc.NewDjbECPublicKey", k)
		s.eq("point.encode", "PublicKey", s.pubBytes(p), k)
		s.eq("point.encode", "Serialize", s.bytes(s.method(p, "Serialize")), tCat(tBytes("\x05"), k))
		r := s.call("ecc.DecodePoint", s.method(p, "Serialize"), tZero)
		s.holds("point.roundtrip", "DecodePoint of Serialize succeeds", okOf(r))
		s.eq("point.roundtrip", "DecodePoint of Serialize", s.pubBytes(res(r, 0)), k)
	})
	c.scenario("decode", func(s *scn) {
		b, off := s.input("bytes", "[]byte"), s.input("offset", "int")
		s.assume(le(tZero, off))
		bs := s.bytes(b)
		r := s.call("ecc.DecodePoint", b, off)
		ok := okOf(r)
		want := le(addi(off, 33), tLen(bs))
		want = lift(func(x []*Term) *Term {
			if x[0] == tFalse {
				return tFalse
			}
			return tEq(tAt(bs, off), tInt(5))
		}, want)
		s.iff("point.decode", "DecodePoint accepts exactly type 5 and 33 bytes", ok, want)
		s.assume(ok)
		s.eq("point.decode", "DecodePoint key", s.pubBytes(res(r, 0)), tSub(bs, addi(off, 1), tInt(32)))
		s.eq("point.decode", "Serialize of DecodePoint", s.bytes(s.method(res(r, 0), "Serialize")), tSub(bs, off, tInt(33)))
	})
	c.scenario("identity", func(s *scn) {
		k := s.input("key", "[32]byte")
		p := s.call("ecc.NewDjbECPublicKey", k)
		id := s.call("keys/identity.NewKey", p)
		enc := tCat(tBytes("\x05"), k)
		s.eq("identity.encode", "identity.Key.Serialize", s.bytes(s.method(id, "Serialize")), enc)
		seqInfos["hex"] = seqInfo{-1, byteT}
		s.eq("identity.encode", "identity.Key.Fingerprint", s.bytes(s.method(id, "Fingerprint")), fnL("hex", enc))
		s.eq("identity.encode", "identity.Key.PublicKey", s.pubBytes(s.method(id, "PublicKey")), k)
		id2 := s.call("keys/identity.NewKeyFromBytes", k, tZero)
		s.eq("identity.decode", "identity.NewKeyFromBytes", s.bytes(s.call("keys/identity.Key.Serialize", s.box(id2))), enc)
	})
}

var _ types.Type

func init() {
	reg("C30", 20, "Every way through the CBC helpers is analysed on inputs of unknown content and length; ciphertext and result terms are compared with AES-CBC of the PKCS#7-padded input, acceptance with the padding rule, and decryption of encryption with the identity.", c30)
	reg("C32", 10, "The encoder and decoder of public keys are analysed on unknown bytes and offset; acceptance is compared with the exact condition and results with the encoded bytes.", c32)
}

// rndIn finds the random value a term is made from.
func rndIn(t *Term) *Term {
	if t.op == OFn && len(t.name) > 4 && t.name[:4] == "rnd:" {
		return t
	}
	for _, a := range t.args {
		if r := rndIn(a); r != nil {
			return r
		}
	}
	return nil
}

// clamped is a private key made of 32 random bytes.
func clamped(r *Term) *Term {
	return tCat(tUnit(mask(tAt(r, tZero), 248, 0)), tSub(r, tOne, tInt(30)), tUnit(mask(mask(tAt(r, tInt(31)), 127, 0), 255, 64)))
}

// isFreshKey: a private key is 32 fresh random bytes, clamped.
func (s *scn) isFreshKey(rule, what string, t *Term) *Term {
	t = simp(t, s.st.g)
	r := rndIn(t)
	s.ob(rule, s.name2(what+" fresh and clamped"), s.pos, r != nil && simp(asBoolT(tEq(t, clamped(r))), s.st.g) == tTrue && simp(tLen(r), s.st.g) == tInt(32), func() string { return dag(t, 300) })
	return r
}
