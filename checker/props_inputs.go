package main

import (
	"fmt"
	"strings"
)

// C20: what the caller hands in is left alone.

// untouched: since a mark nothing was written to the memory of the named
// inputs, or beyond their end; without names, to that of any input.
func (s *scn) untouched(what string, from int, names ...string) {
	of := func(base string) bool {
		for _, n := range names {
			if base == n || strings.HasPrefix(base, n+".") || strings.HasPrefix(base, n+"[") {
				return true
			}
		}
		return len(names) == 0
	}
	n := 0
	for _, e := range s.in.events[from:] {
		k := strings.Index(e.name, ":")
		if k < 0 {
			continue
		}
		kind := e.name[:k]
		if kind != "write" && kind != "spare" || !of(e.name[k+1:]) {
			continue
		}
		g := simp(e.g, tTrue)
		if g != tFalse {
			g = simp(instances(g), tTrue)
		}
		if g == tFalse {
			continue
		}
		n++
		e := e
		s.ob("untouched", fmt.Sprintf("%s: %s", s.name2(what), e.name[k+1:]), e.pos, false, func() string {
			w := "written"
			if kind == "spare" {
				w = "written beyond its length"
			}
			return w + " when " + dag(g, 300)
		})
	}
	if n == 0 {
		s.ob("untouched", s.name2(what), s.pos, true, nil)
	}
}

func c20(c *ctx) {
	for _, f := range []string{"cipher.Encrypt", "cipher.Decrypt", "cipher.EncryptCbc", "cipher.DecryptCbc"} {
		f := f
		c.scenario(f, func(s *scn) {
			iv, key, text := s.input("iv", "[]byte"), s.input("key", "[]byte"), s.input("text", "[]byte")
			m := s.mark()
			r := s.call(f, iv, key, text)
			s.untouched(f, m)
			s.at(okOf(r), func() { s.reach("untouched", f+" can succeed") })
		})
	}
	c.scenario("kdf.DeriveSecrets", func(s *scn) {
		a := s.args("kdf.DeriveSecrets", "secret", "salt", "info", "size")
		m := s.mark()
		s.call("kdf.DeriveSecrets", a...)
		s.untouched("kdf.DeriveSecrets", m)
	})
	c.scenario("ecc.DecodePoint", func(s *scn) {
		b := s.input("bytes", "[]byte")
		m := s.mark()
		s.call("ecc.DecodePoint", b, tZero)
		s.untouched("ecc.DecodePoint", m)
	})
	c.scenario("provision.Decrypt", func(s *scn) {
		seqInfos["unbase64"] = seqInfo{-1, byteT}
		a := s.args("provision.Decrypt", "private", "content")
		m := s.mark()
		s.call("provision.Decrypt", a...)
		s.untouched("provision.Decrypt", m)
	})
	// signatures and MACs
	c.scenario("signing", func(s *scn) {
		key := s.iface(s.call("ecc.NewDjbECPrivateKey", s.input("private", "[32]byte")))
		a := s.args("ecc.CalculateSignature", "key", "message")
		m := s.mark()
		s.call("ecc.CalculateSignature", key, a[1])
		s.untouched("ecc.CalculateSignature", m)
	})
	c.scenario("verifying", func(s *scn) {
		key := s.iface(s.call("ecc.NewDjbECPublicKey", s.input("public", "[32]byte")))
		a := s.args("ecc.VerifySignature", "key", "message", "signature")
		m := s.mark()
		s.call("ecc.VerifySignature", key, a[1], a[2])
		s.untouched("ecc.VerifySignature", m)
	})
	c.scenario("a session message", func(s *scn) {
		x := s.message("message")
		sid, rid := s.input("sid", "[32]byte"), s.input("rid", "[32]byte")
		key, v := s.input("mackey", "[]byte"), s.input("version", "int")
		one, two := s.idKey(sid), s.idKey(rid)
		before := s.deep(s.method(x.msg, "Structure"))
		m := s.mark()
		s.method(x.msg, "VerifyMac", v, one, two, key)
		s.untouched("VerifyMac", m)
		s.eq("same", "VerifyMac leaves the message", s.deep(s.method(x.msg, "Structure")), before)
		m = s.mark()
		s.method(x.msg, "Serialize")
		s.untouched("Serialize", m)
		s.eq("same", "Serialize leaves the message", s.deep(s.method(x.msg, "Structure")), before)
	})
	for _, l := range []struct{ build, typ string }{
		{"protocol.NewSenderKeyMessageFromStruct", "SenderKeyMessageStructure"},
		{"protocol.NewSenderKeyDistributionMessageFromStruct", "SenderKeyDistributionMessageStructure"},
	} {
		l := l
		c.scenario(l.typ, func(s *scn) {
			st := s.input("message", "*protocol."+l.typ)
			ser := s.args(l.build, "message", "serializer")[1]
			s.assume(not(isNil(st)))
			s.assume(not(isNil(ser)))
			m := s.mark()
			r := s.call(l.build, st, ser)
			s.untouched(l.build, m)
			s.assume(okOf(r))
			msg := res(r, 0)
			before := s.deep(msg)
			m = s.mark()
			if l.typ == "SenderKeyMessageStructure" {
				s.method(msg, "SignedSerialize")
			}
			s.method(msg, "Serialize")
			s.untouched("verifying and serializing", m)
			s.eq("same", "the message is as before", s.deep(msg), before)
		})
	}
	for _, l := range []struct{ f, in string }{
		{"protocol.NewSignalMessageFromBytes", ""}, {"protocol.NewPreKeySignalMessageFromBytes", ""},
		{"protocol.NewSenderKeyMessageFromBytes", ""}, {"protocol.NewSenderKeyDistributionMessageFromBytes", ""},
	} {
		l := l
		c.scenario(l.f, func(s *scn) {
			a := s.args(l.f, "data", "serializer", "serializer2", "serializer3")[:len(s.fn(l.f).Params)]
			for _, x := range a[1:] {
				s.assume(not(isNil(x)))
			}
			m := s.mark()
			s.call(l.f, a...)
			s.untouched(l.f, m, "data")
		})
	}
	// sessions
	withTrials(func(c *ctx) {
		for _, k := range append(append([]string{}, decKinds...), "far", "uninitialized") {
			k := k
			c.scenario("decrypt with a state: "+k, func(s *scn) {
				m := s.mark()
				x := s.decryptState(k)
				s.untouched("decryption, "+k, m, "message")
				if x.h0 != nil {
					s.eq("same", k+": the message is as before", s.deep(x.msg), simp(deep(x.h0, simp(x.msg, s.st.g)), s.st.g))
				}
			})
		}
	})(c)
	for _, established := range []bool{true, false} {
		established := established
		c.scenario(fmt.Sprint("encrypt in a session: ", established), func(s *scn) {
			m := s.mark()
			s.send(established)
			s.untouched("encryption", m, "plaintext")
		})
	}
	eff := c.decryptEffects()
	c.scenario("decrypt a session message", func(s *scn) {
		x := s.peer(eff, false)
		msg := s.input("message", "*protocol.SignalMessage")
		m := s.mark()
		s.method(x.cipher, "DecryptAndGetKey", msg)
		s.untouched("decryption", m, "message")
	})
	c.receptions(eff, func(x *built, what string) {
		x.untouched("decryption of a prekey message "+what, x.m0, "message")
	})
	// groups
	for _, k := range append([]string{"none", "far"}, groupKinds...) {
		k := k
		c.scenario("decrypt for a group: "+k, func(s *scn) {
			m := s.mark()
			x := s.groupDecrypt(k)
			s.untouched("group decryption, "+k, m, "message")
			s.eq("same", k+": the message is as before", s.deep(x.msg), simp(deep(x.h0, simp(x.msg, s.st.g)), s.st.g))
		})
	}
	c.scenario("encrypt for a group", func(s *scn) {
		x := s.group()
		pt := s.input("plaintext", "[]byte")
		m := s.mark()
		s.method(x.gc, "Encrypt", pt)
		s.untouched("group encryption", m, "plaintext")
	})
	c.scenario("process a distribution message", func(s *scn) {
		x := s.group()
		msg := s.input("message", "*protocol.SenderKeyDistributionMessage")
		s.assume(not(isNil(msg)))
		m := s.mark()
		s.method(x.builder, "Process", x.name, msg)
		s.untouched("processing a distribution message", m, "message")
	})
}

func init() {
	reg("C20", 60, "every entry point that takes buffers or messages: all writes to memory the caller handed in, and beyond the length of its slices", c20)
}
