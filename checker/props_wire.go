package main

import (
	"fmt"
	"sort"
)

// Wire messages: round trips and what is accepted.

const v3 = 3

func (s *scn) absent(o *Term) *Term {
	n := isNil(o)
	e := tFalse
	s.at(not(n), func() { e = asBoolT(s.fld(o, "IsEmpty")) })
	return or(n, e)
}

// sameSignal: a decoded session message reports what the original does.
func (s *scn) sameSignal(rule, what string, a, b *Term) {
	for _, m := range []string{"MessageVersion", "Counter", "Type"} {
		s.eq(rule, what+m, s.method(b, m), s.method(a, m))
	}
	s.eq(rule, what+"ratchet key", s.pubBytes(s.method(b, "SenderRatchetKey")), s.pubBytes(s.method(a, "SenderRatchetKey")))
	s.eq(rule, what+"body", s.bytes(s.method(b, "Body")), s.bytes(s.method(a, "Body")))
	x, y := s.method(a, "Structure"), s.method(b, "Structure")
	s.eq(rule, what+"previous counter", s.fld(y, "PreviousCounter"), s.fld(x, "PreviousCounter"))
	s.eq(rule, what+"MAC", s.bytes(s.fld(y, "Mac")), s.bytes(s.fld(x, "Mac")))
	s.eq(rule, what+"serialized again", s.bytes(s.method(b, "Serialize")), s.bytes(s.method(a, "Serialize")))
}

// sent is a session message as the library makes it.
func (s *scn) sent(ser *Term) *Term {
	a := s.args("protocol.NewSignalMessage", "version", "counter", "previous", "mackey", "ratchet", "text", "sender", "receiver", "serializer")
	a[4], a[6], a[7] = s.pubKey(s.input("rk", "[32]byte")), s.idKey(s.input("sid", "[32]byte")), s.idKey(s.input("rid", "[32]byte"))
	a[0], a[8] = tInt(v3), ser
	s.assume(not(isNil(a[5])))
	r := s.call("protocol.NewSignalMessage", a...)
	s.assume(okOf(r))
	return res(r, 0)
}

func c14(c *ctx) {
	for _, kind := range serializerKinds {
		kind := kind
		c.scenario("session message, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "SignalMessage", "protocol.NewSignalMessageFromBytes", 1)
			p := s.sent(ser)
			q := s.call("protocol.NewSignalMessageFromBytes", s.method(p, "Serialize"), ser)
			s.holds("signal.load", "an encoded message decodes", okOf(q))
			s.assume(okOf(q))
			s.reach("signal.load", "decoded")
			s.sameSignal("signal.same", "", p, res(q, 0))
		})
		c.scenario("prekey message, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "PreKeySignalMessage", "protocol.NewPreKeySignalMessageFromBytes", 1)
			mser := s.serializerOf(kind, "SignalMessage", "protocol.NewSignalMessageFromBytes", 1)
			m := s.sent(mser)
			a := s.args("protocol.NewPreKeySignalMessage", "version", "registration", "prekeyid", "signedid", "base", "identity", "message", "ser", "mser")
			base, id := s.input("base", "[32]byte"), s.input("identity", "[32]byte")
			a[0], a[4], a[5], a[6], a[7], a[8] = tInt(v3), s.pubKey(base), s.idKey(id), m, ser, mser
			r := s.call("protocol.NewPreKeySignalMessage", a...)
			s.holds("prekey.new", "a prekey message can be made", okOf(r))
			s.assume(okOf(r))
			p := res(r, 0)
			q := s.call("protocol.NewPreKeySignalMessageFromBytes", s.method(p, "Serialize"), ser, mser)
			s.holds("prekey.load", "an encoded message decodes", okOf(q))
			s.assume(okOf(q))
			for i, b := range []*Term{p, res(q, 0)} {
				w := []string{"made: ", "decoded: "}[i]
				s.eq("prekey.same", w+"version", s.method(b, "MessageVersion"), tInt(v3))
				s.eq("prekey.same", w+"registration id", s.method(b, "RegistrationID"), a[1])
				s.eq("prekey.same", w+"signed prekey id", s.method(b, "SignedPreKeyID"), a[3])
				s.eq("prekey.same", w+"base key", s.pubBytes(s.method(b, "BaseKey")), base)
				s.eq("prekey.same", w+"identity key", s.pubBytes(s.method(s.method(b, "IdentityKey"), "PublicKey")), id)
				o := s.method(b, "PreKeyID")
				none := s.absent(a[2])
				s.iff("prekey.id", w+"prekey id absent", s.absent(o), none)
				s.at(none, func() { s.reach("prekey.id", w+"absent") })
				s.at(not(none), func() {
					s.reach("prekey.id", w+"present")
					s.eq("prekey.id", w+"prekey id", s.fld(o, "Value"), s.fld(a[2], "Value"))
				})
				s.sameSignal("prekey.message", w, m, s.method(b, "WhisperMessage"))
			}
		})
		c.scenario("sender key message, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "SenderKeyMessage", "protocol.NewSenderKeyMessageFromBytes", 1)
			a := s.args("protocol.NewSenderKeyMessage", "keyid", "iteration", "text", "key", "ser")
			a[3], a[4] = s.iface(s.call("ecc.NewDjbECPrivateKey", s.input("signing", "[32]byte"))), ser
			s.assume(not(isNil(a[2])))
			text := s.bytes(a[2])
			p := s.call("protocol.NewSenderKeyMessage", a...)
			q := s.call("protocol.NewSenderKeyMessageFromBytes", s.method(p, "SignedSerialize"), ser)
			s.holds("sender.load", "an encoded message decodes", okOf(q))
			s.assume(okOf(q))
			for i, b := range []*Term{p, res(q, 0)} {
				w := []string{"made: ", "decoded: "}[i]
				s.eq("sender.same", w+"version", s.method(b, "Version"), tInt(v3))
				s.eq("sender.same", w+"key id", s.method(b, "KeyID"), a[0])
				s.eq("sender.same", w+"iteration", s.method(b, "Iteration"), a[1])
				s.eq("sender.same", w+"ciphertext", s.bytes(s.method(b, "Ciphertext")), text)
				s.eq("sender.same", w+"signature", s.bytes(s.method(b, "Signature")), s.bytes(s.method(p, "Signature")))
				s.eq("sender.signed", w+"signed bytes", s.bytes(s.method(b, "Serialize")), s.bytes(s.method(p, "Serialize")))
				s.eq("sender.signed", w+"serialized again", s.bytes(s.method(b, "SignedSerialize")), s.bytes(s.method(p, "SignedSerialize")))
			}
		})
		c.scenario("distribution message, serializer "+kind, func(s *scn) {
			ser := s.serializerOf(kind, "SenderKeyDistributionMessage", "protocol.NewSenderKeyDistributionMessageFromBytes", 1)
			a := s.args("protocol.NewSenderKeyDistributionMessage", "id", "iteration", "chain", "key", "ser")
			key := s.input("signing", "[32]byte")
			a[3], a[4] = s.iface(s.pubKey(key)), ser
			s.assume(not(isNil(a[2])))
			chain := s.bytes(a[2])
			p := s.call("protocol.NewSenderKeyDistributionMessage", a...)
			q := s.call("protocol.NewSenderKeyDistributionMessageFromBytes", s.method(p, "Serialize"), ser)
			s.holds("distribution.load", "an encoded message decodes", okOf(q))
			s.assume(okOf(q))
			for i, b := range []*Term{p, res(q, 0)} {
				w := []string{"made: ", "decoded: "}[i]
				s.eq("distribution.same", w+"id", s.method(b, "ID"), a[0])
				s.eq("distribution.same", w+"iteration", s.method(b, "Iteration"), a[1])
				s.eq("distribution.same", w+"chain key", s.bytes(s.method(b, "ChainKey")), chain)
				s.eq("distribution.same", w+"signing key", s.pubBytes(s.method(b, "SignatureKey")), key)
				s.eq("distribution.again", w+"serialized again", s.bytes(s.method(b, "Serialize")), s.bytes(s.method(p, "Serialize")))
			}
		})
	}
}

// c29: what is accepted when a decoded structure becomes a message.
func c29(c *ctx) {
	type side struct {
		kind, build, typ string
		sers             []string
		required, keys   []string
		tag              int64
		same             func(s *scn, w string, m, x *Term)
	}
	sides := []side{
		{"session message", "protocol.NewSignalMessageFromStruct", "protocol.SignalMessageStructure", []string{"ser:SignalMessage"},
			[]string{"CipherText", "RatchetKey"}, []string{"RatchetKey"}, 2, func(s *scn, w string, m, x *Term) {
				s.eq("session.values", w+"version", s.method(m, "MessageVersion"), s.fld(x, "Version"))
				s.eq("session.values", w+"counter", s.method(m, "Counter"), s.fld(x, "Counter"))
				s.eq("session.values", w+"body", s.bytes(s.method(m, "Body")), s.bytes(s.fld(x, "CipherText")))
				s.eq("session.values", w+"ratchet key", s.pubBytes(s.method(m, "SenderRatchetKey")), tSub(s.bytes(s.fld(x, "RatchetKey")), tOne, tInt(32)))
				y := s.method(m, "Structure")
				s.eq("session.values", w+"previous counter", s.fld(y, "PreviousCounter"), s.fld(x, "PreviousCounter"))
				s.eq("session.values", w+"MAC", s.bytes(s.fld(y, "Mac")), s.bytes(s.fld(x, "Mac")))
			}},
		{"prekey message", "protocol.NewPreKeySignalMessageFromStruct", "protocol.PreKeySignalMessageStructure", []string{"ser:PreKeySignalMessage", "ser:SignalMessage"},
			[]string{"BaseKey", "IdentityKey", "Message"}, []string{"BaseKey", "IdentityKey"}, 3, func(s *scn, w string, m, x *Term) {
				s.eq("prekey.values", w+"version", s.method(m, "MessageVersion"), s.fld(x, "Version"))
				s.eq("prekey.values", w+"registration id", s.method(m, "RegistrationID"), s.fld(x, "RegistrationID"))
				s.eq("prekey.values", w+"signed prekey id", s.method(m, "SignedPreKeyID"), s.fld(x, "SignedPreKeyID"))
				s.eq("prekey.values", w+"base key", s.pubBytes(s.method(m, "BaseKey")), tSub(s.bytes(s.fld(x, "BaseKey")), tOne, tInt(32)))
				s.eq("prekey.values", w+"identity key", s.pubBytes(s.method(s.method(m, "IdentityKey"), "PublicKey")), tSub(s.bytes(s.fld(x, "IdentityKey")), tOne, tInt(32)))
				o, d := s.method(m, "PreKeyID"), s.fld(x, "PreKeyID")
				none := s.absent(d)
				s.iff("prekey.values", w+"prekey id absent", s.absent(o), none)
				s.at(not(none), func() { s.eq("prekey.values", w+"prekey id", s.fld(o, "Value"), s.fld(d, "Value")) })
			}},
		{"sender key message", "protocol.NewSenderKeyMessageFromStruct", "protocol.SenderKeyMessageStructure", []string{"ser:SenderKeyMessage"},
			[]string{"CipherText"}, nil, 4, func(s *scn, w string, m, x *Term) {
				s.eq("sender.values", w+"version", s.method(m, "Version"), s.fld(x, "Version"))
				s.eq("sender.values", w+"key id", s.method(m, "KeyID"), s.fld(x, "ID"))
				s.eq("sender.values", w+"iteration", s.method(m, "Iteration"), s.fld(x, "Iteration"))
				s.eq("sender.values", w+"ciphertext", s.bytes(s.method(m, "Ciphertext")), s.bytes(s.fld(x, "CipherText")))
				s.at(eqInt(tLen(s.bytes(s.fld(x, "Signature"))), tInt(64)), func() {
					s.reach("sender.values", w+"signature")
					s.eq("sender.values", w+"signature", s.bytes(s.method(m, "Signature")), tSub(s.bytes(s.fld(x, "Signature")), tZero, tInt(64)))
				})
			}},
		{"distribution message", "protocol.NewSenderKeyDistributionMessageFromStruct", "protocol.SenderKeyDistributionMessageStructure", []string{"ser:SenderKeyDistributionMessage"},
			[]string{"SigningKey", "ChainKey"}, []string{"SigningKey"}, 5, func(s *scn, w string, m, x *Term) {
				s.eq("distribution.values", w+"id", s.method(m, "ID"), s.fld(x, "ID"))
				s.eq("distribution.values", w+"iteration", s.method(m, "Iteration"), s.fld(x, "Iteration"))
				s.eq("distribution.values", w+"chain key", s.bytes(s.method(m, "ChainKey")), s.bytes(s.fld(x, "ChainKey")))
				s.eq("distribution.values", w+"signing key", s.pubBytes(s.method(m, "SignatureKey")), tSub(s.bytes(s.fld(x, "SigningKey")), tOne, tInt(32)))
			}},
	}
	for _, k := range sides {
		k := k
		c.scenario(k.kind, func(s *scn) {
			x := s.input("structure", "*"+k.typ)
			s.assume(not(isNil(x)))
			a := s.args(k.build, append([]string{"x"}, k.sers...)...)
			a[0] = x
			bad := map[string]*Term{}
			v := s.fld(x, "Version")
			bad["version at most 1"] = le(v, tOne)
			bad["version above 3"] = lt(tInt(v3), v)
			good := and(lt(tOne, v), le(v, tInt(v3)))
			for _, f := range k.required {
				n := isNil(s.fld(x, f))
				bad["no "+f] = n
				good = and(good, and(not(n), lt(tZero, tLen(s.bytes(s.fld(x, f))))))
			}
			for _, f := range k.keys {
				b := s.bytes(s.fld(x, f))
				long := le(tInt(33), tLen(b))
				typed := eqInt(tAt(b, tZero), tInt(5))
				bad["bad "+f] = or(not(long), not(typed))
				good = and(good, and(eqInt(tLen(b), tInt(33)), typed))
			}
			at := s.mark()
			r := s.call(k.build, a...)
			var inner *Term
			if k.tag == 3 {
				es := s.events(at, "SignalMessageSerializer.Deserialize")
				if !s.ob("embedded", s.name2("the embedded message is decoded"), s.pos, len(es) == 1, func() string {
					return fmt.Sprintf("%d decodings", len(es))
				}) {
					return
				}
				e := es[0]
				s.holds("embedded", "by the given serializer", tEq(e.args[0], a[2]))
				s.at(e.g, func() { s.eq("embedded", "the embedded bytes", e.args[2], s.bytes(s.fld(x, "Message"))) })
				inner = res(e.res, 0)
				var whole, open *Term
				s.at(okOf(e.res), func() {
					v, text, key := s.fld(inner, "Version"), s.fld(inner, "CipherText"), s.fld(inner, "RatchetKey")
					b := s.bytes(key)
					whole = and(and(le(tInt(2), v), le(v, tInt(v3))), and(not(or(isNil(text), isNil(key))), and(le(tInt(33), tLen(b)), eqInt(tAt(b, tZero), tInt(5)))))
					// what an empty ciphertext or a longer key means is left open
					open = or(eqInt(tLen(s.bytes(text)), tZero), lt(tInt(33), tLen(b)))
				})
				ok := and(okOf(e.res), whole)
				s.assume(not(and(ok, open)))
				ok = and(e.g, ok)
				bad["embedded message is not complete"] = not(ok)
				good = and(good, ok)
			}
			var whys []string
			for w := range bad {
				whys = append(whys, w)
			}
			sort.Strings(whys)
			for _, w := range whys {
				w := w
				s.at(bad[w], func() {
					s.reach("refused", w)
					s.holds("refused", w, not(okOf(r)))
				})
			}
			s.at(good, func() {
				s.reach("accepted", "well formed")
				s.holds("accepted", "a complete message of a supported version", okOf(r))
			})
			s.assume(okOf(r))
			m := res(r, 0)
			k.same(s, "", m, x)
			s.eq("type", "type tag", s.method(m, "Type"), tInt(k.tag))
			if inner != nil {
				sides[0].same(s, "embedded: ", s.method(m, "WhisperMessage"), inner)
			}
		})
	}
	// a message the library makes goes out as version 3
	c.scenario("version of a sender key message", func(s *scn) {
		a := s.args("protocol.NewSenderKeyMessage", "keyid", "iteration", "text", "key", "ser")
		a[3] = s.iface(s.call("ecc.NewDjbECPrivateKey", s.input("signing", "[32]byte")))
		p := s.call("protocol.NewSenderKeyMessage", a...)
		s.eq("version", "sender key message", s.method(p, "Version"), tInt(v3))
		for _, m := range []string{"Serialize", "SignedSerialize"} {
			at := s.mark()
			s.method(p, m)
			s.wireVersion(m, at)
		}
	})
	c.scenario("version of a distribution message", func(s *scn) {
		a := s.args("protocol.NewSenderKeyDistributionMessage", "id", "iteration", "chain", "key", "ser")
		a[3] = s.iface(s.pubKey(s.input("signing", "[32]byte")))
		p := s.call("protocol.NewSenderKeyDistributionMessage", a...)
		at := s.mark()
		s.method(p, "Serialize")
		s.wireVersion("distribution", at)
	})
	c.scenario("version of a session", func(s *scn) {
		ser := s.serializerOf("any", "SignalMessage", "protocol.NewSignalMessageFromBytes", 1)
		p := s.sent(ser)
		at := s.mark()
		s.method(p, "Serialize")
		s.wireVersion("session message", at)
	})
}

func (s *scn) wireVersion(what string, from int) {
	n := 0
	for _, e := range s.events(from, "Serialize") {
		for _, a := range e.args {
			if a.op == OPtr || a.op == OFAddr {
				n++
				s.eq("version", what+": wire version", s.fld(a, "Version"), tInt(v3))
			}
		}
	}
	s.ob("version", s.name2(what+": encoded"), s.pos, n > 0, func() string { return "nothing encoded" })
}

func init() {
	reg("C14", 200, "every message kind made, serialized, decoded and made again, and every decoder on unknown bytes", c14)
	reg("C29", 60, "every constructor from a decoded structure, on unknown structures", c29)
}
