package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// C36: what goes over the wire is the published Signal format.

// protoFields are the fields of a marshalled message by their number.
func protoFields(e *Term) (fields map[int]*Term, kinds map[int]string, ok bool) {
	if e.op != OFn || !strings.HasPrefix(e.name, "enc:proto:") || e.args[0].op != OObj || e.args[0].args[0].op != OStruct {
		return nil, nil, false
	}
	v := e.args[0].args[0]
	t, isStruct := v.typ.Underlying().(*types.Struct)
	if !isStruct {
		return nil, nil, false
	}
	fields, kinds = map[int]*Term{}, map[int]string{}
	for i := 0; i < t.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(t.Tag(i)).Get("protobuf"), ",")
		if len(tag) < 3 {
			continue
		}
		n := 0
		fmt.Sscan(tag[1], &n)
		if fields[n] != nil {
			return nil, nil, false
		}
		fields[n] = v.args[i]
		kinds[n] = tag[0] + " " + tag[2] + " " + t.Field(i).Type().String()
	}
	return fields, kinds, true
}

// published compares bytes with version, protobuf fields by number and what
// follows them.
func (s *scn) published(rule, what string, got *Term, want map[int]*Term, rest *Term) {
	got = simp(got, s.st.g)
	if got.op == OIte {
		c := asBDD(got.args[0])
		s.at(c, func() { s.published(rule, what, got.args[1], want, rest) })
		s.at(not(c), func() { s.published(rule, what, got.args[2], want, rest) })
		return
	}
	if s.st.g == tFalse {
		return
	}
	parts := []*Term{got}
	if got.op == OCat {
		parts = got.args
	}
	var enc *Term
	for _, p := range parts {
		if p.op == OFn && strings.HasPrefix(p.name, "enc:proto:") {
			enc = p
		}
	}
	found := false
	var fields map[int]*Term
	var kinds map[int]string
	if enc != nil {
		fields, kinds, found = protoFields(enc)
	}
	if !s.ob(rule, s.name2(what+": a protobuf message"), s.pos, found, func() string { return str(got) }) {
		return
	}
	s.eq(rule, what+": version byte 0x33, message, "+map[bool]string{true: "nothing more", false: "suffix"}[rest == tEmpty], got, tCat(tBytes("3"), enc, rest))
	for n := range want {
		if fields[n] == nil {
			s.ob(rule, s.name2(fmt.Sprintf("%s: field %d is in the schema", what, n)), s.pos, false, func() string { return fmt.Sprint(kinds) })
		}
	}
	for n, f := range fields {
		name := fmt.Sprintf("%s: field %d", what, n)
		w := want[n]
		f = simp(f, s.st.g)
		if w == nil || w.op == ONil {
			// an empty optional field is not written
			empty := f.op == ONil || f.op == OSeqv && f.args[0] == tTrue || f.op == OSeqv && asBoolT(f.args[0]) == tTrue
			s.ob(rule, s.name2(name+" is absent"), s.pos, empty || s.is(s.st.g, isNil(f)), func() string { return str(f) })
			continue
		}
		kind := "varint opt *uint32"
		var v *Term
		switch {
		case isInt(w):
			if f.op == OObj {
				v = f.args[0]
			}
		default:
			kind = "bytes opt []byte"
			if f.op == OSeqv {
				v = f.args[1]
			}
		}
		k := kinds[n]
		if !s.ob(rule, s.name2(name+" has the published type"), s.pos, strings.ReplaceAll(k, "req", "opt") == kind, func() string { return k + ", published: " + kind }) {
			continue
		}
		if !s.ob(rule, s.name2(name+" is written"), s.pos, v != nil, func() string { return str(f) }) {
			continue
		}
		s.eq(rule, name, v, w)
	}
}

// djb is the encoding of a public key.
func djb(k *Term) *Term { return tCat(tBytes("\x05"), k) }

// anyMinor is a message with other low bits in its version byte.
func (s *scn) anyMinor(m *Term) *Term {
	x := s.bytes(m)
	b := s.input("minor", "byte")
	s.assume(and(le(tInt(0x30), b), le(b, tInt(0x3f))))
	return s.slice(tCat(tUnit(b), tSub(x, tOne, addi(tLen(x), -1))))
}

func c36(c *ctx) {
	c.scenario("session message", func(s *scn) {
		ser := s.serializerOf("ProtoBuf", "SignalMessage", "protocol.NewSignalMessageFromBytes", 1)
		a := s.args("protocol.NewSignalMessage", "version", "counter", "previous", "mackey", "ratchet", "text", "sender", "receiver", "serializer")
		rk := s.input("rk", "[32]byte")
		a[4], a[6], a[7] = s.pubKey(rk), s.idKey(s.input("sid", "[32]byte")), s.idKey(s.input("rid", "[32]byte"))
		a[0], a[8] = tInt(v3), ser
		s.assume(not(isNil(a[5])))
		r := s.call("protocol.NewSignalMessage", a...)
		s.assume(okOf(r))
		m := res(r, 0)
		s.reach("wire.session", "made")
		mac := s.bytes(s.fld(s.method(m, "Structure"), "Mac"))
		s.eq("wire.session", "length of the MAC", tLen(mac), tInt(8))
		s.published("wire.session", "session message", s.bytes(s.method(m, "Serialize")), map[int]*Term{
			1: djb(rk), 2: a[1], 3: a[2], 4: s.bytes(a[5])}, mac)
		s.eq("wire.type", "type of a session message", s.method(m, "Type"), tInt(2))
		// the sender's own newest version is in the low bits
		q := s.call("protocol.NewSignalMessageFromBytes", s.anyMinor(s.method(m, "Serialize")), ser)
		s.holds("wire.minor", "a session message of a newer sender decodes", okOf(q))
		s.assume(okOf(q))
		s.eq("wire.minor", "session message: version", s.method(res(q, 0), "MessageVersion"), tInt(v3))
		s.eq("wire.minor", "session message: counter", s.method(res(q, 0), "Counter"), a[1])
		s.eq("wire.minor", "session message: body", s.bytes(s.method(res(q, 0), "Body")), s.bytes(a[5]))
	})
	c.scenario("prekey message", func(s *scn) {
		ser := s.serializerOf("ProtoBuf", "PreKeySignalMessage", "protocol.NewPreKeySignalMessageFromBytes", 1)
		mser := s.serializerOf("ProtoBuf", "SignalMessage", "protocol.NewSignalMessageFromBytes", 1)
		m := s.sent(mser)
		a := s.args("protocol.NewPreKeySignalMessage", "version", "registration", "prekeyid", "signedid", "base", "identity", "message", "ser", "mser")
		base, id := s.input("base", "[32]byte"), s.input("identity", "[32]byte")
		a[0], a[4], a[5], a[6], a[7], a[8] = tInt(v3), s.pubKey(base), s.idKey(id), m, ser, mser
		r := s.call("protocol.NewPreKeySignalMessage", a...)
		s.assume(okOf(r))
		p := res(r, 0)
		none := s.absent(a[2])
		text, inner := s.bytes(s.method(p, "Serialize")), s.bytes(s.method(m, "Serialize"))
		want := map[int]*Term{5: a[1], 6: a[3], 2: djb(base), 3: djb(id), 4: inner}
		s.at(none, func() {
			s.reach("wire.prekey", "without one-time prekey")
			s.published("wire.prekey", "prekey message without one-time prekey", text, want, tEmpty)
		})
		s.at(not(none), func() {
			s.reach("wire.prekey", "with one-time prekey")
			want[1] = s.fld(a[2], "Value")
			s.published("wire.prekey", "prekey message", text, want, tEmpty)
		})
		s.eq("wire.type", "type of a prekey message", s.method(p, "Type"), tInt(3))
		q := s.call("protocol.NewPreKeySignalMessageFromBytes", s.anyMinor(s.method(p, "Serialize")), ser, mser)
		s.holds("wire.minor", "a prekey message of a newer sender decodes", okOf(q))
		s.assume(okOf(q))
		s.eq("wire.minor", "prekey message: version", s.method(res(q, 0), "MessageVersion"), tInt(v3))
		s.eq("wire.minor", "prekey message: base key", s.pubBytes(s.method(res(q, 0), "BaseKey")), base)
	})
	c.scenario("sender key message", func(s *scn) {
		ser := s.serializerOf("ProtoBuf", "SenderKeyMessage", "protocol.NewSenderKeyMessageFromBytes", 1)
		a := s.args("protocol.NewSenderKeyMessage", "keyid", "iteration", "text", "key", "ser")
		a[3], a[4] = s.iface(s.call("ecc.NewDjbECPrivateKey", s.input("signing", "[32]byte"))), ser
		s.assume(not(isNil(a[2])))
		text := s.bytes(a[2])
		p := s.call("protocol.NewSenderKeyMessage", a...)
		want := map[int]*Term{1: a[0], 2: a[1], 3: text}
		sig := s.bytes(s.method(p, "Signature"))
		s.eq("wire.group", "length of the signature", tLen(sig), tInt(64))
		s.published("wire.group", "sender key message", s.bytes(s.method(p, "SignedSerialize")), want, sig)
		s.published("wire.group", "signed part of a sender key message", s.bytes(s.method(p, "Serialize")), want, tEmpty)
		s.eq("wire.type", "type of a sender key message", s.method(p, "Type"), tInt(4))
		q := s.call("protocol.NewSenderKeyMessageFromBytes", s.anyMinor(s.method(p, "SignedSerialize")), ser)
		s.holds("wire.minor", "a sender key message of a newer sender decodes", okOf(q))
		s.assume(okOf(q))
		s.eq("wire.minor", "sender key message: version", s.method(res(q, 0), "Version"), tInt(v3))
		s.eq("wire.minor", "sender key message: ciphertext", s.bytes(s.method(res(q, 0), "Ciphertext")), text)
	})
	c.scenario("distribution message", func(s *scn) {
		ser := s.serializerOf("ProtoBuf", "SenderKeyDistributionMessage", "protocol.NewSenderKeyDistributionMessageFromBytes", 1)
		a := s.args("protocol.NewSenderKeyDistributionMessage", "id", "iteration", "chain", "key", "ser")
		key := s.input("signing", "[32]byte")
		a[3], a[4] = s.iface(s.pubKey(key)), ser
		s.assume(not(isNil(a[2])))
		p := s.call("protocol.NewSenderKeyDistributionMessage", a...)
		s.published("wire.group", "distribution message", s.bytes(s.method(p, "Serialize")), map[int]*Term{
			1: a[0], 2: a[1], 3: s.bytes(a[2]), 4: djb(key)}, tEmpty)
		s.eq("wire.type", "type of a distribution message", s.method(p, "Type"), tInt(5))
		q := s.call("protocol.NewSenderKeyDistributionMessageFromBytes", s.anyMinor(s.method(p, "Serialize")), ser)
		s.holds("wire.minor", "a distribution message of a newer sender decodes", okOf(q))
		s.assume(okOf(q))
		s.eq("wire.minor", "distribution message: signing key", s.pubBytes(s.method(res(q, 0), "SignatureKey")), key)
	})
}

func init() {
	reg("C36", 40, "the bytes of each message kind made with the protobuf serializer, field by field and number by number against the published schema", c36)
}
