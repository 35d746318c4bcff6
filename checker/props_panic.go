package main

import (
	"fmt"
	"go/types"
)

// What a caller can hand in never makes the library panic.

// decoded is an unknown value as a decoder may leave it: anything may be unset.
func (s *scn) decoded(name, typ string) *Term {
	return inputValue(name, types.NewPointer(s.p.typeNamed(typ)), nil, true, false)
}

// noPanic reports every place in f that can panic.
func (s *scn) noPanic(what string, f func()) {
	o := len(s.in.obls)
	f()
	seen := map[string]bool{}
	for _, b := range s.in.obls[o:] {
		b := b
		k := fmt.Sprint(b.kind, b.pos)
		if seen[k] {
			continue
		}
		amb = tTrue
		g := simp(b.g, tTrue)
		if g != tFalse {
			g = simp(instances(g), tTrue)
		}
		amb = s.st.g
		if g == tFalse {
			continue
		}
		seen[k] = true
		s.ob("panic", s.name2(what+": "+b.kind+" in "+b.where), b.pos, false, func() string { return "panics when " + dag(g, 600) })
	}
	s.ob("panic", s.name2(what), s.pos, s.st.g != tFalse, func() string { return "never returns" })
}

// anyStates: the states of a record load in any way that a single one may.
func (s *scn) anyStates() {
	s.in.hooks["state/record.NewStateFromStructure"] = func(in *interp, st *state, c *callCtx) *Term {
		amb = st.g
		x := simp(c.args[0], st.g)
		v := inputValue("loadedstate", c.sig.Results().At(0).Type(), []*Term{x}, false, false)
		bases[v.k].maybeNil = false
		nonNilFns["error:load"] = true
		ok := fnBool("loads", x)
		return tuple(ite(ok, v, tNil), ite(ok, tNil, fn("error:load", x)))
	}
}

// dataName is the name of stored or sent bytes, which tells whether they are secret.
func dataName(field string) string {
	switch field {
	case "SignalMessage", "PreKeySignalMessage", "SenderKeyMessage":
		return "data"
	}
	return "secretdata"
}

func c15(c *ctx) {
	// wire messages and records, from bytes
	type loader struct {
		build, field string
		more         []string
		getters      []string
	}
	for _, l := range []loader{
		{"protocol.NewSignalMessageFromBytes", "SignalMessage", nil, []string{"Structure", "MessageVersion", "SenderRatchetKey", "Counter", "Body", "Type", "Serialize"}},
		{"protocol.NewPreKeySignalMessageFromBytes", "PreKeySignalMessage", []string{"SignalMessage"}, []string{"MessageVersion", "IdentityKey", "RegistrationID", "PreKeyID", "SignedPreKeyID", "BaseKey", "WhisperMessage", "Type", "Serialize"}},
		{"protocol.NewSenderKeyMessageFromBytes", "SenderKeyMessage", nil, []string{"KeyID", "Iteration", "Ciphertext", "Version", "Serialize", "SignedSerialize", "Signature", "Type"}},
		{"protocol.NewSenderKeyDistributionMessageFromBytes", "SenderKeyDistributionMessage", nil, []string{"ID", "Iteration", "ChainKey", "SignatureKey", "Serialize", "Type"}},
		{"state/record.NewPreKeyFromBytes", "PreKeyRecord", nil, []string{"ID", "KeyPair", "Serialize"}},
		{"state/record.NewSignedPreKeyFromBytes", "SignedPreKeyRecord", nil, []string{"ID", "Timestamp", "KeyPair", "Signature", "Serialize"}},
		{"state/record.NewSessionFromBytes", "Session", []string{"State"}, []string{"SessionState", "PreviousSessionStates", "IsFresh"}},
		{"state/record.NewStateFromBytes", "State", nil, []string{"Version", "SenderBaseKey", "HasSenderChain", "HasUnacknowledgedPreKeyMessage", "HasPendingKeyExchange"}},
		{"groups/state/record.NewSenderKeyFromBytes", "SenderKeyRecord", []string{"SenderKeyState"}, []string{"SenderKeyState", "IsEmpty", "Serialize"}},
		{"groups/state/record.NewSenderKeyStateFromBytes", "SenderKeyState", nil, []string{"KeyID", "SigningKey", "SenderChainKey", "Serialize"}},
	} {
		for _, kind := range serializerKinds {
			l, kind := l, kind
			c.scenario(l.build+", serializer "+kind, func(s *scn) {
				a := s.args(l.build, append([]string{dataName(l.field), "ser:" + l.field}, "ser:", "ser:")...)
				for i, f := range append([]string{l.field}, l.more...) {
					a[i+1] = s.serializerOf(kind, f, l.build, i+1)
					s.assume(not(isNil(a[i+1])))
				}
				if (l.field == "Session" || l.field == "State") && kind != "any" {
					var r *Term
					s.noPanic("decoding", func() { r = s.method(a[1], "Deserialize", a[0]) })
					s.holds("value", "a decoded record or an error", or(not(okOf(r)), not(isNil(res(r, 0)))))
					return
				}
				if l.field == "Session" {
					s.anyStates()
				}
				var r *Term
				s.noPanic("decoding", func() { r = s.call(l.build, a...) })
				s.assume(okOf(r))
				s.assume(not(isNil(res(r, 0))))
				for _, m := range l.getters {
					m := m
					s.peek(func() { s.noPanic(m, func() { s.method(res(r, 0), m) }) })
				}
			})
		}
	}
}

// c15use: what decoded messages, other inputs and missing records do to the
// operations on them.
func c15use(c *ctx) {
	c.scenario("ecc.DecodePoint", func(s *scn) {
		b := s.input("bytes", "[]byte")
		s.noPanic("ecc.DecodePoint", func() { s.call("ecc.DecodePoint", b, tZero) })
	})
	for _, f := range []string{"cipher.Decrypt", "cipher.DecryptCbc", "cipher.Encrypt", "cipher.EncryptCbc"} {
		f := f
		c.scenario(f, func(s *scn) {
			iv, key, ct := s.input("iv", "[]byte"), s.input("key", "[]byte"), s.input("text", "[]byte")
			s.noPanic(f, func() { s.call(f, iv, key, ct) })
		})
	}
	c.scenario("provision.Decrypt", func(s *scn) {
		seqInfos["unbase64"] = seqInfo{-1, byteT}
		a := s.args("provision.Decrypt", "private", "content")
		s.noPanic("provision.Decrypt", func() { s.call("provision.Decrypt", a...) })
	})
	withTrials(func(c *ctx) {
		for _, k := range append(append([]string{}, decKinds...), "far", "new far", "uninitialized") {
			k := k
			c.scenario("decrypt with a state: "+k, func(s *scn) {
				s.noPanic("decryption, "+k, func() { s.decryptState(k) })
			})
		}
	})(c)
	for _, established := range []bool{true, false} {
		established := established
		what := "encrypt in a session"
		if !established {
			what = "encrypt without a session"
		}
		c.scenario(what, func(s *scn) {
			s.noPanic(what, func() {
				x := s.send(established)
				if !established {
					s.holds("nosession", "an error", not(okOf(x.r)))
				}
			})
		})
	}
	eff := c.decryptEffects()
	for _, established := range []bool{true, false} {
		established := established
		what := "decrypt a session message"
		if !established {
			what += " without a session"
		}
		c.scenario(what, func(s *scn) {
			s.noPanic(what, func() {
				x := s.peer(map[bool]*effects{true: eff}[established], !established)
				m := s.input("message", "*protocol.SignalMessage")
				r := s.method(x.cipher, "DecryptAndGetKey", m)
				if !established {
					s.holds("nosession", "an error", not(okOf(r)))
				}
			})
		})
	}
	for _, k := range starts {
		k := k
		c.scenario("decrypt a prekey message "+k.name, func(s *scn) {
			s.noPanic("decryption of a prekey message "+k.name, func() {
				s.receiveIn(eff, k.fresh, func(x *built) *Term {
					if k.name != "for another session" {
						return k.when(x)
					}
					// with all archived states in use, one is dropped: see C26
					return and(lt(tLen(x.ptrs0), tInt(maxArchived)), k.when(x))
				})
			})
		})
	}
	for _, k := range append([]string{"none", "far"}, groupKinds...) {
		k := k
		c.scenario("decrypt for a group: "+k, func(s *scn) {
			s.noPanic("group decryption, "+k, func() {
				x := s.groupDecrypt(k)
				if k == "none" {
					s.holds("nosession", "an error", not(okOf(x.r)))
				}
			})
		})
	}
	c.scenario("encrypt for a group", func(s *scn) {
		x := s.group()
		pt := s.input("plaintext", "[]byte")
		some := and(x.have, lt(tZero, tLen(x.states)))
		s.noPanic("group encryption", func() {
			r := s.method(x.gc, "Encrypt", pt)
			s.at(not(some), func() { s.holds("nosession", "an error", not(okOf(r))) })
		})
	})
}

func init() {
	reg("C15", 130, "decoding of any bytes by every loader with serializers that return anything and with the shipped ones, the accessors of what they return, and the entry points that take decoded values: every operation that can panic, and the condition under which it would", func(c *ctx) { c15(c); c15use(c) })
}
