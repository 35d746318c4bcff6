package main

// C38: constructors and setters take over exactly what they are given.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// answers names, for each constructor, the methods that answer its parameters.
var answers = []struct {
	fn   string
	want []string // "" when nothing answers the parameter
}{
	{"protocol.NewSignalAddress", []string{"Name", "DeviceID"}},
	{"protocol.NewSenderKeyName", []string{"GroupID", "Sender"}},
	{"keys/prekey.NewBundle", []string{"RegistrationID", "DeviceID", "PreKeyID", "SignedPreKeyID", "PreKey", "SignedPreKey", "SignedPreKeySignature", "IdentityKey"}},
	{"ratchet.NewSenderParameters", []string{"OurIdentityKey", "OurBaseKey", "TheirIdentityKey", "TheirSignedPreKey", "TheirRatchetKey", "TheirOneTimePreKey"}},
	{"ratchet.NewReceiverParameters", []string{"OurIdentityKeyPair", "OurSignedPreKey", "OurOneTimePreKey", "OurRatchetKey", "TheirBaseKey", "TheirIdentityKey"}},
	{"state/record.NewUnackPreKeyMessageItems", []string{"PreKeyID", "SignedPreKeyID", "BaseKey"}},
	{"state/record.NewChain", []string{"SenderRatchetKey", "ChainKey", "MessageKeys"}},
	{"ecc.NewDjbECPublicKey", []string{"PublicKey"}},
	{"ecc.NewDjbECPrivateKey", []string{"PrivateKey"}},
	{"ecc.NewDjbECPrivateKey", []string{"Serialize"}},
	{"ecc.NewECKeyPair", []string{"PublicKey", "PrivateKey"}},
	{"keys/identity.NewKey", []string{"PublicKey"}},
	{"keys/identity.NewKeyPair", []string{"PublicKey", "PrivateKey"}},
	{"keys/message.NewKeys", []string{"CipherKey", "MacKey", "Iv", "Index"}},
	{"keys/chain.NewKey", []string{"", "Key", "Index"}},
	{"keys/root.NewKey", []string{"", "Bytes"}},
	{"groups/ratchet.NewSenderChainKey", []string{"Iteration", "Seed"}},
	{"state/record.NewPreKey", []string{"", "KeyPair"}},
	{"state/record.NewSignedPreKey", []string{"ID", "Timestamp", "KeyPair", "Signature"}},
	{"fingerprint.NewFingerprint", []string{"Display"}},
	{"state/record.NewSessionFromState", []string{"SessionState"}},
}

func c38(c *ctx) {
	for _, a := range answers {
		a := a
		c.scenario(a.fn, func(s *scn) {
			in := s.args(a.fn)
			for i, p := range s.fn(a.fn).Params {
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					s.assume(not(isNil(in[i])))
				}
			}
			kept := make([]*Term, len(in))
			for i := range in {
				kept[i] = s.deep(in[i])
			}
			r := s.call(a.fn, in...)
			s.reach("values.constructed", "constructed")
			for i, m := range a.want {
				if m != "" {
					s.eq("values.constructed", m+" is what was given", s.deep(s.method(r, m)), kept[i])
				}
			}
		})
	}
	c.scenario("optional ids", func(s *scn) {
		v := s.input("value", "uint32")
		r := s.call("util/optional.NewOptionalUint32", v)
		s.eq("values.constructed", "the value is what was given", s.fld(r, "Value"), v)
		s.holds("values.constructed", "a value is not empty", not(asBoolT(s.fld(r, "IsEmpty"))))
		s.holds("values.constructed", "the empty value is empty", asBoolT(s.fld(s.call("util/optional.NewEmptyUint32"), "IsEmpty")))
	})
	c.scenario("address text", func(s *scn) {
		n, d := s.input("name", "string"), s.input("device", "uint32")
		a := s.call("protocol.NewSignalAddress", n, d)
		s.eq("values.address", "the name, a colon, the device", s.method(a, "String"), tCat(n, tBytes(":"), decimal(d)))
	})
	c.scenario("key pair of a private key", func(s *scn) {
		k := s.input("private", "[]byte")
		s.assume(and(not(isNil(k)), eqInt(sliceLen(k), tInt(32))))
		b := s.bytes(k)
		pair := s.call("ecc.CreateKeyPair", k)
		s.reach("values.keypair", "made")
		clamped := tCat(tUnit(mask(tAt(b, tZero), 248, 0)), tSub(b, tOne, tInt(30)), tUnit(mask(tAt(b, tInt(31)), 127, 64)))
		s.holds("values.keypair", "a pair", not(isNil(pair)))
		pub, priv := s.pairOf(pair)
		s.eq("values.keypair", "the clamped private key", s.bytes(priv), clamped)
		s.eq("values.keypair", "the public key of that private key", s.bytes(pub), tPub(clamped))
	})
	c.scenario("session builder of one store", func(s *scn) {
		in := s.args("session.NewBuilderFromSignal")
		one := s.call("session.NewBuilderFromSignal", in...)
		each := s.call("session.NewBuilder", in[0], in[0], in[0], in[0], in[1], in[2])
		s.eq("values.stores", "as with that store for every kind", load(s.st.h, simp(one, s.st.g)), load(s.st.h, simp(each, s.st.g)))
	})
	c.scenario("session cipher of stores", func(s *scn) {
		b := s.args("session.NewBuilder")
		s.assume(not(isNil(b[5])))
		addr := s.input("address", "*protocol.SignalAddress")
		of := s.call("session.NewCipher", s.call("session.NewBuilder", b...), addr)
		direct := s.call("session.NewCipherFromSession", addr, b[0], b[1], b[3], s.fld(b[5], "PreKeySignalMessage"), s.fld(b[5], "SignalMessage"))
		v, w := load(s.st.h, simp(of, s.st.g)), load(s.st.h, simp(direct, s.st.g))
		st := v.typ.Underlying().(*types.Struct)
		builder := s.fn("session.NewBuilder").Signature.Results().At(0).Type()
		for i := 0; i < st.NumFields(); i++ {
			if !types.Identical(st.Field(i).Type(), builder) {
				s.eq("values.stores", "as with a builder of those stores: "+st.Field(i).Name(), w.args[i], v.args[i])
			}
		}
	})
	c38set(c)
}

// properties are the pairs SetX(v), X() of a type.
func (p *program) settable() (r []*types.Named) {
	for _, pk := range p.mod {
		if strings.Contains(pk.Pkg.Path(), "/tests") {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok || !t.Object().Exported() {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); ok && len(p.pairsOf(n)) > 0 {
				r = append(r, n)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return
}

func (p *program) pairsOf(n *types.Named) (r []string) {
	ms := types.NewMethodSet(types.NewPointer(n))
	sig := map[string]*types.Signature{}
	for i := 0; i < ms.Len(); i++ {
		sig[ms.At(i).Obj().Name()] = ms.At(i).Type().(*types.Signature)
	}
	for m, g := range sig {
		if g.Params().Len() != 0 || g.Results().Len() != 1 {
			continue
		}
		if w := sig["Set"+m]; w != nil && w.Params().Len() == 1 && w.Results().Len() == 0 && types.Identical(w.Params().At(0).Type(), g.Results().At(0).Type()) {
			r = append(r, m)
		}
	}
	sort.Strings(r)
	return
}

func c38set(c *ctx) {
	for _, n := range c.p.settable() {
		props := c.p.pairsOf(n)
		for _, m := range props {
			n, m := n, m
			c.scenario("set "+n.Obj().Name()+" "+m, func(s *scn) {
				x := inputValue("x", types.NewPointer(n), nil, false, false)
				s.assume(not(isNil(x)))
				typ := types.NewMethodSet(types.NewPointer(n)).Lookup(nil, m).Type().(*types.Signature).Results().At(0).Type()
				v := inputValue("v", typ, nil, false, false)
				if n.Obj().Name() == "State" && types.Identical(typ, types.NewSlice(types.Typ[types.Byte])) {
					// a session keeps its base keys as encoded public keys
					s.assume(and(not(isNil(v)), eqInt(sliceLen(v), tInt(33))))
					s.assume(tEq(tAt(s.bytes(v), tZero), tInt(5)))
				}
				before := map[string]*Term{}
				for _, o := range props {
					before[o] = s.deep(s.method(x, o))
				}
				given := s.deep(v)
				s.method(x, "Set"+m, v)
				s.reach("values.set", "set")
				for _, o := range props {
					if o == m {
						s.eq("values.set", m+" is what was set", s.deep(s.method(x, o)), given)
					} else {
						s.eq("values.set", o+" stays", s.deep(s.method(x, o)), before[o])
					}
				}
			})
		}
	}
}

func init() {
	reg("C38", 100, "every constructor of a value or of a session's tools, every setter and the way values print, with unknown arguments: what the accessors then answer", c38)
}
