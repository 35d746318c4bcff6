package tests

// Demonstrations of the genuine defects recorded in /verif/known-findings.txt.
// Documentation only: no check reads this file. Run with run.sh (go test -overlay).

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"encoding/json"
	"strings"
	"testing"

	libcipher "github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grec "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/medium"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
	}()
	f()
}

var ser = serialize.NewProtoBufSerializer()

func bundleOf(u *user, preKey bool) *prekey.Bundle {
	var pk ecc.ECPublicKeyable
	id := optional.NewEmptyUint32()
	if preKey {
		pk, id = u.preKeys[0].KeyPair().PublicKey(), u.preKeys[0].ID()
	}
	return prekey.NewBundle(u.registrationID, u.deviceID, id, u.signedPreKey.ID(), pk,
		u.signedPreKey.KeyPair().PublicKey(), u.signedPreKey.Signature(), u.identityKeyPair.PublicKey())
}

func pair() (a, b *user) {
	a, b = newUser("Alice", 1, ser), newUser("Bob", 2, ser)
	a.buildSession(b.address, ser)
	b.buildSession(a.address, ser)
	return
}

func establish(t *testing.T, preKey bool) (a, b *user, ac, bc *session.Cipher) {
	a, b = pair()
	if err := a.sessionBuilder.ProcessBundle(bundleOf(b, preKey)); err != nil {
		t.Fatal(err)
	}
	return a, b, session.NewCipher(a.sessionBuilder, b.address), session.NewCipher(b.sessionBuilder, a.address)
}

func wire(t *testing.T, m protocol.CiphertextMessage) *protocol.PreKeySignalMessage {
	r, err := protocol.NewPreKeySignalMessageFromBytes(m.Serialize(), ser.PreKeySignalMessage, ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func wireSig(t *testing.T, m protocol.CiphertextMessage) *protocol.SignalMessage {
	r, err := protocol.NewSignalMessageFromBytes(m.Serialize(), ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func TestF01DecodePoint(t *testing.T) {
	noPanic(t, "empty", func() {
		if _, err := ecc.DecodePoint(nil, 0); err == nil {
			t.Error("accepted empty key")
		}
	})
	if _, err := ecc.DecodePoint([]byte{5, 1}, 0); err == nil {
		t.Error("accepted a 1-byte key")
	}
}

func TestF02NoOneTimePreKey(t *testing.T) {
	noPanic(t, "session without one-time prekey", func() {
		_, _, ac, bc := establish(t, false)
		m, err := ac.Encrypt([]byte("hi"))
		if err != nil {
			t.Fatal(err)
		}
		p, err := bc.DecryptMessage(wire(t, m))
		if err != nil || string(p) != "hi" {
			t.Error(string(p), err)
		}
	})
}

func TestF03Cbc(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	noPanic(t, "partial block", func() { libcipher.DecryptCbc(iv, key, make([]byte, 17)) })
	noPanic(t, "only iv", func() { libcipher.DecryptCbc(nil, key, make([]byte, 16)) })
	noPanic(t, "partial block (Decrypt)", func() { libcipher.Decrypt(iv, key, make([]byte, 17)) })
	ct, _ := libcipher.EncryptCbc(iv, key, []byte("x"))
	cp := append([]byte{}, ct...)
	libcipher.DecryptCbc(iv, key, ct)
	if !bytes.Equal(cp, ct) {
		t.Error("DecryptCbc overwrote its input")
	}
	libcipher.Decrypt(iv, key, ct)
	if !bytes.Equal(cp, ct) {
		t.Error("Decrypt overwrote its input")
	}
	buf := []byte("plaintext and more data of the caller")
	want := string(buf)
	libcipher.EncryptCbc(iv, key, buf[:9])
	if string(buf) != want {
		t.Errorf("EncryptCbc wrote into the caller's buffer: %q", buf)
	}
	block, _ := aes.NewCipher(key)
	bad := make([]byte, 16) // padding byte 0
	cipher.NewCBCEncrypter(block, iv).CryptBlocks(bad, bad)
	if _, err := libcipher.DecryptCbc(iv, key, bad); err == nil {
		t.Error("zero padding accepted")
	}
}

func TestF04Provision(t *testing.T) {
	b64 := base64.StdEncoding.EncodeToString
	kp, _ := ecc.GenerateKeyPair()
	pub := kp.PublicKey().Serialize()
	for _, e := range []provision.ProvisionEnvelope{{}, {PublicKey: pub}, {PublicKey: pub, Body: []byte{2}}, {PublicKey: pub, Body: []byte{1, 2, 3}}} {
		j, _ := json.Marshal(e)
		noPanic(t, "envelope", func() {
			if _, err := provision.Decrypt(b64(make([]byte, 32)), b64(j)); err == nil {
				t.Error("accepted")
			}
		})
	}
}

func TestF05EmptyMessages(t *testing.T) {
	noPanic(t, "prekey message", func() {
		protocol.NewPreKeySignalMessageFromBytes(nil, ser.PreKeySignalMessage, ser.SignalMessage)
	})
	noPanic(t, "distribution message", func() {
		protocol.NewSenderKeyDistributionMessageFromBytes(nil, ser.SenderKeyDistributionMessage)
	})
}

func TestF06PreKeyRecords(t *testing.T) {
	kp, _ := ecc.GenerateKeyPair()
	p, _ := record.NewPreKeyFromBytes(record.NewPreKey(1, kp, ser.PreKeyRecord).Serialize(), ser.PreKeyRecord)
	if p.KeyPair().PublicKey().PublicKey() != kp.PublicKey().PublicKey() {
		t.Error("prekey public key changed by storage")
	}
	s, _ := record.NewSignedPreKeyFromBytes(record.NewSignedPreKey(1, 2, kp, [64]byte{}, ser.SignedPreKeyRecord).Serialize(), ser.SignedPreKeyRecord)
	if s.KeyPair().PublicKey().PublicKey() != kp.PublicKey().PublicKey() {
		t.Error("signed prekey public key changed by storage")
	}
}

func TestF07ForgedMessage(t *testing.T) {
	a, b, ac, bc := establish(t, true)
	m, _ := ac.Encrypt([]byte("1"))
	if _, err := bc.DecryptMessage(wire(t, m)); err != nil {
		t.Fatal(err)
	}
	m, _ = ac.Encrypt([]byte("2"))
	good := wire(t, m).WhisperMessage()
	st := *good.Structure()
	st.Mac = make([]byte, 8)
	forged, _ := protocol.NewSignalMessageFromStruct(&st, ser.SignalMessage)
	if _, err := bc.Decrypt(forged); err == nil {
		t.Fatal("forged accepted")
	}
	if p, err := bc.Decrypt(good); err != nil || string(p) != "2" {
		t.Error("genuine message rejected after a forged one:", err)
	}
	_, _ = a, b
}

func TestF07PromotedStateStaysArchived(t *testing.T) {
	a, b, ac, bc := establish(t, true)
	m, _ := ac.Encrypt([]byte("1"))
	if _, err := bc.DecryptMessage(wire(t, m)); err != nil {
		t.Fatal(err)
	}
	late, _ := ac.Encrypt([]byte("late"))
	rec := b.sessionStore.LoadSession(a.address)
	rec2, err := record.NewSessionFromBytes(rec.Serialize(), ser.Session, ser.State)
	if err != nil {
		t.Fatal(err)
	}
	b.sessionStore.StoreSession(a.address, rec2)
	// Alice starts a second session.
	a.sessionStore.DeleteSession(b.address)
	bun := bundleOf(b, true)
	bun = prekey.NewBundle(b.registrationID, b.deviceID, b.preKeys[1].ID(), b.signedPreKey.ID(), b.preKeys[1].KeyPair().PublicKey(),
		b.signedPreKey.KeyPair().PublicKey(), b.signedPreKey.Signature(), b.identityKeyPair.PublicKey())
	if err := a.sessionBuilder.ProcessBundle(bun); err != nil {
		t.Fatal(err)
	}
	m, _ = ac.Encrypt([]byte("new"))
	if _, err := bc.DecryptMessage(wire(t, m)); err != nil {
		t.Fatal(err)
	}
	if _, err := bc.Decrypt(wire(t, late).WhisperMessage()); err != nil {
		t.Fatal(err)
	}
	if n := len(b.sessionStore.LoadSession(a.address).PreviousSessionStates()); n != 1 {
		t.Errorf("%d archived states after promoting one of one", n)
	}
}

type distrust struct{ *InMemoryIdentityKey }

func (distrust) IsTrustedIdentity(*protocol.SignalAddress, *identity.Key) bool { return false }

func TestF08Untrusted(t *testing.T) {
	a, b, ac, bc := establish(t, true)
	m, _ := ac.Encrypt([]byte("1"))
	if _, err := bc.DecryptMessage(wire(t, m)); err != nil {
		t.Fatal(err)
	}
	d := session.NewCipherFromSession(a.address, b.sessionStore, b.preKeyStore, distrust{b.identityStore}, ser.PreKeySignalMessage, ser.SignalMessage)
	if _, err := d.Encrypt([]byte("x")); err == nil {
		t.Error("encrypted to an untrusted identity")
	}
	m, _ = ac.Encrypt([]byte("2"))
	if _, err := d.Decrypt(wire(t, m).WhisperMessage()); err == nil {
		t.Error("decrypted from an untrusted identity")
	}
}

func TestF09LastResort(t *testing.T) {
	k, _ := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
	if k.ID().Value != medium.MaxValue {
		t.Error("last resort key has id", k.ID().Value, "and would be removed on first use")
	}
}

func TestF10Groups(t *testing.T) {
	name := protocol.NewSenderKeyName("g", protocol.NewSignalAddress("a", 1))
	store := NewInMemorySenderKey()
	gb := groups.NewGroupSessionBuilder(store, ser)
	gc := groups.NewGroupCipher(gb, name, store)
	noPanic(t, "Encrypt without record", func() { gc.Encrypt([]byte("x")) })
	noPanic(t, "Decrypt without record", func() {
		kp, _ := ecc.GenerateKeyPair()
		gc.Decrypt(protocol.NewSenderKeyMessage(1, 0, []byte{}, kp.PrivateKey(), ser.SenderKeyMessage))
	})
	skdm, err := gb.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	rs := NewInMemorySenderKey()
	rb := groups.NewGroupSessionBuilder(rs, ser)
	rb.Process(name, skdm)
	noPanic(t, "Encrypt with receive-only state", func() { groups.NewGroupCipher(rb, name, rs).Encrypt([]byte("x")) })
	r2, err := grec.NewSenderKeyFromBytes(rs.LoadSenderKey(name).Serialize(), ser.SenderKeyRecord, ser.SenderKeyState)
	if err != nil {
		t.Fatal(err)
	}
	st, _ := r2.SenderKeyState()
	if st.SigningKey().PrivateKey() != nil {
		t.Error("storage invented a signing key")
	}
	r2.AddSenderKeyState(7, 0, make([]byte, 32), skdm.SignatureKey())
	noPanic(t, "state added to a loaded record", func() {
		s, _ := r2.GetSenderKeyStateByID(7)
		s.Serialize()
	})
}

func TestF10GroupDecryptKeepsMessage(t *testing.T) {
	name := protocol.NewSenderKeyName("g", protocol.NewSignalAddress("a", 1))
	s, r := NewInMemorySenderKey(), NewInMemorySenderKey()
	sb, rb := groups.NewGroupSessionBuilder(s, ser), groups.NewGroupSessionBuilder(r, ser)
	skdm, _ := sb.Create(name)
	rb.Process(name, skdm)
	m, err := groups.NewGroupCipher(sb, name, s).Encrypt([]byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	before := string(m.Serialize())
	if _, err := groups.NewGroupCipher(rb, name, r).Decrypt(m.(*protocol.SenderKeyMessage)); err != nil {
		t.Fatal(err)
	}
	if string(m.Serialize()) != before {
		t.Error("decryption changed the message object")
	}
}

type captureLog struct{ text []string }

func (c *captureLog) Debug(_, m string)   { c.text = append(c.text, m) }
func (c *captureLog) Info(_, m string)    { c.text = append(c.text, m) }
func (c *captureLog) Warning(_, m string) { c.text = append(c.text, m) }
func (c *captureLog) Error(_, m string)   { c.text = append(c.text, m) }
func (c *captureLog) Configure(string)    {}

func TestF12SecretsLogged(t *testing.T) {
	c := &captureLog{}
	var l logger.Loggable = c
	logger.Setup(&l)
	defer func() { var d logger.Loggable = &captureLog{}; logger.Setup(&d) }()
	a, b, ac, _ := establish(t, true)
	ac.Encrypt([]byte("1"))
	a.sessionStore.LoadSession(b.address).SessionState().Serialize()
	store := NewInMemorySenderKey()
	sk, _ := groups.NewGroupSessionBuilder(store, ser).Create(protocol.NewSenderKeyName("g", a.address))
	sk.Serialize()
	for _, m := range c.text {
		if strings.Contains(m, "cipherKey") || strings.Contains(m, "RootKey") || strings.HasPrefix(m, "Serialize result: [51 8") {
			t.Errorf("logged: %.60s", m)
		}
	}
}

func TestF13PreviousCounter(t *testing.T) {
	_, b, ac, bc := establish(t, true)
	_ = b
	m, _ := ac.Encrypt([]byte("1"))
	if _, err := bc.DecryptMessage(wire(t, m)); err != nil {
		t.Fatal(err)
	}
	m, _ = bc.Encrypt([]byte("2"))
	if pc := wireSig(t, m).Structure().PreviousCounter; pc > 10 {
		t.Error("previous counter", pc)
	}
}

func TestF14RecordJSON(t *testing.T) {
	pub := base64.StdEncoding.EncodeToString(append([]byte{5}, make([]byte, 32)...))
	base := `"LocalIdentityPublic":"` + pub + `","RemoteIdentityPublic":"` + pub + `","SenderBaseKey":"` + pub + `"`
	for _, j := range []string{`{}`, `{"SessionState":{` + base + `}}`,
		`{"SessionState":{` + base + `,"SenderChain":{"SenderRatchetKeyPublic":"` + pub + `"}}}`,
		`{"SessionState":{` + base + `,"SenderChain":{"SenderRatchetKeyPublic":"` + pub + `","ChainKey":{},"MessageKeys":[null]}}}`,
		`{"PreviousStates":[null]}`} {
		noPanic(t, j, func() { record.NewSessionFromBytes([]byte(j), ser.Session, ser.State) })
	}
	for _, j := range []string{`{"SenderKeyStates":[null]}`, `{"SenderKeyStates":[{"SigningKeyPublic":"` + pub + `"}]}`,
		`{"SenderKeyStates":[{"SigningKeyPublic":"` + pub + `","SenderChainKey":{},"Keys":[null]}]}`} {
		noPanic(t, j, func() { grec.NewSenderKeyFromBytes([]byte(j), ser.SenderKeyRecord, ser.SenderKeyState) })
	}
}

func TestF15UnknownSignedPreKey(t *testing.T) {
	a, b, ac, bc := establish(t, true)
	_ = a
	b.signedPreKeyStore.RemoveSignedPreKey(b.signedPreKey.ID())
	m, _ := ac.Encrypt([]byte("1"))
	noPanic(t, "unknown signed prekey id", func() {
		if _, err := bc.DecryptMessage(wire(t, m)); err == nil {
			t.Error("accepted")
		}
	})
}

func TestF16SecondSessionArchivesFirst(t *testing.T) {
	a, b, ac, bc := establish(t, true)
	m1, _ := ac.Encrypt([]byte("1"))
	if _, err := bc.DecryptMessage(wire(t, m1)); err != nil {
		t.Fatal(err)
	}
	r, _ := bc.Encrypt([]byte("reply to the first session"))
	if err := a.sessionBuilder.ProcessBundle(bundleOf(b, false)); err != nil {
		t.Fatal(err)
	}
	if _, err := ac.Decrypt(wireSig(t, r)); err != nil {
		t.Error("message of the replaced session lost:", err)
	}
}

func TestF18SymmetricRoles(t *testing.T) {
	var pa, pb [32]byte
	pa[31], pb[31] = 1, 2 // equal in the first three bytes
	priv := ecc.NewDjbECPrivateKey([32]byte{})
	ka, kb := ecc.NewECKeyPair(ecc.NewDjbECPublicKey(pa), priv), ecc.NewECKeyPair(ecc.NewDjbECPublicKey(pb), priv)
	id, _ := keyhelper.GenerateIdentityKeyPair()
	id2, _ := keyhelper.GenerateIdentityKeyPair()
	_, _ = ka, kb
	// Use real pairs that happen to share a 3-byte prefix is expensive; compare the roles through DH order instead.
	x, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: ka, OurRatchetKey: ka, OurIdentityKeyPair: id, TheirBaseKey: kb.PublicKey(), TheirRatchetKey: kb.PublicKey(), TheirIdentityKey: id2.PublicKey()})
	if err != nil {
		t.Fatal(err)
	}
	s, _ := ratchet.CalculateSenderSession(ratchet.NewSenderParameters(id, ka, id2.PublicKey(), kb.PublicKey(), kb.PublicKey(), nil))
	if !bytes.Equal(x.RootKey.Bytes(), s.RootKey.Bytes()) {
		t.Error("the side with the smaller base key does not act as sender: both sides take the same role")
	}
}

func TestF26EncryptWithoutSession(t *testing.T) {
	a, b := pair()
	noPanic(t, "encrypt", func() {
		if _, err := session.NewCipher(a.sessionBuilder, b.address).Encrypt([]byte("x")); err == nil {
			t.Error("no error")
		}
	})
}
