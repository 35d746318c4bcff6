# refactorings over the whole library, second round
REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
src={}
def rd(f):
    if f not in src: src[f]=open("/repo/"+f).read()
    return src[f]
def fn(f,head):
    t=rd(f); i=t.index(head); j=t.index("\n}\n",i)+3
    return t[i:j]
R="ratchet/ratchet.go"
snd=fn(R,"func CalculateSenderSession"); rcv=fn(R,"func CalculateReceiverSession")
tail=snd[snd.index("	// Derive the root and chain keys"):]
helper='''
func deriveSession(masterSecret []byte) (*session.KeyPair, error) {
	secrets, err := kdf.DeriveSecrets(masterSecret, nil, []byte("WhisperText"), root.DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	derived := session.NewDerivedSecrets(secrets)
	return session.NewKeyPair(
		root.NewKey(kdf.DeriveSecrets, derived.RootKey()),
		chain.NewKey(kdf.DeriveSecrets, derived.ChainKey(), 0),
	), nil
}
'''
assert tail in rcv
ref("u01-derive-helper",(R,snd,snd.replace(tail,"	return deriveSession(masterSecret)\n}\n")),(R,rcv,rcv.replace(tail,"	return deriveSession(masterSecret)\n}\n")+helper))
ref("u02-agree-closure",(R,snd,'''func CalculateSenderSession(parameters *SenderParameters) (*session.KeyPair, error) {
	discontinuity := genDiscontinuity()
	masterSecret := make([]byte, 0, 5*32)
	masterSecret = append(masterSecret, discontinuity[:]...)
	mix := func(public ecc.ECPublicKeyable, private [32]byte) {
		secret := kdf.CalculateSharedSecret(public.PublicKey(), private)
		masterSecret = append(masterSecret, secret[:]...)
	}
	base := parameters.OurBaseKey().PrivateKey().Serialize()
	mix(parameters.TheirSignedPreKey(), parameters.OurIdentityKey().PrivateKey().Serialize())
	mix(parameters.TheirIdentityKey().PublicKey(), base)
	mix(parameters.TheirSignedPreKey(), base)
	if oneTime := parameters.TheirOneTimePreKey(); oneTime != nil {
		mix(oneTime, base)
	}

'''+tail))
ref("u03-agree-table",(R,rcv,'''func CalculateReceiverSession(parameters *ReceiverParameters) (*session.KeyPair, error) {
	type agreement struct {
		public, private [32]byte
	}
	theirBase := parameters.TheirBaseKey().PublicKey()
	agreements := []agreement{
		{parameters.TheirIdentityKey().PublicKey().PublicKey(), parameters.OurSignedPreKey().PrivateKey().Serialize()},
		{theirBase, parameters.OurIdentityKeyPair().PrivateKey().Serialize()},
		{theirBase, parameters.OurSignedPreKey().PrivateKey().Serialize()},
	}
	if parameters.OurOneTimePreKey() != nil {
		agreements = append(agreements, agreement{theirBase, parameters.OurOneTimePreKey().PrivateKey().Serialize()})
	}
	masterSecret := bytes.Repeat([]byte{0xFF}, 32)
	for _, a := range agreements {
		secret := kdf.CalculateSharedSecret(a.public, a.private)
		masterSecret = append(masterSecret, secret[:]...)
	}

'''+tail))
ref("u04-is-sender-switch",(R,"	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0\n",'''	ours, theirs := ourKey.Serialize(), theirKey.Serialize()
	switch bytes.Compare(ours, theirs) {
	case -1:
		return true
	default:
		return false
	}
'''))
K="keys/root/key.go"
ref("u05-root-split",(K,'''	derivedSecrets := session.NewDerivedSecrets(derivedSecretBytes)

	// Create new root and chain key structures from the derived secrets.
	rootKey := NewKey(k.kdf, derivedSecrets.RootKey())
	chainKey := chain.NewKey(k.kdf, derivedSecrets.ChainKey(), 0)
''','''	half := DerivedSecretsSize / 2
	rootKey := NewKey(k.kdf, derivedSecretBytes[:half])
	chainKey := chain.NewKey(k.kdf, derivedSecretBytes[half:], 0)
'''))
C="keys/chain/key.go"
ref("u06-message-keys-inline",(C,'''	keyMaterial := newKeyMaterial(keyMaterialBytes)

''',""),(C,'''		keyMaterial.CipherKey, // Use the first 32 bytes of the key material for the CipherKey
		keyMaterial.MacKey,    // Use bytes 32-64 of the key material for the MacKey
		keyMaterial.IV,        // Use the last 16 bytes for the IV.
		c.Index(),             // Attach''','''		keyMaterialBytes[0:32],
		keyMaterialBytes[32:64],
		keyMaterialBytes[64:80],
		c.index, // Attach'''),(C,fn(C,"func newKeyMaterial"),""),(C,"// NewKeyMaterial takes an 80-byte slice derived from a key derivation function and splits\n// it into the cipherkey, mac, and iv.\n",""))
ref("u07-hmac-helper",(C,'''	mac := hmac.New(sha256.New, c.key[:])
	mac.Write(seed)

	return mac.Sum(nil)
}
''','''	return hmacOf(c.key, seed)
}

func hmacOf(key []byte, data ...[]byte) []byte {
	mac := hmac.New(sha256.New, key)
	for _, d := range data {
		mac.Write(d)
	}
	sum := make([]byte, 0, mac.Size())
	return mac.Sum(sum)
}
'''))
S="state/record/session.go"
ref("u08-all-states",(S,fn(S,"func (r *Session) HasSessionState"),'''func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
	for _, state := range append([]*State{r.sessionState}, r.previousStates...) {
		if state.Version() != version {
			continue
		}
		if bytes.Equal(senderBaseKey, state.SenderBaseKey()) {
			return true
		}
	}
	return false
}
'''))
ref("u09-has-base",(S,fn(S,"func (r *Session) HasSessionState"),'''func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
	found := r.sessionState.builtFrom(version, senderBaseKey)
	for i := 0; !found && i < len(r.previousStates); i++ {
		found = r.previousStates[i].builtFrom(version, senderBaseKey)
	}
	return found
}

func (s *State) builtFrom(version int, senderBaseKey []byte) bool {
	return s.sessionVersion == version && bytes.Equal(senderBaseKey, s.SenderBaseKey())
}
'''))
ref("u10-prepend-copy",(S,"	return append([]*State{sessionState}, states...)\n",'''	result := make([]*State, 1+len(states))
	result[0] = sessionState
	copy(result[1:], states)
	return result
'''),(S,"	return states[:len(states)-1]\n",'''	last := len(states) - 1
	states[last] = nil
	return states[:last]
'''))
ref("u11-promote-bounded",(S,fn(S,"func (r *Session) PromoteState"),'''func (r *Session) PromoteState(promotedState *State) {
	kept := r.previousStates
	if len(kept) >= archivedStatesMaxLength {
		kept = kept[:archivedStatesMaxLength-1]
	}
	r.previousStates = append([]*State{r.sessionState}, kept...)
	r.sessionState = promotedState
}
'''),(S,"	return states[:len(states)-1]\n","	return states[:len(states)-1:len(states)-1]\n"))
H="util/keyhelper/key.go"
ref("u12-prekeys-count",(H,'''	var preKeys []*record.PreKey

	for i := start; i <= count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
	}

	return preKeys, nil
''','''	if count < start {
		return nil, nil
	}
	preKeys := make([]*record.PreKey, 0, count-start+1)
	for id := start; id <= count; id++ {
		preKey, err := generatePreKey(uint32(id), serializer)
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, preKey)
	}

	return preKeys, nil
'''),(H,'''	keyPair, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
}
''','''	return generatePreKey(medium.MaxValue, serializer)
}

func generatePreKey(id uint32, serializer record.PreKeySerializer) (*record.PreKey, error) {
	keyPair, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	return record.NewPreKey(id, keyPair, serializer), nil
}
'''))
F="fingerprint/display.go"
ref("u14-display-join",(F,fn(F,"func displayStringFor"),'''func displayStringFor(fingerprint []byte) string {
	var chunks [6]string
	for i := range chunks {
		chunks[i] = encodedChunk(fingerprint, 5*i)
	}
	return strings.Join(chunks[:], "")
}
'''),(F,'	"fmt"\n','	"fmt"\n	"strings"\n'))
ref("u15-display-sort",(F,fn(F,"func (d *Display) DisplayText"),'''func (d *Display) DisplayText() string {
	first, second := d.localFingerprintNumbers, d.remoteFingerprintNumbers
	if second <= first {
		first, second = second, first
	}
	return first + second
}
'''))
G="ecc/sign_curve25519.go"
ref("u16-montgomery-helper",(G,'''	var edY, one, montX, montXMinusOne, montXPlusOne edwards25519.FieldElement
	edwards25519.FeFromBytes(&montX, &publicKey)
	edwards25519.FeOne(&one)
	edwards25519.FeSub(&montXMinusOne, &montX, &one)
	edwards25519.FeAdd(&montXPlusOne, &montX, &one)
	edwards25519.FeInvert(&montXPlusOne, &montXPlusOne)
	edwards25519.FeMul(&edY, &montXMinusOne, &montXPlusOne)

	var A_ed [32]byte
	edwards25519.FeToBytes(&A_ed, &edY)

''','''	A_ed := edwardsY(publicKey)
'''),(G,"// verify checks whether the message has a valid signature.\nfunc verify(",'''func edwardsY(u [32]byte) (y [32]byte) {
	var edY, one, x, minus, plus, inverse edwards25519.FieldElement
	edwards25519.FeOne(&one)
	edwards25519.FeFromBytes(&x, &u)
	edwards25519.FeAdd(&plus, &x, &one)
	edwards25519.FeSub(&minus, &x, &one)
	edwards25519.FeInvert(&inverse, &plus)
	edwards25519.FeMul(&edY, &inverse, &minus)
	edwards25519.FeToBytes(&y, &edY)
	return y
}

// verify checks whether the message has a valid signature.
func verify('''))
ref("u17-hash-helper",(G,'''	hash.Reset()
	hash.Write(encodedR[:])
	hash.Write(publicKey[:])
	hash.Write(message)
	hash.Sum(hramDigest[:0])
''','''	hash512(&hramDigest, encodedR[:], publicKey[:], message)
'''),(G,'''	hash := sha512.New()
	hash.Write(diversifier[:])
	hash.Write(privateKey[:])
	hash.Write(message)
	hash.Write(random[:])
	hash.Sum(r[:0])
''','''	hash512(&r, diversifier[:], privateKey[:], message, random[:])
'''),(G,"// sign32 signs",'''func hash512(out *[64]byte, parts ...[]byte) {
	h := sha512.New()
	for i := range parts {
		h.Write(parts[i])
	}
	h.Sum(out[:0])
}

// sign32 signs'''))
A="util/keyhelper/key.go"
B="session/session.go"
ref("u18-fill-helper",(B,'''	sessionState.SetVersion(protocol.CurrentVersion)
	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
	sessionState.SetLocalIdentityKey(parameters.OurIdentityKeyPair().PublicKey())
	sessionState.SetSenderChain(parameters.OurRatchetKey(), derivedKeys.ChainKey)
	sessionState.SetRootKey(derivedKeys.RootKey)

	// Set the session's registration ids and base key
	sessionState.SetLocalRegistrationID(b.identityKeyStore.GetLocalRegistrationId())
	sessionState.SetRemoteRegistrationID(message.RegistrationID())
	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
''','''	b.describe(sessionState, parameters.TheirIdentityKey(), parameters.OurIdentityKeyPair().PublicKey(), message.RegistrationID(), message.BaseKey())
	sessionState.SetRootKey(derivedKeys.RootKey)
	sessionState.SetSenderChain(parameters.OurRatchetKey(), derivedKeys.ChainKey)
'''),(B,'''	sessionState.SetVersion(protocol.CurrentVersion)
	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
	sessionState.SetLocalIdentityKey(parameters.OurIdentityKey().PublicKey())
	sessionState.AddReceiverChain''','''	b.describe(sessionState, parameters.TheirIdentityKey(), parameters.OurIdentityKey().PublicKey(), preKey.RegistrationID(), ourBaseKey.PublicKey())
	sessionState.AddReceiverChain'''),(B,'''	// Set the local registration ID based on the registration id in our identity key store.
	sessionState.SetLocalRegistrationID(
		b.identityKeyStore.GetLocalRegistrationId(),
	)

	// Set the remote registration ID based on the given prekey bundle registrationID.
	sessionState.SetRemoteRegistrationID(
		preKey.RegistrationID(),
	)

	// Set the sender base key in our session record state.
	sessionState.SetSenderBaseKey(
		ourBaseKey.PublicKey().Serialize(),
	)

''',''),(B,"// ProcessBundle builds a new session from",'''func (b *Builder) describe(state *record.State, remote, local *identity.Key, registrationID uint32, base ecc.ECPublicKeyable) {
	state.SetVersion(protocol.CurrentVersion)
	state.SetRemoteIdentityKey(remote)
	state.SetLocalIdentityKey(local)
	state.SetRemoteRegistrationID(registrationID)
	state.SetLocalRegistrationID(b.identityKeyStore.GetLocalRegistrationId())
	state.SetSenderBaseKey(base.Serialize())
}

// ProcessBundle builds a new session from'''),(B,'	"github.com/prospik/libsignal-protocol-go/keys/prekey"\n','	"github.com/prospik/libsignal-protocol-go/keys/identity"\n	"github.com/prospik/libsignal-protocol-go/keys/prekey"\n'))
ref("u19-known-first",(B,'''	if sessionExists {
		logger.Warning("We've already setup a session for this V3 message, letting bundled message fall through...")
		return optional.NewEmptyUint32(), nil
	}

	// Load our signed prekey from our signed prekey store.
	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
	if ourSignedPreKeyRecord == nil {
		return nil, errors.New(noSignedPreKeyError)
	}
	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
''','''	if sessionExists {
		return optional.NewEmptyUint32(), nil
	}

	var ourSignedPreKey *ecc.ECKeyPair
	if signed := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID()); signed != nil {
		ourSignedPreKey = signed.KeyPair()
	} else {
		return nil, errors.New(noSignedPreKeyError)
	}
'''))
ref("u20-ids-last",(B,'''	if theirOneTimePreKey == nil || theirOneTimePreKeyID == nil || theirOneTimePreKeyID.IsEmpty {
		theirOneTimePreKey = nil
		theirOneTimePreKeyID = optional.NewEmptyUint32()
	}
''','''	hasOneTime := theirOneTimePreKey != nil && theirOneTimePreKeyID != nil && !theirOneTimePreKeyID.IsEmpty
	if !hasOneTime {
		theirOneTimePreKey, theirOneTimePreKeyID = nil, optional.NewEmptyUint32()
	}
'''))
ref("u21-bundle-keys-early",(B,'''	// If this is a fresh record, archive our current state.
	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}

	///////// Initialize our session /////////
	sessionState := sessionRecord.SessionState()
	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
''','''	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
'''),(B,'''	// Calculate the sender session.
	sessionState.SetVersion''','''	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}
	sessionState := sessionRecord.SessionState()

	// Calculate the sender session.
	sessionState.SetVersion'''))
T="state/record/state_session.go"
ref("u22-chain-by-bytes",(T,fn(T,"func (s *State) receiverChain("),'''func (s *State) receiverChain(senderEphemeral ecc.ECPublicKeyable) *ReceiverChainPair {
	wanted := senderEphemeral.PublicKey()
	for i := range s.receiverChains {
		if s.receiverChains[i].senderRatchetKeyPair.PublicKey().PublicKey() == wanted {
			return NewReceiverChainPair(s.receiverChains[i], i)
		}
	}
	return nil
}
'''),(T,'	"github.com/prospik/libsignal-protocol-go/logger"\n',''))
ref("u23-structure-order",(T,fn(T,"func (s *State) structure()"),'''func (s *State) structure() *StateStructure {
	structure := &StateStructure{
		SessionVersion:       s.sessionVersion,
		LocalRegistrationID:  s.localRegistrationID,
		RemoteRegistrationID: s.remoteRegistrationID,
		NeedsRefresh:         s.needsRefresh,
		PreviousCounter:      s.previousCounter,
		ReceiverChains:       make([]*ChainStructure, 0, len(s.receiverChains)),
	}
	structure.LocalIdentityPublic = s.localIdentityPublic.Serialize()
	structure.RemoteIdentityPublic = s.remoteIdentityPublic.Serialize()
	structure.RootKey = s.rootKey.Bytes()
	structure.SenderBaseKey = s.senderBaseKey.Serialize()
	structure.SenderChain = s.senderChain.structure()
	structure.PendingPreKey = s.pendingPreKey.structure()
	if s.HasPendingKeyExchange() {
		structure.PendingKeyExchange = s.pendingKeyExchange.structure()
	}
	for _, c := range s.receiverChains {
		structure.ReceiverChains = append(structure.ReceiverChains, c.structure())
	}
	return structure
}
'''))
ref("u24-remove-inline",(T,'''	var rmIndex int
	for i, messageKey := range messageKeyList {
		if messageKey.Index() == counter {
			rmIndex = i
			break
		}
	}

	// Retrive the message key
	messageKey := chainKey.messageKeys[rmIndex]

	// Delete the message key from the given position.
	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
''','''	rmIndex := 0
	for rmIndex < len(messageKeyList) && messageKeyList[rmIndex].Index() != counter {
		rmIndex++
	}
	if rmIndex == len(messageKeyList) {
		rmIndex = 0
	}

	messageKey := messageKeyList[rmIndex]
	left := make([]*message.Keys, 0, len(messageKeyList)-1)
	left = append(left, messageKeyList[:rmIndex]...)
	left = append(left, messageKeyList[rmIndex+1:]...)
	chainKey.messageKeys = left
'''))
P="protocol/signal_message.go"
ref("u25-without-mac",(P,'''	structure := s.structure
	signalMessage, err := NewSignalMessageFromStruct(&structure, s.serializer)
	if err != nil {
		return err
	}
	signalMessage.structure.Mac = nil
	signalMessage.structure.Version = 0
	version := []byte(strconv.Itoa(s.MessageVersion()))
	serialized := append(version, signalMessage.Serialize()...)
''','''	structure := s.structure
	if _, err := NewSignalMessageFromStruct(&structure, s.serializer); err != nil {
		return err
	}
	serialized := s.authenticated()
'''),(P,"// Serialize will return the Signal Message as bytes.\n",'''func (s *SignalMessage) authenticated() []byte {
	bare := s.structure
	bare.Mac, bare.Version = nil, 0
	return append([]byte(strconv.Itoa(s.structure.Version)), s.serializer.Serialize(&bare)...)
}

// Serialize will return the Signal Message as bytes.
'''))
ref("u26-mac-errorless",(P,'''	fullMac := mac.Sum(nil)

	return bytehelper.Trim(fullMac, MacLength), nil
''','''	return mac.Sum(nil)[:MacLength:MacLength], nil
'''),(P,'	"github.com/prospik/libsignal-protocol-go/util/bytehelper"\n',''))
X="session/cipher.go"
ref("u27-jump-helper",(X,'''	if counter-chainKey.Index() > maxFutureMessages {
		return nil, errors.New("Too many messages into the future!")
	}

	for chainKey.Index() < counter {
		messageKeys := chainKey.MessageKeys()
		sessionState.SetMessageKeys(theirEphemeral, messageKeys)
		chainKey = chainKey.NextKey()
	}

	sessionState.SetReceiverChainKey(theirEphemeral, chainKey.NextKey())
	return chainKey.MessageKeys(), nil
}
''','''	ahead := counter - chainKey.Index()
	if ahead > maxFutureMessages {
		return nil, errors.New("Too many messages into the future!")
	}
	current := keepSkipped(sessionState, theirEphemeral, chainKey, ahead)
	keys := current.MessageKeys()
	sessionState.SetReceiverChainKey(theirEphemeral, current.NextKey())
	return keys, nil
}

func keepSkipped(state *record.State, theirs ecc.ECPublicKeyable, key *chain.Key, n uint32) *chain.Key {
	for ; n > 0; n-- {
		state.SetMessageKeys(theirs, key.MessageKeys())
		key = key.NextKey()
	}
	return key
}
'''))
ref("u28-old-guard",(X,'''	if chainKey.Index() > counter {
		if sessionState.HasMessageKeys(theirEphemeral, counter) {
			return sessionState.RemoveMessageKeys(theirEphemeral, counter), nil
		}
''','''	if old := counter < chainKey.Index(); old {
		kept := sessionState.HasMessageKeys(theirEphemeral, counter)
		if kept {
			keys := sessionState.RemoveMessageKeys(theirEphemeral, counter)
			return keys, nil
		}
'''))
ref("u29-errors-consts",(X,'''		err := "Uninitialized session!"
		logger.Error("Unable to decrypt message with state: ", err)
		return nil, nil, errors.New(err)
''','''		return nil, nil, errUninitialized
'''),(X,'''		err := "Wrong message version!"
		logger.Error("Unable to decrypt message with state: ", err)
		return nil, nil, errors.New(err)
''','''		return nil, nil, errWrongVersion
'''),(X,"const maxFutureMessages = 5000\n",'''const maxFutureMessages = 5000

var (
	errUninitialized = errors.New("Uninitialized session!")
	errWrongVersion  = errors.New("Wrong message version!")
)
'''))
D="groups/session_builder.go"
ref("u30-load-helper",(D,'''	senderKeyRecord := b.senderKeyStore.LoadSenderKey(senderKeyName)
	if senderKeyRecord == nil {
		senderKeyRecord = record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
	}
	senderKeyRecord.AddSenderKeyState''','''	senderKeyRecord := b.load(senderKeyName)
	senderKeyRecord.AddSenderKeyState'''),(D,"// Create will create a new group session for the given name.\n",'''func (b *SessionBuilder) load(name *protocol.SenderKeyName) *record.SenderKey {
	if r := b.senderKeyStore.LoadSenderKey(name); r != nil {
		return r
	}
	return record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
}

// Create will create a new group session for the given name.
'''))
Q="serialize/proto.go"
ref("u31-marshal-helper",(Q,'''	message, err := proto.Marshal(preKeyMessage)
	if err != nil {
		logger.Error("Error serializing prekey signal message: ", err)
	}

	serialized := append([]byte(strconv.Itoa(signalMessage.Version)), message...)
''','''	serialized := versioned(signalMessage.Version, preKeyMessage)
'''),(Q,'''	serialized, err := proto.Marshal(&senderDis)
	if err != nil {
		logger.Error("Error serializing senderkey distribution message: ", err)
	}

	version := strconv.Itoa(int(message.Version))
	serialized = append([]byte(version), serialized...)
	return serialized
}
''','''	return versioned(int(message.Version), &senderDis)
}

func versioned(version int, m proto.Message) []byte {
	body, err := proto.Marshal(m)
	if err != nil {
		logger.Error("Error serializing message: ", err)
	}
	out := make([]byte, 0, len(body)+1)
	out = append(out, strconv.Itoa(version)...)
	return append(out, body...)
}
'''))
ref("u32-split-version",(Q,'''	if len(serialized) == 0 {
		return nil, errors.New("Empty message.")
	}
	version := highBitsToInt(serialized[0])
	message := serialized[1:]
	var sm PreKeySignalMessage
''','''	version, message, err := splitVersion(serialized)
	if err != nil {
		return nil, err
	}
	var sm PreKeySignalMessage
'''),(Q,'''	err := proto.Unmarshal(message, &sm)
	if err != nil {
		logger.Error("Error deserializing prekey signal message: ", err)
''','''	err = proto.Unmarshal(message, &sm)
	if err != nil {
		logger.Error("Error deserializing prekey signal message: ", err)
'''),(Q,'''	if len(serialized) == 0 {
		return nil, errors.New("Empty message.")
	}
	version := uint32(highBitsToInt(serialized[0]))
	message := serialized[1:]

	var senderKeyDis''','''	v, message, err := splitVersion(serialized)
	if err != nil {
		return nil, err
	}
	version := uint32(v)

	var senderKeyDis'''),(Q,'''	err := proto.Unmarshal(message, &senderKeyDis)
''','''	err = proto.Unmarshal(message, &senderKeyDis)
'''),(Q,"func highBitsToInt(",'''func splitVersion(b []byte) (int, []byte, error) {
	if len(b) == 0 {
		return 0, nil, errors.New("Empty message.")
	}
	return highBitsToInt(b[0]), b[1:], nil
}

func highBitsToInt('''))
ref("u33-kdf-extract",("kdf/hkdf.go","	kdf := hkdf.New(sha256.New, inputKeyMaterial, salt, info)\n","	kdf := hkdf.Expand(sha256.New, hkdf.Extract(sha256.New, inputKeyMaterial, salt), info)\n"))
ref("u34-async-helper",(H,'''	go func() {
		r, err := GenerateIdentityKeyPair()
		if err != nil {
			completion.OnFailure(err.Error())
			return
		}
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
	}()
''','''	go func() {
		r, err := GenerateIdentityKeyPair()
		finish(completion, r, err)
	}()
'''),(H,"// GenerateLastResortKey will",'''func finish(completion complete.Completionable, r interface{}, err error) {
	if err == nil {
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
	} else {
		completion.OnFailure(err.Error())
	}
}

// GenerateLastResortKey will'''))
