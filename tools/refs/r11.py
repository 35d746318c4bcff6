# session building, agreements, records: whole functions written in other ways
exec(open("/verif/tools/refs/r9.py").read().split("ref(\"x01")[0])
SS="state/record/state_session.go"; SE="session/session.go"; RT="ratchet/ratchet.go"; SG="ecc/sign_curve25519.go"
SK="groups/state/record/sender_key.go"; SC="state/record/state_chain.go"
def part(path, a, b, new):
    f=fn(path,a)
    return f
ref("z01-receiver-indexed",swap(SS,"func (s *State) receiverChain(",'''func (s *State) receiverChain(senderEphemeral ecc.ECPublicKeyable) *ReceiverChainPair {
	wanted := senderEphemeral.PublicKey()
	for i := 0; i < len(s.receiverChains); i++ {
		c := s.receiverChains[i]
		key, err := ecc.DecodePoint(c.SenderRatchetKey().PublicKey().Serialize(), 0)
		if err != nil {
			logger.Error("Error getting receiverchain: ", err)
		}
		if key.PublicKey() != wanted {
			continue
		}
		return &ReceiverChainPair{ReceiverChain: c, Index: i}
	}
	return nil
}
'''))
ref("z02-add-receiver",swap(SS,"func (s *State) AddReceiverChain(",'''func (s *State) AddReceiverChain(senderRatchetKey ecc.ECPublicKeyable, chainKey session.ChainKeyable) {
	added := &Chain{
		senderRatchetKeyPair: ecc.NewECKeyPair(senderRatchetKey, nil),
		chainKey:             chainKey.(*chain.Key),
		messageKeys:          []*message.Keys{},
	}
	chains := append(s.receiverChains, added)
	if len(chains) > maxReceiverChains {
		chains = chains[1:]
	}
	s.receiverChains = chains
}
'''))
ref("z03-remove-fresh",swap(SS,"func (s *State) RemoveMessageKeys(",'''func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) *message.Keys {
	receiverChain := s.receiverChain(senderEphemeral).ReceiverChain
	if receiverChain == nil {
		return nil
	}

	at := 0
	for i := range receiverChain.messageKeys {
		if receiverChain.messageKeys[i].Index() == counter {
			at = i
			break
		}
	}

	removed := receiverChain.messageKeys[at]
	kept := make([]*message.Keys, 0, len(receiverChain.messageKeys)-1)
	kept = append(kept, receiverChain.messageKeys[:at]...)
	kept = append(kept, receiverChain.messageKeys[at+1:]...)
	receiverChain.messageKeys = kept

	return message.NewKeys(removed.CipherKey(), removed.MacKey(), removed.Iv(), removed.Index())
}
'''))
ref("z04-set-message-keys",swap(SS,"func (s *State) SetMessageKeys(",'''func (s *State) SetMessageKeys(senderEphemeral ecc.ECPublicKeyable, messageKeys *message.Keys) {
	c := s.receiverChain(senderEphemeral).ReceiverChain
	kept := message.NewKeys(messageKeys.CipherKey(), messageKeys.MacKey(), messageKeys.Iv(), messageKeys.Index())
	all := append(c.messageKeys, kept)
	if excess := len(all) - maxMessageKeys; excess > 0 {
		all = all[1:]
	}
	c.SetMessageKeys(all)
}
'''))
ref("z05-structure-steps",swap(SS,"func (s *State) structure(",'''func (s *State) structure() *StateStructure {
	r := new(StateStructure)
	r.LocalIdentityPublic = s.localIdentityPublic.Serialize()
	r.LocalRegistrationID = s.localRegistrationID
	r.NeedsRefresh = s.needsRefresh
	if p := s.pendingKeyExchange; p != nil {
		r.PendingKeyExchange = p.structure()
	}
	r.PendingPreKey = s.pendingPreKey.structure()
	r.PreviousCounter = s.previousCounter
	r.ReceiverChains = make([]*ChainStructure, 0, len(s.receiverChains))
	for _, c := range s.receiverChains {
		r.ReceiverChains = append(r.ReceiverChains, c.structure())
	}
	r.RemoteIdentityPublic = s.remoteIdentityPublic.Serialize()
	r.RemoteRegistrationID = s.remoteRegistrationID
	r.RootKey = s.rootKey.Bytes()
	r.SenderBaseKey = s.senderBaseKey.Serialize()
	r.SenderChain = s.senderChain.structure()
	r.SessionVersion = s.sessionVersion
	return r
}
'''))
ref("z06-chain-from-structure",swap(SC,"func NewChainFromStructure(",'''func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
	if structure == nil || structure.ChainKey == nil {
		return nil, errors.New("Incomplete chain structure")
	}
	messageKeys := make([]*message.Keys, 0, len(structure.MessageKeys))
	for _, keys := range structure.MessageKeys {
		if keys == nil {
			return nil, errors.New("Incomplete message keys structure")
		}
		messageKeys = append(messageKeys, message.NewKeysFromStruct(keys))
	}
	public, err := ecc.DecodePoint(structure.SenderRatchetKeyPublic, 0)
	if err != nil {
		return nil, err
	}
	var private ecc.ECPrivateKeyable
	if b := structure.SenderRatchetKeyPrivate; len(b) == 32 {
		var key [32]byte
		copy(key[:], b)
		private = ecc.NewDjbECPrivateKey(key)
	}
	return &Chain{
		senderRatchetKeyPair: ecc.NewECKeyPair(public, private),
		chainKey:             chain.NewKeyFromStruct(structure.ChainKey, kdf.DeriveSecrets),
		messageKeys:          messageKeys,
	}, nil
}
'''))
ref("z07-chain-copy",swap(SC,"func (c *Chain) copy(",'''func (c *Chain) copy() *Chain {
	if c == nil {
		return nil
	}
	other := *c
	other.messageKeys = append(make([]*message.Keys, 0, len(c.messageKeys)), c.messageKeys...)
	return &other
}
'''))
PV3=fn(SE,"func (b *Builder) processV3(")
i=PV3.index("	parameters := ratchet.NewEmptyReceiverParameters()"); 
def stmts(s): return s
# the part that loads the keys
ref("z08-process-known-first",(SE,'''	sessionExists := sessionRecord.HasSessionState(
		message.MessageVersion(),
		message.BaseKey().Serialize(),
	)
	if sessionExists {''','''	version, base := message.MessageVersion(), message.BaseKey().Serialize()
	if known := sessionRecord.HasSessionState(version, base); known {'''))
ref("z09-process-onetime",(SE,'''		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
		if oneTimePreKey == nil {
			logger.Error(nilOneTimePreKeyError)
			return nil, errors.New(nilOneTimePreKeyError)
		}
		parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())
''','''		oneTime, err := b.oneTimeKeyPair(preKeyID.Value)
		if err != nil {
			return nil, err
		}
		parameters.SetOurOneTimePreKey(oneTime)
'''),(SE,fn(SE,"func (b *Builder) ProcessBundle("),fn(SE,"func (b *Builder) ProcessBundle(")+'''
func (b *Builder) oneTimeKeyPair(id uint32) (*ecc.ECKeyPair, error) {
	if found := b.preKeyStore.LoadPreKey(id); found != nil {
		return found.KeyPair(), nil
	}
	logger.Error(nilOneTimePreKeyError)
	return nil, errors.New(nilOneTimePreKeyError)
}
'''))
PB=fn(SE,"func (b *Builder) ProcessBundle(")
j=PB.index("	sessionRecord := b.sessionStore.LoadSession")
ref("z10-bundle-verify-helper",(SE,PB,'''func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
	if err := b.checkBundle(preKey); err != nil {
		return err
	}

'''+PB[j-(len(PB[:j])-PB[:j].rfind("\n\n")-2):]+'''
func (b *Builder) checkBundle(preKey *prekey.Bundle) error {
	switch {
	case !b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey()):
		return errors.New(untrustedIdentityError)
	case preKey.SignedPreKey() == nil:
		return errors.New(noSignedPreKeyError)
	}
	signed, signature := preKey.SignedPreKey().Serialize(), preKey.SignedPreKeySignature()
	if valid := ecc.VerifySignature(preKey.IdentityKey().PublicKey(), signed, signature); valid {
		return nil
	}
	return errors.New(invalidSignatureError)
}
'''))
a="	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)"
ref("z11-bundle-derive-first",(SE,PB,PB.replace('''	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}
''','',1).replace("	sessionState := sessionRecord.SessionState()\n","",1).replace("	sessionState.SetVersion(",'''	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}
	sessionState := sessionRecord.SessionState()
	sessionState.SetVersion(''',1)))
ref("z12-process-derive-first",(SE,PV3,PV3.replace('''	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}
''','',1).replace("	sessionState := sessionRecord.SessionState()\n","",1).replace("	sessionState.SetVersion(",'''	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}
	sessionState := sessionRecord.SessionState()
	sessionState.SetVersion(''',1)))
ref("z13-discontinuity-repeat",swap(RT,"func genDiscontinuity(",'''func genDiscontinuity() (discontinuity [32]byte) {
	copy(discontinuity[:], bytes.Repeat([]byte{0xFF}, len(discontinuity)))
	return
}
'''))
ref("z14-sender-secrets-list",swap(RT,"func CalculateSenderSession(",'''func CalculateSenderSession(parameters *SenderParameters) (*session.KeyPair, error) {
	ours := parameters.OurIdentityKey().PrivateKey().Serialize()
	base := parameters.OurBaseKey().PrivateKey().Serialize()
	signed := parameters.TheirSignedPreKey().PublicKey()
	secrets := [][32]byte{
		genDiscontinuity(),
		kdf.CalculateSharedSecret(signed, ours),
		kdf.CalculateSharedSecret(parameters.TheirIdentityKey().PublicKey().PublicKey(), base),
		kdf.CalculateSharedSecret(signed, base),
	}
	if oneTime := parameters.TheirOneTimePreKey(); oneTime != nil {
		secrets = append(secrets, kdf.CalculateSharedSecret(oneTime.PublicKey(), base))
	}
	masterSecret := make([]byte, 0, 32*len(secrets))
	for _, secret := range secrets {
		masterSecret = append(masterSecret, secret[:]...)
	}
	return deriveSession(masterSecret)
}

// deriveSession derives the root and chain keys of a master secret.
func deriveSession(masterSecret []byte) (*session.KeyPair, error) {
	derived, err := kdf.DeriveSecrets(masterSecret, nil, []byte("WhisperText"), root.DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	keys := session.NewDerivedSecrets(derived)
	return session.NewKeyPair(
		root.NewKey(kdf.DeriveSecrets, keys.RootKey()),
		chain.NewKey(kdf.DeriveSecrets, keys.ChainKey(), 0),
	), nil
}
'''))
ref("z15-receiver-copy-offsets",swap(RT,"func CalculateReceiverSession(",'''func CalculateReceiverSession(parameters *ReceiverParameters) (*session.KeyPair, error) {
	var master [5 * 32]byte
	used := 0
	add := func(secret [32]byte) {
		used += copy(master[used:], secret[:])
	}
	add(genDiscontinuity())
	signed := parameters.OurSignedPreKey().PrivateKey().Serialize()
	theirBase := parameters.TheirBaseKey().PublicKey()
	add(kdf.CalculateSharedSecret(parameters.TheirIdentityKey().PublicKey().PublicKey(), signed))
	add(kdf.CalculateSharedSecret(theirBase, parameters.OurIdentityKeyPair().PrivateKey().Serialize()))
	add(kdf.CalculateSharedSecret(theirBase, signed))
	if oneTime := parameters.OurOneTimePreKey(); oneTime != nil {
		add(kdf.CalculateSharedSecret(theirBase, oneTime.PrivateKey().Serialize()))
	}

	derivedKeysBytes, err := kdf.DeriveSecrets(master[:used], nil, []byte("WhisperText"), root.DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	derivedKeys := session.NewDerivedSecrets(derivedKeysBytes)
	return &session.KeyPair{
		RootKey:  root.NewKey(kdf.DeriveSecrets, derivedKeys.RootKey()),
		ChainKey: chain.NewKey(kdf.DeriveSecrets, derivedKeys.ChainKey(), 0),
	}, nil
}
'''))
ref("z16-sign-sum",(SG,'''	var r [64]byte
	hash := sha512.New()
	hash.Write(diversifier[:])
	hash.Write(privateKey[:])
	hash.Write(message)
	hash.Write(random[:])
	hash.Sum(r[:0])
''','''	seed := append([]byte{}, diversifier[:]...)
	seed = append(seed, privateKey[:]...)
	seed = append(seed, message...)
	seed = append(seed, random[:]...)
	r := sha512.Sum512(seed)
'''),(SG,'''	var hramDigest [64]byte
	hash.Reset()
''','''	var hramDigest [64]byte
	hash := sha512.New()
'''))
ref("z17-sign-bit-late",(SG,'''	signature := new([64]byte)
	copy(signature[:], encodedR[:])
	copy(signature[32:], s[:])
	signature[63] |= publicKey[31] & 0x80

	return signature
''','''	var signature [64]byte
	for i := 0; i < 32; i++ {
		signature[i] = encodedR[i]
		signature[32+i] = s[i]
	}
	if publicKey[31]&0x80 != 0 {
		signature[63] |= 0x80
	}
	return &signature
'''))
ref("z18-group-find",swap(SK,"func (k *SenderKey) GetSenderKeyStateByID(",'''func (k *SenderKey) GetSenderKeyStateByID(keyID uint32) (*SenderKeyState, error) {
	var found *SenderKeyState
	for _, state := range k.senderKeyStates {
		if state.KeyID() == keyID {
			found = state
			break
		}
	}
	if found == nil {
		return nil, errors.New("No sender key for for ID")
	}
	return found, nil
}
'''))
ref("z19-group-from-struct",swap(SK,"func NewSenderKeyFromStruct(",'''func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeySerializer,
	stateSerializer SenderKeyStateSerializer) (*SenderKey, error) {

	senderKey := NewSenderKey(serializer, stateSerializer)
	for _, s := range structure.SenderKeyStates {
		state, err := NewSenderKeyStateFromStructure(s, stateSerializer)
		if err != nil {
			return nil, err
		}
		senderKey.senderKeyStates = append(senderKey.senderKeyStates, state)
	}
	return senderKey, nil
}
'''))
ref("z20-group-add",swap(SK,"func (k *SenderKey) AddSenderKeyState(",'''func (k *SenderKey) AddSenderKeyState(id uint32, iteration uint32,
	chainKey []byte, signatureKey ecc.ECPublicKeyable) {

	first := 0
	if len(k.senderKeyStates) >= maxMessageKeys {
		first = 1
	}
	added := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
	k.senderKeyStates = append(k.senderKeyStates[first:], added)
}
'''))
ref("z21-group-set",swap(SK,"func (k *SenderKey) SetSenderKeyState(",'''func (k *SenderKey) SetSenderKeyState(id uint32, iteration uint32,
	chainKey []byte, signatureKey *ecc.ECKeyPair) {

	k.senderKeyStates = []*SenderKeyState{
		NewSenderKeyState(id, iteration, chainKey, signatureKey, k.stateSerializer),
	}
}
'''))
ref("z22-symmetric",(RT,'bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0','bytes.Compare(theirKey.Serialize(), ourKey.Serialize()) == 1'))
