REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
GC="groups/cipher.go"; GS="groups/state/record/state_sender_key.go"; GR="groups/state/record/sender_key.go"; GB="groups/session_builder.go"
ref("g01-verify-inline",(GC,"	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)\n	if !verified {","	if !ecc.VerifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage.Serialize(), senderKeyMessage.Signature()) {"))
ref("g02-getkey-split",(GC,"""	if senderChainKey.Iteration() > iteration {
		if senderKeyState.HasSenderMessageKey(iteration) {
			return senderKeyState.RemoveSenderMessageKey(iteration), nil
		}
""","""	if senderChainKey.Iteration() > iteration {
		if key := senderKeyState.RemoveSenderMessageKey(iteration); key != nil {
			return key, nil
		}
"""))
ref("g03-skip-helper",(GC,"""	for senderChainKey.Iteration() < iteration {
		senderMessageKey, err := senderChainKey.SenderMessageKey()
		if err != nil {
			return nil, err
		}
		senderKeyState.AddSenderMessageKey(senderMessageKey)
		senderChainKey = senderChainKey.Next()
	}

	senderKeyState.SetSenderChainKey(senderChainKey.Next())
	return senderChainKey.SenderMessageKey()
}
""","""	senderChainKey, err := skipTo(senderKeyState, senderChainKey, iteration)
	if err != nil {
		return nil, err
	}
	senderMessageKey, err := senderChainKey.SenderMessageKey()
	if err != nil {
		return nil, err
	}
	senderKeyState.SetSenderChainKey(senderChainKey.Next())
	return senderMessageKey, nil
}

func skipTo(state *record.SenderKeyState, key *ratchet.SenderChainKey, iteration uint32) (*ratchet.SenderChainKey, error) {
	for ; key.Iteration() < iteration; key = key.Next() {
		mk, err := key.SenderMessageKey()
		if err != nil {
			return nil, err
		}
		state.AddSenderMessageKey(mk)
	}
	return key, nil
}
"""))
ref("g03b-skip-count",(GC,"""	for senderChainKey.Iteration() < iteration {
		sender""","""	for i := senderChainKey.Iteration(); i < iteration; i++ {
		sender"""))
ref("g04-remove-loop",(GS,"""	for i := 0; i < len(k.keys); i++ {
		if k.keys[i].Iteration() == iteration {
			removed := k.keys[i]
			k.keys = append(k.keys[0:i], k.keys[i+1:]...)
			return removed
		}
	}

	return nil
}""","""	var removed *ratchet.SenderMessageKey
	kept := make([]*ratchet.SenderMessageKey, 0, len(k.keys))
	for _, key := range k.keys {
		if removed == nil && key.Iteration() == iteration {
			removed = key
			continue
		}
		kept = append(kept, key)
	}
	k.keys = kept

	return removed
}"""))
ref("g05-find-helper",(GR,"""	for i := 0; i < len(k.senderKeyStates); i++ {
		if k.senderKeyStates[i].KeyID() == keyID {
			return k.senderKeyStates[i], nil
		}
	}

	return nil, errors.New("No sender key for for ID")""","""	if state := k.find(keyID); state != nil {
		return state, nil
	}

	return nil, errors.New("No sender key for for ID")"""),(GR,"// IsEmpty will","""func (k *SenderKey) find(keyID uint32) *SenderKeyState {
	for _, state := range k.senderKeyStates {
		if state.KeyID() == keyID {
			return state
		}
	}
	return nil
}

// IsEmpty will"""))
ref("g06-trim-first",(GR,"""	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
	k.senderKeyStates = append(k.senderKeyStates, newState)

	if len(k.senderKeyStates) > maxMessageKeys {
		k.senderKeyStates = k.senderKeyStates[1:]
	}
""","""	if len(k.senderKeyStates) >= maxMessageKeys {
		k.senderKeyStates = k.senderKeyStates[1:]
	}
	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
	k.senderKeyStates = append(k.senderKeyStates, newState)
"""))
ref("g07-structure-append",(GR,"""	senderKeyStates := make([]*SenderKeyStateStructure, len(k.senderKeyStates))
	for i := range k.senderKeyStates {
		senderKeyStates[i] = k.senderKeyStates[i].structure()
	}
""","""	senderKeyStates := make([]*SenderKeyStateStructure, 0, len(k.senderKeyStates))
	for _, state := range k.senderKeyStates {
		senderKeyStates = append(senderKeyStates, state.structure())
	}
"""))
ref("g08-create-split",(GB,"""	// If the record is empty, generate new keys.
	if senderKeyRecord == nil || senderKeyRecord.IsEmpty() {
		senderKeyRecord = record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
		signingKey, err := keyhelper.GenerateSenderSigningKey()
		if err != nil {
			return nil, err
		}
		senderKey := keyhelper.GenerateSenderKey()
		if senderKey == nil {
			return nil, errors.New("Unable to generate a sender key")
		}
		senderKeyRecord.SetSenderKeyState(
			keyhelper.GenerateSenderKeyID(), 0,
			senderKey,
			signingKey,
		)
		b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)
	}
""","""	// If the record is empty, generate new keys.
	if senderKeyRecord == nil || senderKeyRecord.IsEmpty() {
		fresh, err := b.fresh()
		if err != nil {
			return nil, err
		}
		b.senderKeyStore.StoreSenderKey(senderKeyName, fresh)
		senderKeyRecord = fresh
	}
"""),(GB,"// Create will create","""func (b *SessionBuilder) fresh() (*record.SenderKey, error) {
	keyID := keyhelper.GenerateSenderKeyID()
	chainKey := keyhelper.GenerateSenderKey()
	if chainKey == nil {
		return nil, errors.New("Unable to generate a sender key")
	}
	signingKey, err := keyhelper.GenerateSenderSigningKey()
	if err != nil {
		return nil, err
	}
	r := record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
	r.SetSenderKeyState(keyID, 0, chainKey, signingKey)
	return r, nil
}

// Create will create"""))
ref("g09-encrypt-order",(GC,"""	senderKeyState.SetSenderChainKey(senderKeyState.SenderChainKey().Next())
	c.senderKeyStore""","""	chainKey := senderKeyState.SenderChainKey()
	nextKey := chainKey.Next()
	senderKeyState.SetSenderChainKey(nextKey)
	c.senderKeyStore"""))
ref("g10-hmac",("groups/ratchet/sender_chain_key.go","""	mac := hmac.New(sha256.New, key[:])
	mac.Write(seed)

	return mac.Sum(nil)""","""	h := hmac.New(sha256.New, key)
	for _, b := range seed {
		h.Write([]byte{b})
	}
	var out [32]byte
	h.Sum(out[:0])

	return out[:]"""))
B="session/session.go"
ref("s01-verify-helper",(B,"""	// Check to see if the bundle has a signed pre key.
	if preKey.SignedPreKey() == nil {
		return errors.New(noSignedPreKeyError)
	}

	// Verify the signature of the pre key
	preKeyPublic := preKey.IdentityKey().PublicKey()
	preKeyBytes := preKey.SignedPreKey().Serialize()
	preKeySignature := preKey.SignedPreKeySignature()
	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
		return errors.New(invalidSignatureError)
	}
""","""	if err := checkBundle(preKey); err != nil {
		return err
	}
"""),(B,"// ProcessBundle builds","""func checkBundle(bundle *prekey.Bundle) error {
	signed := bundle.SignedPreKey()
	if signed == nil {
		return errors.New(noSignedPreKeyError)
	}
	ok := ecc.VerifySignature(bundle.IdentityKey().PublicKey(), signed.Serialize(), bundle.SignedPreKeySignature())
	if ok {
		return nil
	}
	return errors.New(invalidSignatureError)
}

// ProcessBundle builds"""))
ref("s02-onetime-helper",(B,"""	preKeyID := message.PreKeyID()
	if preKeyID != nil && !preKeyID.IsEmpty {
		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
		if oneTimePreKey == nil {
			logger.Error(nilOneTimePreKeyError)
			return nil, errors.New(nilOneTimePreKeyError)
		}
		parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())
	} else {
		parameters.SetOurOneTimePreKey(nil)
	}
""","""	preKeyID := message.PreKeyID()
	oneTime, err := b.oneTime(preKeyID)
	if err != nil {
		return nil, err
	}
	parameters.SetOurOneTimePreKey(oneTime)
"""),(B,"// ProcessBundle builds","""func (b *Builder) oneTime(id *optional.Uint32) (*ecc.ECKeyPair, error) {
	if id == nil || id.IsEmpty {
		return nil, nil
	}
	key := b.preKeyStore.LoadPreKey(id.Value)
	if key == nil {
		return nil, errors.New(nilOneTimePreKeyError)
	}
	return key.KeyPair(), nil
}

// ProcessBundle builds"""))
ref("s03-process-order",(B,"""	// If this is a fresh record, archive our current state.
	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}

	///////// Initialize our session /////////
	sessionState := sessionRecord.SessionState()
	derivedKeys, sessionErr := ratchet.CalculateReceiverSession(parameters)
	if sessionErr != nil {
		return nil, sessionErr
	}
""","""	derivedKeys, sessionErr := ratchet.CalculateReceiverSession(parameters)
	if sessionErr != nil {
		return nil, sessionErr
	}

	// If this is a fresh record, archive our current state.
	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}
	sessionState := sessionRecord.SessionState()
"""),(B,"""	sessionState.SetLocalRegistrationID(b.identityKeyStore.GetLocalRegistrationId())
	sessionState.SetRemoteRegistrationID(message.RegistrationID())
	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
""","""	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
	sessionState.SetRemoteRegistrationID(message.RegistrationID())
	sessionState.SetLocalRegistrationID(b.identityKeyStore.GetLocalRegistrationId())
"""))
ref("s04-bundle-keys-first",(B,"""	// Generate an ephemeral "ratchet" key that will be advertised to
	// the receiving user.
	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		return keyErr
	}
""",""),(B,"""	theirSignedPreKey := preKey.SignedPreKey()
	theirOne""","""	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		return keyErr
	}
	theirSignedPreKey := preKey.SignedPreKey()
	theirOne"""))
R="ratchet/ratchet.go"
ref("x01-agree-helper",(R,"""	// Calculate the agreement using their signed prekey and our identity key.
	publicKey = parameters.TheirSignedPreKey().PublicKey()
	privateKey = parameters.OurIdentityKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)

	// Calculate the agreement using their identity key and our base key.
	publicKey = parameters.TheirIdentityKey().PublicKey().PublicKey()
	privateKey = parameters.OurBaseKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)
""","""	agree := func(their ecc.ECPublicKeyable, our ecc.ECPrivateKeyable) {
		s := kdf.CalculateSharedSecret(their.PublicKey(), our.Serialize())
		masterSecret = append(masterSecret, s[:]...)
	}
	agree(parameters.TheirSignedPreKey(), parameters.OurIdentityKey().PrivateKey())
	agree(parameters.TheirIdentityKey().PublicKey(), parameters.OurBaseKey().PrivateKey())
"""),(R,"import (\n","import (\n	\"github.com/prospik/libsignal-protocol-go/ecc\"\n"))
ref("x02-pairs-loop",(R,"""	var secret [32]byte
	var publicKey [32]byte
	var privateKey [32]byte
	masterSecret := []byte{} // Create a master shared secret that is 5 different 32-byte values
	discontinuity := genDiscontinuity()
	masterSecret = append(masterSecret, discontinuity[:]...)

	// Calculate the agreement using their signed prekey and our identity key.
	publicKey = parameters.TheirSignedPreKey().PublicKey()
	privateKey = parameters.OurIdentityKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)

	// Calculate the agreement using their identity key and our base key.
	publicKey = parameters.TheirIdentityKey().PublicKey().PublicKey()
	privateKey = parameters.OurBaseKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)

	// Calculate the agreement using their signed prekey and our base key.
	publicKey = parameters.TheirSignedPreKey().PublicKey()
	privateKey = parameters.OurBaseKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)

	// If they have a one-time prekey, use it to calculate the shared secret with their
	// one time key and our base key.
	if parameters.TheirOneTimePreKey() != nil {
		publicKey = parameters.TheirOneTimePreKey().PublicKey()
		privateKey = parameters.OurBaseKey().PrivateKey().Serialize()
		secret = kdf.CalculateSharedSecret(
			publicKey,
			privateKey,
		)
		masterSecret = append(masterSecret, secret[:]...)

	}
""","""	discontinuity := genDiscontinuity()
	base := parameters.OurBaseKey().PrivateKey().Serialize()
	type pair struct{ their, our [32]byte }
	pairs := []pair{
		{parameters.TheirSignedPreKey().PublicKey(), parameters.OurIdentityKey().PrivateKey().Serialize()},
		{parameters.TheirIdentityKey().PublicKey().PublicKey(), base},
		{parameters.TheirSignedPreKey().PublicKey(), base},
	}
	if parameters.TheirOneTimePreKey() != nil {
		pairs = append(pairs, pair{parameters.TheirOneTimePreKey().PublicKey(), base})
	}
	masterSecret := make([]byte, 0, 160)
	masterSecret = append(masterSecret, discontinuity[:]...)
	for _, p := range pairs {
		secret := kdf.CalculateSharedSecret(p.their, p.our)
		masterSecret = append(masterSecret, secret[:]...)
	}
"""))
ref("x03-discontinuity",(R,"""	for i := range discontinuity {
		discontinuity[i] = 0xFF
	}
	return discontinuity""","""	for i := len(discontinuity) - 1; i >= 0; i-- {
		discontinuity[i] = 255
	}
	return discontinuity"""))
C="cipher/cipher.go"; CB="cipher/cbc.go"
ref("c01-pad-append",(C,"""	pb := make([]byte, len(b)+n)
	copy(pb, b)
	copy(pb[len(b):], bytes.Repeat([]byte{byte(n)}, n))
	return pb, nil""","""	pb := append([]byte{}, b...)
	return append(pb, bytes.Repeat([]byte{byte(n)}, n)...), nil"""))
ref("c02-pad-loop",(C,"""	copy(pb[len(b):], bytes.Repeat([]byte{byte(n)}, n))
""","""	for i := len(b); i < len(pb); i++ {
		pb[i] = byte(n)
	}
"""),(C,"	\"bytes\"\n",""))
ref("c03-unpad-range",(C,"""	for i := 0; i < n; i++ {
		if b[len(b)-n+i] != c {
			return nil, ErrInvalidPKCS7Padding
		}
	}
""","""	for _, x := range b[len(b)-n:] {
		if x != c {
			return nil, ErrInvalidPKCS7Padding
		}
	}
"""))
ref("c03b-unpad-suffix",(C,"""	for i := 0; i < n; i++ {
		if b[len(b)-n+i] != c {
			return nil, ErrInvalidPKCS7Padding
		}
	}
""","""	if !bytes.HasSuffix(b, bytes.Repeat([]byte{c}, n)) {
		return nil, ErrInvalidPKCS7Padding
	}
"""))
ref("c03c-unpad-back",(C,"""	for i := 0; i < n; i++ {
		if b[len(b)-n+i] != c {
			return nil, ErrInvalidPKCS7Padding
		}
	}
""","""	for i := len(b) - 1; i >= len(b)-n; i-- {
		if b[i] != c {
			return nil, ErrInvalidPKCS7Padding
		}
	}
"""))
ref("c04-cbc-pad",(CB,"""	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)""","""	padded := make([]byte, len(ciphertext)+padding)
	n := copy(padded, ciphertext)
	copy(padded[n:], bytes.Repeat([]byte{byte(padding)}, padding))
	return padded"""))
ref("c05-cbc-unpad",(CB,"""	for _, b := range src[length-padLen:] {
		if int(b) != padLen {
			return nil, fmt.Errorf("inconsistent padding")
		}
	}

	return src[:(length - padLen)], nil""","""	text, tail := src[:length-padLen], src[length-padLen:]
	for i := range tail {
		if tail[i] != byte(padLen) {
			return nil, fmt.Errorf("inconsistent padding at %d", i)
		}
	}

	return text, nil"""))
D="fingerprint/display.go"
ref("f01-display-loop",(D,"""	return encodedChunk(fingerprint, 0) +
		encodedChunk(fingerprint, 5) +
		encodedChunk(fingerprint, 10) +
		encodedChunk(fingerprint, 15) +
		encodedChunk(fingerprint, 20) +
		encodedChunk(fingerprint, 25)""","""	s := ""
	for offset := 0; offset < 30; offset += 5 {
		s += encodedChunk(fingerprint, offset)
	}
	return s"""))
ref("f01b-display-builder",(D,"""	return encodedChunk(fingerprint, 0) +
		encodedChunk(fingerprint, 5) +
		encodedChunk(fingerprint, 10) +
		encodedChunk(fingerprint, 15) +
		encodedChunk(fingerprint, 20) +
		encodedChunk(fingerprint, 25)""","""	var s strings.Builder
	for i := 0; i < 6; i++ {
		s.WriteString(encodedChunk(fingerprint, i*5))
	}
	return s.String()"""),(D,"	\"fmt\"\n","	\"fmt\"\n	\"strings\"\n"))
ref("f02-display-swap",(D,"""	if d.localFingerprintNumbers < d.remoteFingerprintNumbers {
		return d.localFingerprintNumbers + d.remoteFingerprintNumbers
	}
	return d.remoteFingerprintNumbers + d.localFingerprintNumbers""","""	first, second := d.localFingerprintNumbers, d.remoteFingerprintNumbers
	if second < first {
		first, second = second, first
	}
	return first + second"""))
BH="util/bytehelper/byte.go"
ref("b01-int64-loop",(BH,"""
	value := (int64(bytes[offset]&0xff) << 32) |
		(int64(bytes[offset+1]&0xff) << 24) |
		(int64(bytes[offset+2]&0xff) << 16) |
		(int64(bytes[offset+3]&0xff) << 8) |
		int64(bytes[offset+4]&0xff)
""","""	var value int64
	for i := 0; i < 5; i++ {
		value = value<<8 | int64(bytes[offset+i])
	}
"""))
ref("b02-split",(BH,"""	parts := make([][]byte, 2)

	parts[0] = make([]byte, firstLength)
	copy(parts[0], input[:firstLength])

	parts[1] = make([]byte, secondLength)
	copy(parts[1], input[firstLength:])

	return parts
""","""	first := append([]byte(nil), input[:firstLength]...)
	second := make([]byte, secondLength)
	copy(second, input[firstLength:])

	return [][]byte{first, second}
"""))
ref("b03-trim",(BH,"""	result := make([]byte, length)
	copy(result, input[:length])

	return result""","""	return CopySlice(input[:length])"""))
ref("b04-array",(BH,"""	var byteArray [32]byte
	copy(byteArray[:], bytes)
	return byteArray""","""	var byteArray [32]byte
	for i := 0; i < len(bytes) && i < len(byteArray); i++ {
		byteArray[i] = bytes[i]
	}
	return byteArray"""))
K="util/keyhelper/key.go"
ref("k01-prekeys-prealloc",(K,"""	var preKeys []*record.PreKey

	for i := start; i <= count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
	}

	return preKeys, nil""","""	if start > count {
		return nil, nil
	}
	preKeys := make([]*record.PreKey, 0, count-start+1)
	for id := start; id <= count; id++ {
		preKey, err := newPreKey(uint32(id), serializer)
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, preKey)
	}

	return preKeys, nil"""),(K,"// GenerateLastResortKey will","""func newPreKey(id uint32, serializer record.PreKeySerializer) (*record.PreKey, error) {
	key, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	return record.NewPreKey(id, key, serializer), nil
}

// GenerateLastResortKey will"""))
ref("k02-async-helper",(K,"""	go func() {
		r, err := GenerateIdentityKeyPair()
		if err != nil {
			completion.OnFailure(err.Error())
			return
		}
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
	}()
}""","""	go generateInto(completion)
}

func generateInto(completion complete.Completionable) {
	if r, err := GenerateIdentityKeyPair(); err == nil {
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
	} else {
		completion.OnFailure(err.Error())
	}
}"""))
ref("k03-regid",(K,"""	var n uint32
	binary.Read(rand.Reader, binary.LittleEndian, &n)

	return n""","""	var b [4]byte
	rand.Read(b[:])

	return binary.LittleEndian.Uint32(b[:])"""))
E1="ecc/curve.go"; E2="ecc/sign_curve25519.go"
ref("e01-decode-if",(E1,"""	keyType := bytes[offset] & 0xFF

	switch keyType {
	case DjbType:
		keyBytes := [32]byte{}
		copy(keyBytes[:], bytes[offset+1:])
		return NewDjbECPublicKey(keyBytes), nil
	default:
		return nil, errors.New("Bad key type: " + string(keyType))
	}""","""	point := bytes[offset : offset+KeySize]
	if point[0] != DjbType {
		return nil, errors.New("Bad key type: " + string(point[0]))
	}
	var keyBytes [32]byte
	copy(keyBytes[:], point[1:])
	return NewDjbECPublicKey(keyBytes), nil"""))
ref("e02-clamp",(E1,"""	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}

	// Documented at: http://cr.yp.to/ecdh.html
	private[0] &= 248
	private[31] &= 127
	private[31] |= 64
""","""	if _, err := io.ReadFull(random, private[:]); err != nil {
		return nil, err
	}
	clamp(&private)
"""),(E1,"// VerifySignature verifies","""func clamp(k *[32]byte) {
	k[0] &^= 7
	k[31] = k[31]&0x7f | 0x40
}

// VerifySignature verifies"""))
ref("e03-sign-concat",(E2,"""	hash := sha512.New()
	hash.Write(diversifier[:])
	hash.Write(privateKey[:])
	hash.Write(message)
	hash.Write(random[:])
	hash.Sum(r[:0])
""","""	input := append([]byte{}, diversifier[:]...)
	input = append(input, privateKey[:]...)
	input = append(input, message...)
	input = append(input, random[:]...)
	r = sha512.Sum512(input)
	hash := sha512.New()
"""))
ref("e04-sign-array",(E2,"""	signature := new([64]byte)
	copy(signature[:], encodedR[:])
	copy(signature[32:], s[:])
	signature[63] |= publicKey[31] & 0x80

	return signature""","""	var signature [64]byte
	copy(signature[:32], encodedR[:])
	copy(signature[32:], s[:])
	if publicKey[31]&0x80 != 0 {
		signature[63] |= 0x80
	}

	return &signature"""))
ref("e05-async",(E1,"""		r := VerifySignature(signingKey, message, signature)
		if r == false {
			completion.OnFailure("Signature invalid")
			return
		}
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
""","""		switch {
		case VerifySignature(signingKey, message, signature):
			result := complete.NewResult(true)
			completion.OnSuccess(&result)
		default:
			completion.OnFailure("Signature invalid")
		}
"""))
ref("h01-hkdf",("kdf/hkdf.go","""	secrets := make([]byte, outputLength)
	length, err := io.ReadFull(kdf, secrets)
	if err != nil {
		return nil, err
	}
	if length != outputLength {
		return nil, err
	}
""","""	secrets := make([]byte, outputLength)
	if _, err := io.ReadFull(kdf, secrets); err != nil {
		return nil, err
	}
"""))
