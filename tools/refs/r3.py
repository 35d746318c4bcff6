REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
SC="session/cipher.go"; SM="protocol/signal_message.go"; PB="serialize/proto.go"
# session cipher
ref("t01-candidates",(SC,"""	sessionState := sessionRecord.SessionState().Copy()

	// Try and decrypt the message with the current session state.
	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)

	// If we received an error using the current session state, loop
	// through all previous states.
	if err != nil {
		logger.Warning(err)
		for i, state := range previousStates {
			// Try decrypting the message with a copy of the previous state
			state = state.Copy()
			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}

			// If successful, remove and promote the state.
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(state)

			return plaintext, messageKeys, nil
		}

		return nil, nil, errors.New("No valid sessions.")
	}

	// If decryption was successful, set the session state and return the plain text.
	sessionRecord.SetState(sessionState)

	return plaintext, messageKeys, nil
""","""	current := sessionRecord.SessionState().Copy()
	if plaintext, keys, err := d.DecryptWithState(current, ciphertext); err == nil {
		sessionRecord.SetState(current)
		return plaintext, keys, nil
	} else {
		logger.Warning(err)
	}

	for i := 0; i < len(previousStates); i++ {
		candidate := previousStates[i].Copy()
		if plaintext, keys, err := d.DecryptWithState(candidate, ciphertext); err == nil {
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(candidate)
			return plaintext, keys, nil
		}
	}

	return nil, nil, errors.New("No valid sessions.")
"""))
ref("t02-try-helper",(SC,"""		for i, state := range previousStates {
			// Try decrypting the message with a copy of the previous state
			state = state.Copy()
			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}

			// If successful, remove and promote the state.
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(state)

			return plaintext, messageKeys, nil
		}

		return nil, nil, errors.New("No valid sessions.")
	}
""","""		return d.decryptWithPrevious(sessionRecord, previousStates, ciphertext)
	}
"""),(SC,"""// DecryptWithState decrypts the given message with the given session state.
""","""// decryptWithPrevious tries the archived states in order.
func (d *Cipher) decryptWithPrevious(sessionRecord *record.Session, states []*record.State, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	for i, state := range states {
		attempt := state.Copy()
		plaintext, keys, err := d.DecryptWithState(attempt, ciphertext)
		if err == nil {
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(attempt)
			return plaintext, keys, nil
		}
	}
	return nil, nil, errors.New("No valid sessions.")
}

// DecryptWithState decrypts the given message with the given session state.
"""))
ref("t03-encrypt-order",(SC,"""	chainKey := sessionState.SenderChainKey()
	messageKeys := chainKey.MessageKeys()
	senderEphemeral := sessionState.SenderRatchetKey()
	previousCounter := sessionState.PreviousCounter()
	sessionVersion := sessionState.Version()
""","""	previousCounter := sessionState.PreviousCounter()
	sessionVersion := sessionState.Version()
	senderEphemeral := sessionState.SenderRatchetKey()
	chainKey := sessionState.SenderChainKey()
	messageKeys := chainKey.MessageKeys()
	nextChainKey := chainKey.NextKey()
"""),(SC,"	sessionState.SetSenderChainKey(chainKey.NextKey())\n	if !d.id","	sessionState.SetSenderChainKey(nextChainKey)\n	if !d.id"))
ref("t04-encrypt-prekey-helper",(SC,"""		items, err := sessionState.UnackPreKeyMessageItems()
		if err != nil {
			return nil, err
		}
		localRegistrationID := sessionState.LocalRegistrationID()

		ciphertextMessage, err = protocol.NewPreKeySignalMessage(
			sessionVersion,
			localRegistrationID,
			items.PreKeyID(),
			items.SignedPreKeyID(),
			items.BaseKey(),
			sessionState.LocalIdentityKey(),
			ciphertextMessage.(*protocol.SignalMessage),
			d.preKeyMessageSerializer,
			d.signalMessageSerializer,
		)
		if err != nil {
			return nil, err
		}
""","""		ciphertextMessage, err = d.wrap(sessionState, ciphertextMessage.(*protocol.SignalMessage))
		if err != nil {
			return nil, err
		}
"""),(SC,"""// Decrypt decrypts the given message using an existing session that
""","""func (d *Cipher) wrap(state *record.State, msg *protocol.SignalMessage) (*protocol.PreKeySignalMessage, error) {
	items, err := state.UnackPreKeyMessageItems()
	if err != nil {
		return nil, err
	}
	return protocol.NewPreKeySignalMessage(
		state.Version(), state.LocalRegistrationID(), items.PreKeyID(), items.SignedPreKeyID(),
		items.BaseKey(), state.LocalIdentityKey(), msg, d.preKeyMessageSerializer, d.signalMessageSerializer)
}

// Decrypt decrypts the given message using an existing session that
"""))
ref("t05-named-results",(SC,"""func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	if !d.sessionStore.ContainsSession(d.remoteAddress) {
		return nil, nil, errors.New("No session for: " + d.remoteAddress.String())
	}

	// Load the session record from our session store and decrypt the message.
	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}
""","""func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) (plaintext []byte, messageKeys *message.Keys, err error) {
	defer func() {
		if err != nil {
			logger.Error("Unable to decrypt: ", err)
		}
	}()
	if !d.sessionStore.ContainsSession(d.remoteAddress) {
		return nil, nil, errors.New("No session for: " + d.remoteAddress.String())
	}

	// Load the session record from our session store and decrypt the message.
	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err = d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}
"""))
ref("t06-state-switch",(SC,"""	if !sessionState.HasSenderChain() {
		err := "Uninitialized session!"
		logger.Error("Unable to decrypt message with state: ", err)
		return nil, nil, errors.New(err)
	}

	if ciphertextMessage.MessageVersion() != sessionState.Version() {
		err := "Wrong message version!"
		logger.Error("Unable to decrypt message with state: ", err)
		return nil, nil, errors.New(err)
	}
""","""	var refusal error
	switch {
	case !sessionState.HasSenderChain():
		refusal = errors.New("Uninitialized session!")
	case ciphertextMessage.MessageVersion() != sessionState.Version():
		refusal = errors.New("Wrong message version!")
	}
	if refusal != nil {
		logger.Error("Unable to decrypt message with state: ", refusal)
		return nil, nil, refusal
	}
"""))
ref("t07-chain-invert",(SC,"""	if sessionState.HasReceiverChain(theirEphemeral) {
		return sessionState.ReceiverChainKey(theirEphemeral), nil
	}
""","""	if existing := sessionState.ReceiverChainKey(theirEphemeral); existing != nil {
		return existing, nil
	}
"""))
ref("t08-agree-struct",(SC,"""	// Set our session state parameters.
	sessionState.SetRootKey(senderChain.RootKey)
	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
	sessionState.SetPreviousCounter(previousCounter)
	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
""","""	// Set our session state parameters.
	var previousCounter uint32
	if sent := sessionState.SenderChainKey().Index(); sent > 0 {
		previousCounter = sent - 1
	}
	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
	sessionState.SetRootKey(senderChain.RootKey)
	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
	sessionState.SetPreviousCounter(previousCounter)
"""))
ref("t09-future-const",(SC,"""	if counter-chainKey.Index() > maxFutureMessages {
		return nil, errors.New("Too many messages into the future!")
	}
""","""	skipped := uint64(counter) - uint64(chainKey.Index())
	if skipped > uint64(maxFutureMessages) {
		return nil, fmt.Errorf("too many messages into the future: %d", skipped)
	}
"""),(SC,'import (\n	"errors"\n','import (\n	"errors"\n	"fmt"\n'))
ref("t10-trust-closure",(SC,"""	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
		return nil, nil, errors.New(untrustedIdentityError)
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
""","""	finish := func(remote *identity.Key) error {
		if trusted := d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, remote); !trusted {
			return errors.New(untrustedIdentityError)
		}
		d.identityKeyStore.SaveIdentity(d.remoteAddress, remote)
		d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
		return nil
	}
	if err = finish(sessionRecord.SessionState().RemoteIdentityKey()); err != nil {
		return nil, nil, err
	}
	return plaintext, messageKeys, nil
"""),(SC,'	"github.com/prospik/libsignal-protocol-go/keys/message"\n','	"github.com/prospik/libsignal-protocol-go/keys/identity"\n	"github.com/prospik/libsignal-protocol-go/keys/message"\n'))
ref("t11-remove-before-store",(SC,"""	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	return plaintext, keys, nil
""","""	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if unsignedPreKeyID.IsEmpty {
		return plaintext, keys, nil
	}
	d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	return plaintext, keys, nil
"""))
# signal message
ref("m01-version-helper",(SM,"""	// Throw an error if the given message structure is an unsupported version.
	if structure.Version <= UnsupportedVersion {
		err := "Legacy message: " + strconv.Itoa(structure.Version)
		return nil, errors.New(err)
	}

	// Throw an error if the given message structure is a future version.
	if structure.Version > CurrentVersion {
		err := "Unknown version: " + strconv.Itoa(structure.Version)
		return nil, errors.New(err)
	}
""","""	if err := checkVersion(structure.Version); err != nil {
		return nil, err
	}
"""),(SM,"""// NewSignalMessage returns a Signal Ciphertext message.
""","""func checkVersion(version int) error {
	switch {
	case version <= UnsupportedVersion:
		return errors.New("Legacy message: " + strconv.Itoa(version))
	case version > CurrentVersion:
		return errors.New("Unknown version: " + strconv.Itoa(version))
	}
	return nil
}

// NewSignalMessage returns a Signal Ciphertext message.
"""))
ref("m02-mac-prealloc",(SM,"""	serialized := append(version, serializer.Serialize(structure)...)
	// Get the""","""	body := serializer.Serialize(structure)
	serialized := make([]byte, 0, len(version)+len(body))
	serialized = append(serialized, version...)
	serialized = append(serialized, body...)
	// Get the"""))
ref("m03-verify-copy",(SM,"""	structure := s.structure
	signalMessage, err := NewSignalMessageFromStruct(&structure, s.serializer)
	if err != nil {
		return err
	}
	signalMessage.structure.Mac = nil
	signalMessage.structure.Version = 0
	version := []byte(strconv.Itoa(s.MessageVersion()))
	serialized := append(version, signalMessage.Serialize()...)
""","""	structure := s.structure
	structure.Mac = nil
	structure.Version = 0
	serialized := append([]byte(strconv.Itoa(s.structure.Version)), s.serializer.Serialize(&structure)...)
"""),(SM,"	ourMac, err := getMac(","	ourMac, err := getMac("))
ref("m04-mac-writes",(SM,"""	if messageVersion >= 3 {
		mac.Write(senderIdentityKey.PublicKey().Serialize())
		mac.Write(receiverIdentityKey.PublicKey().Serialize())
	}

	mac.Write(serialized)
""","""	var input bytes.Buffer
	if messageVersion >= 3 {
		input.Write(senderIdentityKey.Serialize())
		input.Write(receiverIdentityKey.Serialize())
	}
	input.Write(serialized)

	mac.Write(input.Bytes())
"""),(SM,'import (\n','import (\n	"bytes"\n'))
ref("m05-mac-parts",(SM,"""	mac := hmac.New(sha256.New, macKey[:])

	if messageVersion >= 3 {
		mac.Write(senderIdentityKey.PublicKey().Serialize())
		mac.Write(receiverIdentityKey.PublicKey().Serialize())
	}

	mac.Write(serialized)

	fullMac := mac.Sum(nil)

	return bytehelper.Trim(fullMac, MacLength), nil
""","""	parts := [][]byte{serialized}
	if messageVersion >= 3 {
		parts = [][]byte{senderIdentityKey.PublicKey().Serialize(), receiverIdentityKey.PublicKey().Serialize(), serialized}
	}

	mac := hmac.New(sha256.New, macKey)
	for _, part := range parts {
		mac.Write(part)
	}

	return bytehelper.Trim(mac.Sum(nil), MacLength), nil
"""))
ref("m06-incomplete-first",(SM,"""	// Throw an error if the structure is missing critical fields.
	if structure.CipherText == nil || structure.RatchetKey == nil {
		err := "Incomplete message."
		return nil, errors.New(err)
	}

	// Create the signal message object from the structure.
	whisperMessage := &SignalMessage{structure: *structure, serializer: serializer}

	// Generate the ECC key from bytes.
	var err error
	whisperMessage.senderRatchetKey, err = ecc.DecodePoint(structure.RatchetKey, 0)
	if err != nil {
		return nil, err
	}

	return whisperMessage, nil
""","""	// Throw an error if the structure is missing critical fields.
	complete := structure.CipherText != nil && structure.RatchetKey != nil
	if !complete {
		return nil, errors.New("Incomplete message.")
	}

	ratchetKey, err := ecc.DecodePoint(structure.RatchetKey, 0)
	if err != nil {
		return nil, err
	}

	return &SignalMessage{
		structure:        *structure,
		senderRatchetKey: ratchetKey,
		serializer:       serializer,
	}, nil
"""))
# proto
ref("p01-serialize-join",(PB,"""	var serialized []byte
	message, err := proto.Marshal(sm)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}

	if signalMessage.Version != 0 {
		serialized = append(serialized, []byte(strconv.Itoa(signalMessage.Version))...)
	}
	serialized = append(serialized, message...)

	if signalMessage.Mac != nil {
		serialized = append(serialized, signalMessage.Mac...)
	}

	return serialized
""","""	message, err := proto.Marshal(sm)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}

	version := ""
	if signalMessage.Version != 0 {
		version = strconv.Itoa(signalMessage.Version)
	}

	return append(append([]byte(version), message...), signalMessage.Mac...)
"""))
ref("p02-proto-fields",(PB,"""	sm := &SignalMessage{
		RatchetKey:      signalMessage.RatchetKey,
		Counter:         &signalMessage.Counter,
		PreviousCounter: &signalMessage.PreviousCounter,
		Ciphertext:      signalMessage.CipherText,
	}
""","""	sm := new(SignalMessage)
	sm.Counter = proto.Uint32(signalMessage.Counter)
	sm.PreviousCounter = proto.Uint32(signalMessage.PreviousCounter)
	sm.RatchetKey = signalMessage.RatchetKey
	sm.Ciphertext = signalMessage.CipherText
"""))
ref("p03-deser-version-helper",(PB,"""	version := highBitsToInt(serialized[0])
	message := serialized[1:]
	var sm PreKeySignalMessage
	err := proto.Unmarshal(message, &sm)
""","""	version, message := cutVersion(serialized)
	sm := &PreKeySignalMessage{}
	err := proto.Unmarshal(message, sm)
"""),(PB,"""func intsToByteHighAndLow""","""func cutVersion(serialized []byte) (int, []byte) {
	return highBitsToInt(serialized[0]), serialized[1:]
}

func intsToByteHighAndLow"""))
ref("p04-prekeyid",(PB,"""		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
	}
	if sm.PreKeyId == nil {
		preKeySignalMessage.PreKeyID = optional.NewEmptyUint32()
	}
""","""	}
	if sm.PreKeyId != nil {
		preKeySignalMessage.PreKeyID = optional.NewOptionalUint32(*sm.PreKeyId)
	} else {
		preKeySignalMessage.PreKeyID = optional.NewEmptyUint32()
	}
"""))
ref("p05-senderkey-append",(PB,"""	var serialized []byte
	m, err := proto.Marshal(senderMessage)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}

	if message.Version != 0 {
		serialized = append([]byte(fmt.Sprint(message.Version)), m...)
	}

	if message.Signature != nil {
		serialized = append(serialized, message.Signature...)
	}
""","""	m, err := proto.Marshal(senderMessage)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}

	var out bytes.Buffer
	if message.Version != 0 {
		fmt.Fprintf(&out, "%d", message.Version)
		out.Write(m)
	}
	out.Write(message.Signature)
	serialized := out.Bytes()
"""),(PB,'import (\n','import (\n	"bytes"\n'))
ref("p06-split-inline",(PB,"""	parts, err := bytehelper.SplitThree(serialized, 1, len(serialized)-1-64, 64)
	if err != nil {
		logger.Error("Error split signal message: ", err)
		return nil, err
	}
	version := uint32(highBitsToInt(parts[0][0]))
	message := parts[1]
	signature := parts[2]

	var senderKey SenderKeyMessage
	err = proto.Unmarshal(message, &senderKey)
""","""	if len(serialized) < 1+64 {
		return nil, errors.New("Input too small")
	}
	version := uint32(serialized[0] >> 4)
	message := serialized[1 : len(serialized)-64]
	signature := serialized[len(serialized)-64:]

	var senderKey SenderKeyMessage
	err := proto.Unmarshal(message, &senderKey)
"""))
