def rep(old,new): return (old,new)
REFS=[
dict(id="q01-json-helper",edits=[("serialize/json.go",'''	var signalMessage protocol.SignalMessageStructure
	err := json.Unmarshal(serialized, &signalMessage)
	if err != nil {
		logger.Error("Error deserializing signal message: ", err)
		return nil, err
	}

	return &signalMessage, nil
}
''','''	signalMessage := &protocol.SignalMessageStructure{}
	if err := decodeJSON(serialized, signalMessage, "signal message"); err != nil {
		return nil, err
	}
	return signalMessage, nil
}

// decodeJSON parses the given bytes into a structure.
func decodeJSON(serialized []byte, into interface{}, what string) error {
	if err := json.Unmarshal(serialized, into); err != nil {
		logger.Error("Error deserializing "+what+": ", err)
		return err
	}
	return nil
}
''')]),
dict(id="q02-json-encode-helper",edits=[("serialize/json.go",'''	serialized, err := json.Marshal(*signalMessage)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}
	// logger.Debug("Serialize result: ", string(serialized))

	return serialized
}
''','''	return encodeJSON(*signalMessage, "signal message")
}

func encodeJSON(structure interface{}, what string) []byte {
	serialized, err := json.Marshal(structure)
	if err != nil {
		logger.Error("Error serializing ", what, ": ", err)
	}
	return serialized
}
''')]),
dict(id="q03-states-helper",edits=[("state/record/session.go",'''	previousStates := make([]*State, len(structure.PreviousStates))
	for i := range structure.PreviousStates {
		var err error
		previousStates[i], err = NewStateFromStructure(structure.PreviousStates[i], stateSerializer)
		if err != nil {
			return nil, err
		}
	}
''','''	previousStates, err := statesFromStructures(structure.PreviousStates, stateSerializer)
	if err != nil {
		return nil, err
	}
'''),("state/record/session.go",'''// NewSessionFromStructure will return''','''func statesFromStructures(structures []*StateStructure, serializer StateSerializer) ([]*State, error) {
	states := make([]*State, 0, len(structures))
	for _, structure := range structures {
		state, err := NewStateFromStructure(structure, serializer)
		if err != nil {
			return nil, err
		}
		states = append(states, state)
	}
	return states, nil
}

// NewSessionFromStructure will return''')]),
dict(id="q04-no-multierror",edits=[("state/record/state_session.go",'''	localIdentityPublic, err := ecc.DecodePoint(structure.LocalIdentityPublic, 0)
	errors.Add(err)
	remoteIdentityPublic, err := ecc.DecodePoint(structure.RemoteIdentityPublic, 0)
	errors.Add(err)
''','''	localIdentityPublic, err := ecc.DecodePoint(structure.LocalIdentityPublic, 0)
	if err != nil {
		return nil, err
	}
	remoteIdentityPublic, err := ecc.DecodePoint(structure.RemoteIdentityPublic, 0)
	if err != nil {
		return nil, err
	}
''')]),
dict(id="q05-has-errors",edits=[("util/errorhelper/error.go",'''	if len(m.errors) > 0 {
		return true
	}

	return false
''','''	return len(m.errors) != 0
''')]),
dict(id="q06-chain-structures",edits=[("state/record/state_session.go",'''	receiverChains := make([]*ChainStructure, len(s.receiverChains))
	for i := range s.receiverChains {
		receiverChains[i] = s.receiverChains[i].structure()
	}
''','''	receiverChains := make([]*ChainStructure, 0, len(s.receiverChains))
	for _, receiverChain := range s.receiverChains {
		receiverChains = append(receiverChains, receiverChain.structure())
	}
''')]),
dict(id="q07-copy-literal",edits=[("state/record/state_session.go",'''	state := *s
	state.senderChain = s.senderChain.copy()
	state.receiverChains = make([]*Chain, len(s.receiverChains))
	for i := range s.receiverChains {
		state.receiverChains[i] = s.receiverChains[i].copy()
	}
	return &state
''','''	receiverChains := make([]*Chain, 0, len(s.receiverChains)+1)
	for _, receiverChain := range s.receiverChains {
		receiverChains = append(receiverChains, receiverChain.copy())
	}
	state := new(State)
	*state = *s
	state.senderChain = s.senderChain.copy()
	state.receiverChains = receiverChains
	return state
''')]),
dict(id="q08-archive-inline",edits=[("state/record/session.go",'''	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
	r.sessionState = promotedState

	// Remove the last state if it has reached our maximum length
	if len(r.previousStates) > archivedStatesMaxLength {
		r.previousStates = r.removeLastState(r.previousStates)
	}
''','''	kept := r.previousStates
	if len(kept) >= archivedStatesMaxLength {
		kept = kept[:len(kept)-(len(kept)-archivedStatesMaxLength)-1]
	}
	states := make([]*State, 0, len(kept)+1)
	states = append(states, r.sessionState)
	states = append(states, kept...)
	r.previousStates = states
	r.sessionState = promotedState
''')],note="differs for more than 40 archived states"),
dict(id="q09-provision-helper",edits=[("provision/cipher.go",'''	sharedSecret := kdf.CalculateSharedSecret(masterEphemeral, bytehelper.SliceToArray(ourPrivateKey))
	derivedSecretBytes, err := kdf.DeriveSecrets(sharedSecret[:], nil, []byte("Mixin Provisioning Message"), root.DerivedSecretsSize)
	if err != nil {
		return "", err
	}
	aesKey := derivedSecretBytes[:32]
	macKey := derivedSecretBytes[32:]

	if !verifyMAC(macKey, ivAndCiphertext, mac) {
		return "", fmt.Errorf("Verify Mac failed")
	}
''','''	aesKey, macKey, err := provisionKeys(masterEphemeral, ourPrivateKey)
	if err != nil {
		return "", err
	}

	if ok := verifyMAC(macKey, ivAndCiphertext, mac); !ok {
		return "", fmt.Errorf("Verify Mac failed")
	}
'''),("provision/cipher.go",'''func verifyMAC(''','''func provisionKeys(theirs [32]byte, ours []byte) (aesKey, macKey []byte, err error) {
	sharedSecret := kdf.CalculateSharedSecret(theirs, bytehelper.SliceToArray(ours))
	secrets, err := kdf.DeriveSecrets(sharedSecret[:], nil, []byte("Mixin Provisioning Message"), root.DerivedSecretsSize)
	if err != nil {
		return nil, nil, err
	}
	return secrets[:32], secrets[32:], nil
}

func verifyMAC(''')]),
dict(id="q10-log-messages",edits=[("session/cipher.go",'''	logger.Debug("Got ciphertextBody: ", ciphertextBody)
''','''	logger.Debug(fmt.Sprintf("Encrypted %d bytes to %d", len(plaintext), len(ciphertextBody)))
'''),("session/cipher.go",'''	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
''','''	logger.Info("Trying a record with ", len(sessionRecord.PreviousSessionStates()), " archived states for ", d.remoteAddress.String())
'''),("session/cipher.go",'''import (
''','''import (
	"fmt"

''')]),
dict(id="q11-sentinel",edits=[("session/cipher.go",'''		return nil, nil, errors.New("No valid sessions.")
''','''		return nil, nil, errNoValidSessions
'''),("session/cipher.go",'''		return nil, errors.New("Too many messages into the future!")
''','''		return nil, errTooFar
'''),("session/cipher.go",'''// Encrypt will take the given message in bytes''','''var (
	errNoValidSessions = errors.New("No valid sessions.")
	errTooFar          = errors.New("Too many messages into the future!")
)

// Encrypt will take the given message in bytes''')]),
dict(id="q12-table",edits=[("session/cipher.go",'''	if ciphertextMessage.MessageVersion() != sessionState.Version() {
		err :=''','''	if known := knownVersions[ciphertextMessage.MessageVersion()]; known == "" && logVersions {
		logger.Debug("A message of an unknown version")
	}
	if ciphertextMessage.MessageVersion() != sessionState.Version() {
		err :='''),("session/cipher.go",'''// Encrypt will take the given message in bytes''','''const logVersions = true

var knownVersions = map[int]string{2: "old", 3: "current"}

// Encrypt will take the given message in bytes''')]),
dict(id="q13-counted",edits=[("groups/ratchet/sender_chain_key.go",'''func (k *SenderChainKey) Next() *SenderChainKey {
''','''func (k *SenderChainKey) Next() *SenderChainKey {
	steps.Lock()
	steps.n++
	steps.Unlock()
'''),("groups/ratchet/sender_chain_key.go",'''import (
''','''import (
	"sync"

'''),("groups/ratchet/sender_chain_key.go",'''// NewSenderChainKey ''','''// steps counts how often a group chain has advanced.
var steps struct {
	sync.Mutex
	n uint64
}

// NewSenderChainKey ''')]),
dict(id="q14-atomic",edits=[("keys/chain/key.go",'''func (c *Key) NextKey() *Key {
''','''func (c *Key) NextKey() *Key {
	atomic.AddUint64(&steps, 1)
'''),("keys/chain/key.go",'''import (
''','''import (
	"sync/atomic"

'''),("keys/chain/key.go",'''// NextKey uses''','''var steps uint64

// NextKey uses''')]),
dict(id="q15-receiver-chain-direct",edits=[("state/record/state_session.go",'''		chainSenderRatchetKey, err := ecc.DecodePoint(receiverChain.senderRatchetKeyPair.PublicKey().Serialize(), 0)
		if err != nil {
			logger.Error("Error getting receiverchain: ", err)
		}

		// If the chainSenderRatchetKey equals our senderEphemeral key, return it.
		if chainSenderRatchetKey.PublicKey() == senderEphemeral.PublicKey() {
''','''		// If the chain's ratchet key equals our senderEphemeral key, return it.
		if receiverChain.senderRatchetKeyPair.PublicKey().PublicKey() == senderEphemeral.PublicKey() {
'''),("state/record/state_session.go",'''	"github.com/prospik/libsignal-protocol-go/logger"
''','')]),
dict(id="q16-find-key-index",edits=[("state/record/state_session.go",'''	var rmIndex int
	for i, messageKey := range messageKeyList {
		if messageKey.Index() == counter {
			rmIndex = i
			break
		}
	}

	// Retrive the message key
	messageKey := chainKey.messageKeys[rmIndex]
''','''	rmIndex := 0
	for rmIndex < len(messageKeyList) && messageKeyList[rmIndex].Index() != counter {
		rmIndex++
	}
	if rmIndex == len(messageKeyList) {
		rmIndex = 0
	}

	// Retrive the message key
	messageKey := chainKey.messageKeys[rmIndex]
''')]),
dict(id="q17-group-process-helper",edits=[("groups/session_builder.go",'''	senderKeyRecord := b.senderKeyStore.LoadSenderKey(senderKeyName)
	if senderKeyRecord == nil {
		senderKeyRecord = record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
	}
	senderKeyRecord.AddSenderKeyState(''','''	senderKeyRecord := b.recordOf(senderKeyName)
	senderKeyRecord.AddSenderKeyState('''),("groups/session_builder.go",'''// Process will process''','''func (b *SessionBuilder) recordOf(name *protocol.SenderKeyName) *record.SenderKey {
	if r := b.senderKeyStore.LoadSenderKey(name); r != nil {
		return r
	}
	return record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
}

// Process will process''')]),
dict(id="q18-proto-prekey",edits=[("serialize/proto.go",'''	preKeyMessage := &PreKeySignalMessage{
		RegistrationId: &signalMessage.RegistrationID,
		SignedPreKeyId: &signalMessage.SignedPreKeyID,
		BaseKey:        signalMessage.BaseKey,
		IdentityKey:    signalMessage.IdentityKey,
		Message:        signalMessage.Message,
	}

	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
	}
''','''	registration, signed := signalMessage.RegistrationID, signalMessage.SignedPreKeyID
	var one *uint32
	if id := signalMessage.PreKeyID; id != nil && !id.IsEmpty {
		v := id.Value
		one = &v
	}
	preKeyMessage := &PreKeySignalMessage{
		PreKeyId:       one,
		RegistrationId: &registration,
		SignedPreKeyId: &signed,
		BaseKey:        signalMessage.BaseKey,
		IdentityKey:    signalMessage.IdentityKey,
		Message:        signalMessage.Message,
	}
''')]),
dict(id="q19-chain-copy-append",edits=[("state/record/state_chain.go",'''	messageKeys := make([]*message.Keys, len(c.messageKeys))
	copy(messageKeys, c.messageKeys)
	return NewChain(c.senderRatchetKeyPair, c.chainKey, messageKeys)
''','''	keys := append([]*message.Keys(nil), c.messageKeys...)
	chain := *c
	chain.messageKeys = keys
	return &chain
''')]),
dict(id="q20-fmt-errors",edits=[("session/cipher.go",'''		index := strconv.FormatUint(uint64(chainKey.Index()), 10)
		count := strconv.FormatUint(uint64(counter), 10)
		return nil, errors.New(
			"Received message with old counter: " + index + " , " + count,
		)
''','''		return nil, fmt.Errorf("Received message with old counter: %d , %d", chainKey.Index(), counter)
'''),("session/cipher.go",'''	"strconv"
''','''	"fmt"
''')]),
dict(id="q21-create-group-helper",edits=[("groups/session_builder.go",'''		senderKeyRecord = record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
		signingKey, err := keyhelper.GenerateSenderSigningKey()
		if err != nil {
			return nil, err
		}
		senderKey := keyhelper.GenerateSenderKey()
		if senderKey == nil {
			return nil, errors.New("Unable to generate a sender key")
		}
		senderKeyRecord.SetSenderKeyState(
			keyhelper.GenerateSenderKeyID(), 0,
			senderKey,
			signingKey,
		)
		b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)
''','''		fresh, err := b.freshRecord()
		if err != nil {
			return nil, err
		}
		senderKeyRecord = fresh
		b.senderKeyStore.StoreSenderKey(senderKeyName, fresh)
'''),("groups/session_builder.go",'''// Process will process''','''// freshRecord makes a record with new keys.
func (b *SessionBuilder) freshRecord() (*record.SenderKey, error) {
	signingKey, err := keyhelper.GenerateSenderSigningKey()
	if err != nil {
		return nil, err
	}
	id, senderKey := keyhelper.GenerateSenderKeyID(), keyhelper.GenerateSenderKey()
	if senderKey == nil {
		return nil, errors.New("Unable to generate a sender key")
	}
	r := record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
	r.SetSenderKeyState(id, 0, senderKey, signingKey)
	return r, nil
}

// Process will process''')]),
dict(id="q22-address-string",edits=[("session/cipher.go",'''		return nil, errors.New("No session for: " + d.remoteAddress.String())
''','''		to := d.remoteAddress.String()
		logger.Warning("No session for: ", to)
		return nil, errors.New("No session for: " + to)
''')]),
dict(id="q23-mac-nil-check",edits=[("protocol/signal_message.go",'''	serialized := append(version, serializer.Serialize(structure)...)
''','''	body := serializer.Serialize(structure)
	serialized := make([]byte, 0, len(version)+len(body))
	serialized = append(append(serialized, version...), body...)
''')]),
dict(id="q24-decode-goto",edits=[("ecc/curve.go",'''	keyType := bytes[offset] & 0xFF

	switch keyType {
	case DjbType:
		keyBytes := [32]byte{}
		copy(keyBytes[:], bytes[offset+1:])
		return NewDjbECPublicKey(keyBytes), nil
	default:
		return nil, errors.New("Bad key type: " + string(keyType))
	}
''','''	encoded := bytes[offset : offset+KeySize]
	if encoded[0] != DjbType {
		return nil, badKeyType(encoded[0])
	}
	var keyBytes [32]byte
	for i := range keyBytes {
		keyBytes[i] = encoded[1+i]
	}
	return NewDjbECPublicKey(keyBytes), nil
'''),("ecc/curve.go",'''func CreateKeyPair(''','''func badKeyType(t byte) error {
	return errors.New("Bad key type: " + string(rune(t)))
}

func CreateKeyPair(''')]),
]
