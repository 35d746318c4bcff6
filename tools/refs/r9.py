# reordered statements, extracted and merged helpers, loops written in other ways
REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
src={}
def rd(f):
    if f not in src: src[f]=open("/repo/"+f).read()
    return src[f]
def fn(f,head):
    t=rd(f); i=t.index(head); j=t.index("\n}\n",i)+3
    return t[i:j]
def swap(f,head,new): return (f,fn(f,head),new.lstrip("\n"))
C="session/cipher.go"; S="session/session.go"; ST="state/record/state_session.go"; R="state/record/session.go"
GC="groups/cipher.go"; GS="groups/state/record/state_sender_key.go"; GR="groups/state/record/sender_key.go"
ref("x01-try-state",swap(C,"func (d *Cipher) DecryptWithRecord(",'''
func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)

	current, plaintext, keys, err := d.tryState(sessionRecord.SessionState(), ciphertext)
	if err == nil {
		sessionRecord.SetState(current)
		return plaintext, keys, nil
	}
	logger.Warning(err)

	for i, archived := range sessionRecord.PreviousSessionStates() {
		promoted, plaintext, keys, err := d.tryState(archived, ciphertext)
		if err == nil {
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(promoted)
			return plaintext, keys, nil
		}
	}
	return nil, nil, errors.New("No valid sessions.")
}

// tryState decrypts with a copy of the given state and returns that copy.
func (d *Cipher) tryState(state *record.State, ciphertext *protocol.SignalMessage) (*record.State, []byte, *message.Keys, error) {
	copied := state.Copy()
	plaintext, keys, err := d.DecryptWithState(copied, ciphertext)
	if err != nil {
		return nil, nil, nil, err
	}
	return copied, plaintext, keys, nil
}
'''))
ref("x02-one-loop",swap(C,"func (d *Cipher) DecryptWithRecord(",'''
func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
	candidates := append([]*record.State{sessionRecord.SessionState()}, sessionRecord.PreviousSessionStates()...)
	for i, candidate := range candidates {
		state := candidate.Copy()
		plaintext, messageKeys, err := d.DecryptWithState(state, ciphertext)
		if err != nil {
			if i == 0 {
				logger.Warning(err)
			}
			continue
		}
		if i == 0 {
			sessionRecord.SetState(state)
		} else {
			sessionRecord.RemovePreviousState(i - 1)
			sessionRecord.PromoteState(state)
		}
		return plaintext, messageKeys, nil
	}
	return nil, nil, errors.New("No valid sessions.")
}
'''))
ref("x03-skip-helper",swap(C,"func getOrCreateMessageKeys(",'''
func getOrCreateMessageKeys(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable,
	chainKey *chain.Key, counter uint32) (*message.Keys, error) {

	index := chainKey.Index()
	if counter < index {
		return takeSkippedKeys(sessionState, theirEphemeral, index, counter)
	}
	if counter-index > maxFutureMessages {
		return nil, errors.New("Too many messages into the future!")
	}
	current := skipTo(sessionState, theirEphemeral, chainKey, counter)
	sessionState.SetReceiverChainKey(theirEphemeral, current.NextKey())
	return current.MessageKeys(), nil
}

func takeSkippedKeys(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable, index, counter uint32) (*message.Keys, error) {
	if !sessionState.HasMessageKeys(theirEphemeral, counter) {
		return nil, errors.New("Received message with old counter: " +
			strconv.FormatUint(uint64(index), 10) + " , " + strconv.FormatUint(uint64(counter), 10))
	}
	return sessionState.RemoveMessageKeys(theirEphemeral, counter), nil
}

func skipTo(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable, key *chain.Key, counter uint32) *chain.Key {
	for i := key.Index(); i < counter; i++ {
		sessionState.SetMessageKeys(theirEphemeral, key.MessageKeys())
		key = key.NextKey()
	}
	return key
}
'''))
ref("x04-switch",swap(C,"func getOrCreateMessageKeys(",'''
func getOrCreateMessageKeys(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable,
	chainKey *chain.Key, counter uint32) (*message.Keys, error) {

	switch index := chainKey.Index(); {
	case index > counter && sessionState.HasMessageKeys(theirEphemeral, counter):
		return sessionState.RemoveMessageKeys(theirEphemeral, counter), nil
	case index > counter:
		return nil, fmt.Errorf("Received message with old counter: %d , %d", index, counter)
	case counter-index > maxFutureMessages:
		return nil, errors.New("Too many messages into the future!")
	}

	for steps := counter - chainKey.Index(); steps > 0; steps-- {
		sessionState.SetMessageKeys(theirEphemeral, chainKey.MessageKeys())
		chainKey = chainKey.NextKey()
	}

	messageKeys := chainKey.MessageKeys()
	sessionState.SetReceiverChainKey(theirEphemeral, chainKey.NextKey())
	return messageKeys, nil
}
'''),(C,'	"errors"\n','	"errors"\n	"fmt"\n'),(C,'	"strconv"\n',''))
ref("x05-step-ratchet",swap(C,"func getOrCreateChainKey(",'''
func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable) (*chain.Key, error) {
	if !sessionState.HasReceiverChain(theirEphemeral) {
		return stepRatchet(sessionState, theirEphemeral)
	}
	return sessionState.ReceiverChainKey(theirEphemeral), nil
}

func stepRatchet(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable) (*chain.Key, error) {
	receiving, err := sessionState.RootKey().CreateChain(theirEphemeral, sessionState.SenderRatchetKeyPair())
	if err != nil {
		return nil, err
	}
	ourEphemeral, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	sending, err := receiving.RootKey.CreateChain(theirEphemeral, ourEphemeral)
	if err != nil {
		return nil, err
	}

	var previousCounter uint32
	if index := sessionState.SenderChainKey().Index(); index > 0 {
		previousCounter = index - 1
	}
	sessionState.SetPreviousCounter(previousCounter)
	sessionState.SetSenderChain(ourEphemeral, sending.ChainKey)
	sessionState.AddReceiverChain(theirEphemeral, receiving.ChainKey)
	sessionState.SetRootKey(sending.RootKey)
	return receiving.ChainKey.(*chain.Key), nil
}
'''),(C,fn(C,"func max("),""),(C,"// Max is a uint32 implementation of math.Max\n",""))
ref("x06-trust-first",(C,'''	sessionState.SetSenderChainKey(chainKey.NextKey())
	if !d.identityKeyStore''','''	if !d.identityKeyStore'''),(C,'''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil''','''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())

	// Advance the chain, so that no message key is used twice.
	sessionState.SetSenderChainKey(chainKey.NextKey())
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil'''))
ref("x07-confirm-helper",(C,'''	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
		return nil, errors.New(untrustedIdentityError)
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil
''','''	if err := d.commit(sessionRecord); err != nil {
		return nil, err
	}
	return ciphertextMessage, nil
'''),(C,'''	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
		return nil, nil, errors.New(untrustedIdentityError)
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
}
''','''	if err := d.commit(sessionRecord); err != nil {
		return nil, nil, err
	}
	return plaintext, messageKeys, nil
}

// commit stores the record, provided that its remote identity is trusted.
func (d *Cipher) commit(sessionRecord *record.Session) error {
	remoteIdentity := sessionRecord.SessionState().RemoteIdentityKey()
	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, remoteIdentity) {
		return errors.New(untrustedIdentityError)
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, remoteIdentity)
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return nil
}
'''))
ref("x08-has-key-same-loop",swap(ST,"func (s *State) RemoveMessageKeys(",'''
func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) *message.Keys {
	receiverChain := s.receiverChain(senderEphemeral).ReceiverChain
	if receiverChain == nil {
		return nil
	}

	kept := receiverChain.messageKeys
	position := 0
	for position < len(kept) && kept[position].Index() != counter {
		position++
	}
	if position == len(kept) {
		position = 0
	}

	found := kept[position]
	receiverChain.messageKeys = append(kept[:position], kept[position+1:]...)
	return message.NewKeys(found.CipherKey(), found.MacKey(), found.Iv(), found.Index())
}
'''))
ref("x09-has-keys-flag",swap(ST,"func (s *State) HasMessageKeys(",'''
func (s *State) HasMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) bool {
	receiverChain := s.receiverChain(senderEphemeral).ReceiverChain
	if receiverChain == nil {
		return false
	}

	found := false
	keys := receiverChain.MessageKeys()
	for i := 0; i < len(keys) && !found; i++ {
		found = keys[i].Index() == counter
	}
	return found
}
'''))
ref("x10-receiver-chains-window",(ST,fn(ST,"func (s *State) AddReceiverChain("),'''func (s *State) AddReceiverChain(senderRatchetKey ecc.ECPublicKeyable, chainKey session.ChainKeyable) {
	chains := append(s.receiverChains, NewChain(
		ecc.NewECKeyPair(senderRatchetKey, nil),
		chainKey.(*chain.Key),
		[]*message.Keys{},
	))
	if excess := len(chains) - maxReceiverChains; excess > 0 {
		chains = chains[1:]
	}
	s.receiverChains = chains
}
'''))
ref("x11-promote-copy",swap(R,"func (r *Session) PromoteState(",'''
func (r *Session) PromoteState(promotedState *State) {
	archived := make([]*State, 0, len(r.previousStates)+1)
	archived = append(archived, r.sessionState)
	archived = append(archived, r.previousStates...)
	if len(archived) > archivedStatesMaxLength {
		archived = archived[:len(archived)-1]
	}

	r.previousStates = archived
	r.sessionState = promotedState
}
'''),(R,fn(R,"func (r *Session) prependStates("),""),(R,fn(R,"func (r *Session) removeLastState("),""))
ref("x12-matches",swap(R,"func (r *Session) HasSessionState(",'''
func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
	matches := func(state *State) bool {
		return state.Version() == version && bytes.Equal(state.SenderBaseKey(), senderBaseKey)
	}
	found := matches(r.sessionState)
	for i := 0; !found && i < len(r.previousStates); i++ {
		found = matches(r.previousStates[i])
	}
	return found
}
'''))
ref("x13-group-flow",swap(GC,"func (c *GroupCipher) getSenderKey(",'''
func (c *GroupCipher) getSenderKey(senderKeyState *record.SenderKeyState, iteration uint32) (*ratchet.SenderMessageKey, error) {
	chainKey := senderKeyState.SenderChainKey()
	current := chainKey.Iteration()
	if iteration < current {
		if !senderKeyState.HasSenderMessageKey(iteration) {
			return nil, errors.New("Received message with old counter: " +
				strconv.Itoa(int(current)) + ", " + strconv.Itoa(int(iteration)))
		}
		return senderKeyState.RemoveSenderMessageKey(iteration), nil
	}
	if iteration-current > 2000 {
		return nil, errors.New("Over 2000 messages into the future!")
	}

	for ; current < iteration; current++ {
		skipped, err := chainKey.SenderMessageKey()
		if err != nil {
			return nil, err
		}
		senderKeyState.AddSenderMessageKey(skipped)
		chainKey = chainKey.Next()
	}

	senderKey, err := chainKey.SenderMessageKey()
	if err != nil {
		return nil, err
	}
	senderKeyState.SetSenderChainKey(chainKey.Next())
	return senderKey, nil
}
'''))
ref("x14-group-load",(GC,'''	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)

	if keyRecord == nil || keyRecord.IsEmpty() {
		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
	}
''','''	keyRecord, err := c.receivingRecord()
	if err != nil {
		return nil, err
	}
'''),(GC,'''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if !verified {
''','''	if !c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage) {
'''),(GC,fn(GC,"func (c *GroupCipher) verifySignature("),fn(GC,"func (c *GroupCipher) verifySignature(")+'''
// receivingRecord returns the record that messages are decrypted with.
func (c *GroupCipher) receivingRecord() (*record.SenderKey, error) {
	if keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID); keyRecord != nil && !keyRecord.IsEmpty() {
		return keyRecord, nil
	}
	return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
}
'''))
ref("x15-process-split",(S,'''	preKeyID := message.PreKeyID()
	if preKeyID != nil && !preKeyID.IsEmpty {
		// Load our one time key from our prekey store.
''','''	preKeyID := message.PreKeyID()
	usesPreKey := preKeyID != nil && !preKeyID.IsEmpty
	if usesPreKey {
		// Load our one time key from our prekey store.
''') if "		// Load our one time key from our prekey store.\n" in rd(S) else (S,'''	preKeyID := message.PreKeyID()
	if preKeyID != nil && !preKeyID.IsEmpty {
''','''	preKeyID := message.PreKeyID()
	usesPreKey := preKeyID != nil && !preKeyID.IsEmpty
	if usesPreKey {
'''),(S,'''	if preKeyID != nil && !preKeyID.IsEmpty && preKeyID.Value != medium.MaxValue {
		return preKeyID, nil
	}
	return optional.NewEmptyUint32(), nil''','''	if !usesPreKey || preKeyID.Value == medium.MaxValue {
		return optional.NewEmptyUint32(), nil
	}
	return preKeyID, nil'''))
ref("x16-session-append",swap(R,"func (r *Session) structure(",'''
func (r *Session) structure() *SessionStructure {
	structure := &SessionStructure{SessionState: r.sessionState.structure()}
	structure.PreviousStates = make([]*StateStructure, 0, len(r.previousStates))
	for _, state := range r.previousStates {
		structure.PreviousStates = append(structure.PreviousStates, state.structure())
	}
	return structure
}
'''))
ref("x17-set-keys-pop-first",swap(ST,"func (s *State) SetMessageKeys(",'''
func (s *State) SetMessageKeys(senderEphemeral ecc.ECPublicKeyable, messageKeys *message.Keys) {
	chainState := s.receiverChain(senderEphemeral).ReceiverChain
	kept := message.NewKeys(messageKeys.CipherKey(), messageKeys.MacKey(), messageKeys.Iv(), messageKeys.Index())
	chainState.AddMessageKeys(kept)
	for len(chainState.MessageKeys()) > maxMessageKeys {
		chainState.PopFirstMessageKeys()
	}
}
'''))
ref("x18-store-then-save",(C,'''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
''','''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
'''))
ref("x19-receiver-chain-method",swap(ST,"func (s *State) receiverChain(",'''
func (s *State) receiverChain(senderEphemeral ecc.ECPublicKeyable) *ReceiverChainPair {
	wanted := senderEphemeral.PublicKey()
	for i := 0; i < len(s.receiverChains); i++ {
		receiverChain := s.receiverChains[i]
		if ratchetKeyOf(receiverChain) == wanted {
			return NewReceiverChainPair(receiverChain, i)
		}
	}
	return nil
}

func ratchetKeyOf(receiverChain *Chain) [32]byte {
	key, err := ecc.DecodePoint(receiverChain.senderRatchetKeyPair.PublicKey().Serialize(), 0)
	if err != nil {
		logger.Error("Error getting receiverchain: ", err)
	}
	return key.PublicKey()
}
'''))
ref("x20-init-state",(S,'''	sessionState.SetVersion(protocol.CurrentVersion)
	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
	sessionState.SetLocalIdentityKey(parameters.OurIdentityKeyPair().PublicKey())
''','''	b.initState(sessionState, parameters.TheirIdentityKey(), parameters.OurIdentityKeyPair())
'''),(S,'''	sessionState.SetVersion(protocol.CurrentVersion)
	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
	sessionState.SetLocalIdentityKey(parameters.OurIdentityKey().PublicKey())
''','''	b.initState(sessionState, parameters.TheirIdentityKey(), parameters.OurIdentityKey())
'''),(S,"// ProcessBundle ",'''// initState sets what every new session state has.
func (b *Builder) initState(sessionState *record.State, theirs *identity.Key, ours *identity.KeyPair) {
	sessionState.SetVersion(protocol.CurrentVersion)
	sessionState.SetLocalIdentityKey(ours.PublicKey())
	sessionState.SetRemoteIdentityKey(theirs)
	sessionState.SetLocalRegistrationID(b.identityKeyStore.GetLocalRegistrationId())
}

// ProcessBundle '''),(S,'	"github.com/prospik/libsignal-protocol-go/keys/prekey"\n','	"github.com/prospik/libsignal-protocol-go/keys/identity"\n	"github.com/prospik/libsignal-protocol-go/keys/prekey"\n'))
