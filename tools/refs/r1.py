REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
S="state/record/state_session.go"
ref("r01-chain-loop",(S,"	receiverChains := s.receiverChains\n\n	for i, receiverChain := range receiverChains {\n","	for i := 0; i < len(s.receiverChains); i++ {\n		receiverChain := s.receiverChains[i]\n"))
ref("r02-index-helper",(S,"	for _, messageKey := range messageKeyList {\n		if messageKey.Index() == counter {\n			return true\n		}\n	}\n\n	return false\n}\n","	return indexOfKeys(messageKeyList, counter) >= 0\n}\n\nfunc indexOfKeys(list []*message.Keys, counter uint32) int {\n	for i, k := range list {\n		if k.Index() == counter {\n			return i\n		}\n	}\n	return -1\n}\n"))
ref("r02b-index-helper-both",(S,"	for _, messageKey := range messageKeyList {\n		if messageKey.Index() == counter {\n			return true\n		}\n	}\n\n	return false\n}\n","	return indexOfKeys(messageKeyList, counter) >= 0\n}\n\nfunc indexOfKeys(list []*message.Keys, counter uint32) int {\n	for i, k := range list {\n		if k.Index() == counter {\n			return i\n		}\n	}\n	return -1\n}\n"),
 (S,"	var rmIndex int\n	for i, messageKey := range messageKeyList {\n		if messageKey.Index() == counter {\n			rmIndex = i\n			break\n		}\n	}\n","	rmIndex := indexOfKeys(messageKeyList, counter)\n	if rmIndex < 0 {\n		return nil\n	}\n"))
ref("r03-remove-copy",(S,"	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)\n","	rest := make([]*message.Keys, 0, len(chainKey.messageKeys))\n	for i, k := range chainKey.messageKeys {\n		if i != rmIndex {\n			rest = append(rest, k)\n		}\n	}\n	chainKey.messageKeys = rest\n"))
ref("r03b-remove-copy2",(S,"	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)\n","	last := len(chainKey.messageKeys) - 1\n	copy(chainKey.messageKeys[rmIndex:], chainKey.messageKeys[rmIndex+1:])\n	chainKey.messageKeys[last] = nil\n	chainKey.messageKeys = chainKey.messageKeys[:last]\n"))
ref("r04-chain-trim",(S,"		i := 0\n		s.receiverChains = append(s.receiverChains[:i], s.receiverChains[i+1:]...)\n","		s.receiverChains = s.receiverChains[1:]\n"))
ref("r04b-chain-trim-loop",(S,"	if len(s.receiverChains) > maxReceiverChains {\n		i := 0\n		s.receiverChains = append(s.receiverChains[:i], s.receiverChains[i+1:]...)\n	}","	for len(s.receiverChains) > maxReceiverChains {\n		s.receiverChains = s.receiverChains[1:]\n	}"))
ref("r05-pop-loop",(S,"	if len(chainState.MessageKeys()) > maxMessageKeys {","	for len(chainState.MessageKeys()) > maxMessageKeys {"))
C="session/cipher.go"
ref("r06-skip-helper",(C,"	for chainKey.Index() < counter {\n		messageKeys := chainKey.MessageKeys()\n		sessionState.SetMessageKeys(theirEphemeral, messageKeys)\n		chainKey = chainKey.NextKey()\n	}\n\n	sessionState","	chainKey = keepSkipped(sessionState, theirEphemeral, chainKey, counter)\n\n	sessionState"),
 (C,"// getOrCreateChainKey will either","// keepSkipped keeps the keys up to a counter.\nfunc keepSkipped(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable, chainKey *chain.Key, counter uint32) *chain.Key {\n	for chainKey.Index() < counter {\n		sessionState.SetMessageKeys(theirEphemeral, chainKey.MessageKeys())\n		chainKey = chainKey.NextKey()\n	}\n	return chainKey\n}\n\n// getOrCreateChainKey will either"))
ref("r06b-skip-for",(C,"	for chainKey.Index() < counter {\n		messageKeys := chainKey.MessageKeys()\n		sessionState.SetMessageKeys(theirEphemeral, messageKeys)\n		chainKey = chainKey.NextKey()\n	}\n","	for i := chainKey.Index(); i < counter; i++ {\n		sessionState.SetMessageKeys(theirEphemeral, chainKey.MessageKeys())\n		chainKey = chainKey.NextKey()\n	}\n"))
ref("r06c-skip-n",(C,"	for chainKey.Index() < counter {\n		messageKeys := chainKey.MessageKeys()\n		sessionState.SetMessageKeys(theirEphemeral, messageKeys)\n		chainKey = chainKey.NextKey()\n	}\n","	skipped := counter - chainKey.Index()\n	for ; skipped > 0; skipped-- {\n		sessionState.SetMessageKeys(theirEphemeral, chainKey.MessageKeys())\n		chainKey = chainKey.NextKey()\n	}\n"))
ref("r06d-else",(C,"		index := strconv.FormatUint(uint64(chainKey.Index()), 10)\n		count := strconv.FormatUint(uint64(counter), 10)\n		return nil, errors.New(\n			\"Received message with old counter: \" + index + \" , \" + count,\n		)\n	}\n\n	if counter-chainKey.Index() > maxFutureMessages {","		return nil, fmt.Errorf(\"Received message with old counter: %d , %d\", chainKey.Index(), counter)\n	} else if counter-chainKey.Index() > maxFutureMessages {"),(C,'	"strconv"\n','	"fmt"\n'))
ref("r07-ratchet-helper",(C,"	// If we don't have a chain key, create one with ephemeral keys.\n	rootKey","	return ratchetStep(sessionState, theirEphemeral)\n}\n\n// ratchetStep makes a chain with ephemeral keys.\nfunc ratchetStep(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable) (*chain.Key, error) {\n	rootKey"))
ref("r07b-ratchet-order",(C,"	sessionState.SetRootKey(senderChain.RootKey)\n	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)\n	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1\n	sessionState.SetPreviousCounter(previousCounter)\n	sessionState.SetSenderChain(","	var previousCounter uint32\n	if n := sessionState.SenderChainKey().Index(); n > 0 {\n		previousCounter = n - 1\n	}\n	sessionState.SetPreviousCounter(previousCounter)\n	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)\n	sessionState.SetRootKey(senderChain.RootKey)\n	sessionState.SetSenderChain("),
 (C,"// Max is a uint32 implementation of math.Max\nfunc max(x, y uint32) uint32 {\n	if x > y {\n		return x\n	}\n	return y\n}",""))
ref("r08-previous-helper",(C,"		for i, state := range previousStates {\n			// Try decrypting the message with a copy of the previous state\n			state = state.Copy()\n			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)\n			if err != nil {\n				continue\n			}\n\n			// If successful, remove and promote the state.\n			sessionRecord.RemovePreviousState(i)\n			sessionRecord.PromoteState(state)\n\n			return plaintext, messageKeys, nil\n		}\n\n		return nil, nil, errors.New(\"No valid sessions.\")\n	}\n","		return d.decryptWithPrevious(sessionRecord, previousStates, ciphertext)\n	}\n"),
 (C,"// DecryptWithState decrypts","func (d *Cipher) decryptWithPrevious(sessionRecord *record.Session, states []*record.State, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {\n	for i := range states {\n		state := states[i].Copy()\n		if plaintext, messageKeys, err := d.DecryptWithState(state, ciphertext); err == nil {\n			sessionRecord.RemovePreviousState(i)\n			sessionRecord.PromoteState(state)\n			return plaintext, messageKeys, nil\n		}\n	}\n	return nil, nil, errors.New(\"No valid sessions.\")\n}\n\n// DecryptWithState decrypts"))
ref("r08b-invert",(C,"	if err != nil {\n		logger.Warning(err)\n		for i, state","	if err == nil {\n		sessionRecord.SetState(sessionState)\n		return plaintext, messageKeys, nil\n	}\n	{\n		logger.Warning(err)\n		for i, state"),(C,"		return nil, nil, errors.New(\"No valid sessions.\")\n	}\n\n	// If decryption was successful, set the session state and return the plain text.\n	sessionRecord.SetState(sessionState)\n\n	return plaintext, messageKeys, nil\n","		return nil, nil, errors.New(\"No valid sessions.\")\n	}\n"))
ref("r08c-rename-state",(C,"	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)\n","	plaintext, messageKeys, err := d.decryptWithState(sessionState, ciphertext)\n"),(C,"			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)\n","			plaintext, messageKeys, err = d.decryptWithState(state, ciphertext)\n"),
 (C,"func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage *protocol.SignalMessage) ([]byte, *message.Keys, error) {\n","func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage *protocol.SignalMessage) ([]byte, *message.Keys, error) {\n	return d.decryptWithState(sessionState, ciphertextMessage)\n}\n\nfunc (d *Cipher) decryptWithState(sessionState *record.State, ciphertextMessage *protocol.SignalMessage) ([]byte, *message.Keys, error) {\n"))
ref("r08d-closure",(C,"	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)\n","	try := func(state *record.State) ([]byte, *message.Keys, error) {\n		return d.DecryptWithState(state, ciphertext)\n	}\n	plaintext, messageKeys, err := try(sessionState)\n"),(C,"			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)\n","			plaintext, messageKeys, err = try(state)\n"))
P="protocol/signal_message.go"
ref("r09-verify",(P,"	structure := s.structure\n	signalMessage, err := NewSignalMessageFromStruct(&structure, s.serializer)\n	if err != nil {\n		return err\n	}\n	signalMessage.structure.Mac = nil\n	signalMessage.structure.Version = 0\n	version := []byte(strconv.Itoa(s.MessageVersion()))\n	serialized := append(version, signalMessage.Serialize()...)\n","	unsigned := s.structure\n	unsigned.Mac = nil\n	unsigned.Version = 0\n	serialized := append([]byte(strconv.Itoa(s.structure.Version)), s.serializer.Serialize(&unsigned)...)\n"))
ref("r09b-mac-buf",(P,"	mac := hmac.New(sha256.New, macKey[:])\n\n	if messageVersion >= 3 {\n		mac.Write(senderIdentityKey.PublicKey().Serialize())\n		mac.Write(receiverIdentityKey.PublicKey().Serialize())\n	}\n\n	mac.Write(serialized)\n\n	fullMac := mac.Sum(nil)\n\n	return bytehelper.Trim(fullMac, MacLength), nil\n","	var input []byte\n	if messageVersion >= 3 {\n		input = append(input, senderIdentityKey.PublicKey().Serialize()...)\n		input = append(input, receiverIdentityKey.PublicKey().Serialize()...)\n	}\n	input = append(input, serialized...)\n	mac := hmac.New(sha256.New, macKey)\n	mac.Write(input)\n\n	return mac.Sum(nil)[:MacLength], nil\n"),(P,'	"github.com/prospik/libsignal-protocol-go/util/bytehelper"\n',''))
ref("r09c-subtle",(P,"	if !hmac.Equal(ourMac, theirMac) {","	if subtle.ConstantTimeCompare(ourMac, theirMac) != 1 {"),(P,'	"crypto/sha256"\n','	"crypto/sha256"\n	"crypto/subtle"\n'))
ref("r10-trust-first",(C,"	chainKey := sessionState.SenderChainKey()\n	messageKeys := chainKey.MessageKeys()\n","	theirIdentity := sessionState.RemoteIdentityKey()\n	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, theirIdentity) {\n		return nil, errors.New(untrustedIdentityError)\n	}\n	chainKey := sessionState.SenderChainKey()\n	messageKeys := chainKey.MessageKeys()\n"),
 (C,"	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {\n		return nil, errors.New(untrustedIdentityError)\n	}\n	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())\n","	d.identityKeyStore.SaveIdentity(d.remoteAddress, theirIdentity)\n"))
ref("r10b-encrypt-helper",(C,"	if sessionState.HasUnacknowledgedPreKeyMessage() {\n		items, err := sessionState.UnackPreKeyMessageItems()\n		if err != nil {\n			return nil, err\n		}\n		localRegistrationID := sessionState.LocalRegistrationID()\n\n		ciphertextMessage, err = protocol.NewPreKeySignalMessage(\n			sessionVersion,\n			localRegistrationID,\n			items.PreKeyID(),\n			items.SignedPreKeyID(),\n			items.BaseKey(),\n			sessionState.LocalIdentityKey(),\n			ciphertextMessage.(*protocol.SignalMessage),\n			d.preKeyMessageSerializer,\n			d.signalMessageSerializer,\n		)\n		if err != nil {\n			return nil, err\n		}\n	}\n","	if sessionState.HasUnacknowledgedPreKeyMessage() {\n		ciphertextMessage, err = d.wrap(sessionState, ciphertextMessage.(*protocol.SignalMessage))\n		if err != nil {\n			return nil, err\n		}\n	}\n"),
 (C,"// Decrypt decrypts the given message using an existing","func (d *Cipher) wrap(state *record.State, m *protocol.SignalMessage) (protocol.CiphertextMessage, error) {\n	items, err := state.UnackPreKeyMessageItems()\n	if err != nil {\n		return nil, err\n	}\n	wrapped, err := protocol.NewPreKeySignalMessage(\n		state.Version(), state.LocalRegistrationID(), items.PreKeyID(), items.SignedPreKeyID(), items.BaseKey(),\n		state.LocalIdentityKey(), m, d.preKeyMessageSerializer, d.signalMessageSerializer,\n	)\n	if err != nil {\n		return nil, err\n	}\n	return wrapped, nil\n}\n\n// Decrypt decrypts the given message using an existing"))
ref("r10c-trust-helper",(C,"	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {\n		return nil, errors.New(untrustedIdentityError)\n	}\n	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())\n	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)\n	return ciphertextMessage, nil","	if err := d.commit(sessionRecord); err != nil {\n		return nil, err\n	}\n	return ciphertextMessage, nil"),
 (C,"	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {\n		return nil, nil, errors.New(untrustedIdentityError)\n	}\n	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())\n\n	// Store the session record in our session store.\n	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)\n	return plaintext, messageKeys, nil","	if err := d.commit(sessionRecord); err != nil {\n		return nil, nil, err\n	}\n	return plaintext, messageKeys, nil"),
 (C,"// Decrypt decrypts the given message using an existing","func (d *Cipher) commit(r *record.Session) error {\n	their := r.SessionState().RemoteIdentityKey()\n	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, their) {\n		return errors.New(untrustedIdentityError)\n	}\n	d.identityKeyStore.SaveIdentity(d.remoteAddress, their)\n	d.sessionStore.StoreSession(d.remoteAddress, r)\n	return nil\n}\n\n// Decrypt decrypts the given message using an existing"))
R="state/record/session.go"
ref("r11-promote",(R,"	r.previousStates = r.prependStates(r.previousStates, r.sessionState)\n	r.sessionState = promotedState\n\n	// Remove the last state if it has reached our maximum length\n	if len(r.previousStates) > archivedStatesMaxLength {\n		r.previousStates = r.removeLastState(r.previousStates)\n	}\n","	states := make([]*State, 0, len(r.previousStates)+1)\n	states = append(states, r.sessionState)\n	states = append(states, r.previousStates...)\n	if len(states) > archivedStatesMaxLength {\n		states = states[:archivedStatesMaxLength]\n	}\n	r.sessionState, r.previousStates = promotedState, states\n"))
ref("r11b-promote-copy",(R,"	return append([]*State{sessionState}, states...)\n","	out := make([]*State, len(states)+1)\n	out[0] = sessionState\n	copy(out[1:], states)\n	return out\n"))
ref("r11c-promote-cap",(R,"	r.previousStates = r.prependStates(r.previousStates, r.sessionState)\n	r.sessionState = promotedState\n\n	// Remove the last state if it has reached our maximum length\n	if len(r.previousStates) > archivedStatesMaxLength {\n		r.previousStates = r.removeLastState(r.previousStates)\n	}\n","	previous := r.previousStates\n	if len(previous) >= archivedStatesMaxLength {\n		previous = previous[:archivedStatesMaxLength-1]\n	}\n	r.previousStates = r.prependStates(previous, r.sessionState)\n	r.sessionState = promotedState\n"))
ref("r12-has-state",(R,"	if r.sessionState.Version() == version && (bytes.Compare(senderBaseKey, r.sessionState.SenderBaseKey()) == 0) {\n		return true\n	}\n\n	// Loop through all of our previous states and see if this\n	// exists in our state.\n	for i := range r.previousStates {\n		if r.previousStates[i].Version() == version && bytes.Compare(senderBaseKey, r.previousStates[i].SenderBaseKey()) == 0 {\n			return true\n		}\n	}\n\n	return false\n}\n","	if matches(r.sessionState, version, senderBaseKey) {\n		return true\n	}\n	for _, state := range r.previousStates {\n		if matches(state, version, senderBaseKey) {\n			return true\n		}\n	}\n	return false\n}\n\nfunc matches(s *State, version int, baseKey []byte) bool {\n	return s.Version() == version && bytes.Equal(s.SenderBaseKey(), baseKey)\n}\n"))
ref("r12b-has-state-all",(R,"	if r.sessionState.Version() == version && (bytes.Compare(senderBaseKey, r.sessionState.SenderBaseKey()) == 0) {\n		return true\n	}\n\n	// Loop through all of our previous states and see if this\n	// exists in our state.\n	for i := range r.previousStates {\n		if r.previousStates[i].Version() == version && bytes.Compare(senderBaseKey, r.previousStates[i].SenderBaseKey()) == 0 {\n			return true\n		}\n	}\n\n	return false\n","	for _, state := range append([]*State{r.sessionState}, r.previousStates...) {\n		if state.Version() == version && bytes.Equal(senderBaseKey, state.SenderBaseKey()) {\n			return true\n		}\n	}\n\n	return false\n"))
ref("r12c-remove-state",(R,"	previousStates := make([]*State, 0, len(r.previousStates))\n	previousStates = append(previousStates, r.previousStates[:index]...)\n	r.previousStates = append(previousStates, r.previousStates[index+1:]...)\n","	var kept []*State\n	for i, state := range r.previousStates {\n		if i == index {\n			continue\n		}\n		kept = append(kept, state)\n	}\n	r.previousStates = kept\n"))
