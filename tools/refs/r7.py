# searching loops in other shapes
REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
src={}
def rd(f):
    if f not in src: src[f]=open("/repo/"+f).read()
    return src[f]
def fn(f,head):
    t=rd(f); i=t.index(head); j=t.index("\n}\n",i)+3
    return t[i:j]
S="state/record/session.go"; T="state/record/state_session.go"; K="groups/state/record/sender_key.go"
L="groups/state/record/state_sender_key.go"; C="session/cipher.go"
def swap(f,head,new): return (f,fn(f,head),new.lstrip("\n"))
ref("v01-index-minus-one",swap(S,"func (r *Session) HasSessionState",'''
func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
	if r.sessionState.Version() == version && bytes.Equal(senderBaseKey, r.sessionState.SenderBaseKey()) {
		return true
	}
	at := -1
	for i := 0; at < 0 && i < len(r.previousStates); i++ {
		if p := r.previousStates[i]; p.Version() == version && bytes.Equal(senderBaseKey, p.SenderBaseKey()) {
			at = i
		}
	}
	return at >= 0
}
'''))
ref("v02-found-break",swap(S,"func (r *Session) HasSessionState",'''
func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
	found := r.sessionState.Version() == version && bytes.Equal(senderBaseKey, r.sessionState.SenderBaseKey())
	if !found {
		for _, p := range r.previousStates {
			if p.Version() != version {
				continue
			}
			if bytes.Equal(senderBaseKey, p.SenderBaseKey()) {
				found = true
				break
			}
		}
	}
	return found
}
'''))
ref("v03-state-nil-flag",swap(K,"func (k *SenderKey) GetSenderKeyStateByID",'''
func (k *SenderKey) GetSenderKeyStateByID(keyID uint32) (*SenderKeyState, error) {
	var found *SenderKeyState
	for i := 0; i < len(k.senderKeyStates) && found == nil; i++ {
		if s := k.senderKeyStates[i]; s.KeyID() == keyID {
			found = s
		}
	}
	if found == nil {
		return nil, errors.New("No sender key for for ID")
	}
	return found, nil
}
'''))
ref("v04-index-of",swap(L,"func (k *SenderKeyState) HasSenderMessageKey",'''
func (k *SenderKeyState) HasSenderMessageKey(iteration uint32) bool {
	return k.indexOf(iteration) < len(k.keys)
}

func (k *SenderKeyState) indexOf(iteration uint32) int {
	i := 0
	for i < len(k.keys) && k.keys[i].Iteration() != iteration {
		i++
	}
	return i
}
'''),swap(L,"func (k *SenderKeyState) RemoveSenderMessageKey",'''
func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.SenderMessageKey {
	i := k.indexOf(iteration)
	if i == len(k.keys) {
		return nil
	}
	removed := k.keys[i]
	k.keys = append(k.keys[:i], k.keys[i+1:]...)
	return removed
}
'''))
ref("v05-index-of-minus",swap(L,"func (k *SenderKeyState) HasSenderMessageKey",'''
func (k *SenderKeyState) HasSenderMessageKey(iteration uint32) bool {
	return k.indexOf(iteration) != -1
}

func (k *SenderKeyState) indexOf(iteration uint32) int {
	for i, key := range k.keys {
		if key.Iteration() == iteration {
			return i
		}
	}
	return -1
}
'''),swap(L,"func (k *SenderKeyState) RemoveSenderMessageKey",'''
func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.SenderMessageKey {
	i := k.indexOf(iteration)
	if i < 0 {
		return nil
	}
	removed := k.keys[i]
	k.keys = append(k.keys[:i], k.keys[i+1:]...)
	return removed
}
'''))
ref("v06-remove-flag",swap(L,"func (k *SenderKeyState) RemoveSenderMessageKey",'''
func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.SenderMessageKey {
	var removed *ratchet.SenderMessageKey
	for i := 0; removed == nil && i < len(k.keys); i++ {
		if k.keys[i].Iteration() == iteration {
			removed = k.keys[i]
			k.keys = append(k.keys[0:i], k.keys[i+1:]...)
		}
	}
	return removed
}
'''))
ref("v07-has-helper",swap(T,"func (s *State) HasMessageKeys",'''
func (s *State) HasMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) bool {
	pair := s.receiverChain(senderEphemeral)
	if pair.ReceiverChain == nil {
		return false
	}
	keys := pair.ReceiverChain.MessageKeys()
	has := false
	for i := 0; i < len(keys) && !has; i++ {
		has = keys[i].Index() == counter
	}
	return has
}
'''))
ref("v08-try-helper",swap(C,"func (d *Cipher) DecryptWithRecord",'''
func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
	current := sessionRecord.SessionState().Copy()
	previous := sessionRecord.PreviousSessionStates()
	plaintext, keys, err := d.DecryptWithState(current, ciphertext)
	if err == nil {
		sessionRecord.SetState(current)
		return plaintext, keys, nil
	}
	logger.Warning(err)
	for i := 0; i < len(previous); i++ {
		candidate := previous[i].Copy()
		if plaintext, keys, err := d.DecryptWithState(candidate, ciphertext); err == nil {
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(candidate)
			return plaintext, keys, nil
		}
	}
	return nil, nil, errors.New("No valid sessions.")
}
'''))
ref("v09-break-after",swap(C,"func (d *Cipher) DecryptWithRecord",'''
func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
	previousStates := sessionRecord.PreviousSessionStates()
	sessionState := sessionRecord.SessionState().Copy()
	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)
	if err == nil {
		sessionRecord.SetState(sessionState)
		return plaintext, messageKeys, nil
	}
	logger.Warning(err)
	for i := 0; err != nil && i < len(previousStates); i++ {
		state := previousStates[i].Copy()
		plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
		if err == nil {
			sessionRecord.RemovePreviousState(i)
			sessionRecord.PromoteState(state)
		}
	}
	if err != nil {
		return nil, nil, errors.New("No valid sessions.")
	}
	return plaintext, messageKeys, nil
}
'''))
ref("v10-jump-for",(C,fn(C,"	for chainKey.Index() < counter {")[:fn(C,"	for chainKey.Index() < counter {").index("\n	}\n")+4],'''	for i := chainKey.Index(); i < counter; i++ {
		sessionState.SetMessageKeys(theirEphemeral, chainKey.MessageKeys())
		chainKey = chainKey.NextKey()
	}
'''))
