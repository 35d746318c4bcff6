From 94eaba744673e55e586caa1205628786d6965fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 01/23] fix: reject empty and truncated public keys in
 DecodePoint

---
 ecc/curve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..6fbbe3e 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -18,6 +18,9 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if offset < 0 || len(bytes)-offset < KeySize {
+		return nil, errors.New("Bad key length")
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
-- 
2.43.0


From 47b6c585b7016c2119f103c35001eb6fa94123f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 02/23] fix: support sessions without a one-time prekey

---
 serialize/proto.go | 5 ++++-
 session/session.go | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..49cc8e6 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -113,7 +113,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -147,6 +147,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		Message:        sm.GetMessage(),
 		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
 	}
+	if sm.PreKeyId == nil {
+		preKeySignalMessage.PreKeyID = optional.NewEmptyUint32()
+	}
 
 	return &preKeySignalMessage, nil
 }
diff --git a/session/session.go b/session/session.go
index 418b8a9..217d030 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,8 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	preKeyID := message.PreKeyID()
+	if preKeyID != nil && !preKeyID.IsEmpty {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -166,10 +167,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
-		return message.PreKeyID(), nil
+	if preKeyID != nil && !preKeyID.IsEmpty && preKeyID.Value != medium.MaxValue {
+		return preKeyID, nil
 	}
-	return nil, nil
+	return optional.NewEmptyUint32(), nil
 }
 
 // ProcessBundle builds a new session from a PreKeyBundle retrieved
-- 
2.43.0


From 6145c8a883594c49d478d2e29a0ab838bc78160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 03/23] fix: CBC helpers reject malformed ciphertext and
 padding and leave their inputs alone

---
 cipher/cbc.go    | 28 +++++++++++++++++++++++++---
 cipher/cipher.go | 13 ++++++++++---
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..d0d346a 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,10 +42,19 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv has the wrong length: %d / %d", len(iv), aes.BlockSize)
+	}
+
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -74,6 +83,9 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 		cbc := cipher.NewCBCEncrypter(block, iv)
 		cbc.CryptBlocks(ciphertext[aes.BlockSize:], plaintext)
 	} else {
+		if len(iv) != aes.BlockSize {
+			return nil, fmt.Errorf("iv has the wrong length: %d / %d", len(iv), aes.BlockSize)
+		}
 		ciphertext = make([]byte, len(plaintext))
 
 		cbc := cipher.NewCBCEncrypter(block, iv)
@@ -86,7 +98,7 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
@@ -97,5 +109,15 @@ func unpad(src []byte) ([]byte, error) {
 		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
 	}
 
+	if padLen == 0 || padLen > aes.BlockSize {
+		return nil, fmt.Errorf("invalid padding length: %d", padLen)
+	}
+
+	for _, b := range src[length-padLen:] {
+		if int(b) != padLen {
+			return nil, fmt.Errorf("inconsistent padding")
+		}
+	}
+
 	return src[:(length - padLen)], nil
 }
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..0fd9930 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,10 +18,14 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(iv) != aes.BlockSize || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, ErrInvalidBlockSize
+	}
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(plaintext, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -40,6 +44,9 @@ func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != block.BlockSize() {
+		return nil, ErrInvalidBlockSize
+	}
 	ciphertext := make([]byte, len(paddedText))
 	mode := cipher.NewCBCEncrypter(block, iv)
 	mode.CryptBlocks(ciphertext, paddedText)
@@ -93,7 +100,7 @@ func pkcs7Unpad(b []byte, blocksize int) ([]byte, error) {
 	}
 	c := b[len(b)-1]
 	n := int(c)
-	if n == 0 || n > len(b) {
+	if n == 0 || n > blocksize || n > len(b) {
 		return nil, ErrInvalidPKCS7Padding
 	}
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 8cfeccc702c5de76eb0f5244336396c5efc4c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 04/23] fix: reject malformed provisioning envelopes instead of
 panicking

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..edaf1ae 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage is too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From 91028619eaffad0a867b35e884615d184c2b31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 05/23] fix: decoding an empty message is an error, not a panic

---
 serialize/proto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index 49cc8e6..89505f8 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -129,6 +130,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty message.")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -181,6 +185,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty message.")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From c97dcd85d5b5a70498b55b9e93c958ad589e52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/23] fix: restore the public key of stored prekey records

---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 8d2a86abd085c93c3b2701abe02f010b5626f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 07/23] fix: decrypt on copies of the session states and
 unarchive a promoted state

---
 session/cipher.go             |  7 ++++---
 state/record/session.go       |  8 ++++++++
 state/record/state_chain.go   | 10 ++++++++++
 state/record/state_session.go | 11 +++++++++++
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..4162b65 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -200,7 +200,7 @@ func (d *Cipher) DecryptWithKey(ciphertextMessage *protocol.SignalMessage, key *
 func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
 	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
 	previousStates := sessionRecord.PreviousSessionStates()
-	sessionState := sessionRecord.SessionState()
+	sessionState := sessionRecord.SessionState().Copy()
 
 	// Try and decrypt the message with the current session state.
 	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)
@@ -210,14 +210,15 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 	if err != nil {
 		logger.Warning(err)
 		for i, state := range previousStates {
-			// Try decrypting the message with previous states
+			// Try decrypting the message with a copy of the previous state
+			state = state.Copy()
 			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
 			if err != nil {
 				continue
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.RemovePreviousState(i)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..2d49022 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -164,6 +164,14 @@ func (r *Session) PromoteState(promotedState *State) {
 	}
 }
 
+// RemovePreviousState removes the state at the given index from the list of
+// "previous" session states.
+func (r *Session) RemovePreviousState(index int) {
+	previousStates := make([]*State, 0, len(r.previousStates))
+	previousStates = append(previousStates, r.previousStates[:index]...)
+	r.previousStates = append(previousStates, r.previousStates[index+1:]...)
+}
+
 // Serialize will return the session as serialized bytes so it can be
 // persistently stored.
 func (r *Session) Serialize() []byte {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..4f4a64d 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -82,6 +82,16 @@ type Chain struct {
 	messageKeys          []*message.Keys
 }
 
+// copy returns a chain that can be changed without affecting this one.
+func (c *Chain) copy() *Chain {
+	if c == nil {
+		return nil
+	}
+	messageKeys := make([]*message.Keys, len(c.messageKeys))
+	copy(messageKeys, c.messageKeys)
+	return NewChain(c.senderRatchetKeyPair, c.chainKey, messageKeys)
+}
+
 // SenderRatchetKey returns the sender's EC keypair.
 func (c *Chain) SenderRatchetKey() *ecc.ECKeyPair {
 	return c.senderRatchetKeyPair
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..9fe07e3 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -134,6 +134,17 @@ type State struct {
 	sessionVersion       int
 }
 
+// Copy returns a state that can be changed without affecting this one.
+func (s *State) Copy() *State {
+	state := *s
+	state.senderChain = s.senderChain.copy()
+	state.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		state.receiverChains[i] = s.receiverChains[i].copy()
+	}
+	return &state
+}
+
 // SenderBaseKey returns the sender's base key in bytes.
 func (s *State) SenderBaseKey() []byte {
 	if s.senderBaseKey == nil {
-- 
2.43.0


From 138fb9c2492012509ecbdf121bec8c2d2b4a5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 08/23] fix: refuse to encrypt to or decrypt from an untrusted
 identity

---
 session/cipher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 4162b65..b6bec8c 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -120,7 +120,7 @@ func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 
 	sessionState.SetSenderChainKey(chainKey.NextKey())
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionState.RemoteIdentityKey()) {
-		// return err
+		return nil, errors.New(untrustedIdentityError)
 	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
@@ -150,7 +150,7 @@ func (d *Cipher) DecryptAndGetKey(ciphertextMessage *protocol.SignalMessage) ([]
 	}
 
 	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
-		// return err
+		return nil, nil, errors.New(untrustedIdentityError)
 	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 
-- 
2.43.0


From 0cdf456163e423265d4afc08effd3d992925c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/23] fix: give the last resort prekey the reserved id

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From 418bda0c546eadd615b501af48786d229e8f5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 10/23] fix: group encrypt and decrypt report a missing sender
 key

---
 groups/cipher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..8a68682 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,11 +37,19 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
 	}
 
+	// A state received from another member can not be used for sending.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
@@ -73,7 +81,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From b91ba5b23df83aead814258edfd9c78389f3acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 11/23] fix: restore stored sender key records without losing
 serializers or inventing signing keys

---
 groups/state/record/sender_key.go       | 1 +
 groups/state/record/state_sender_key.go | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..8f7d8ed 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) == 32 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 924f6d33ac5723f073cff60a202eca5f0b0636ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 12/23] fix: logging does not write to shared state

---
 logger/default.go | 12 ++++++------
 logger/logger.go  | 25 ++++++++++++-------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/logger/default.go b/logger/default.go
index d8920d3..e77b0eb 100644
--- a/logger/default.go
+++ b/logger/default.go
@@ -31,8 +31,7 @@ func (d *defaultLogger) log(level, caller, msg string) {
 // be allowed to log messages.
 func (d *defaultLogger) shouldLog(caller string) bool {
 	shouldLog := false
-	d.ensureNamespaces()
-	for _, namespace := range d.namespaces {
+	for _, namespace := range d.loggable() {
 		if namespace == "all" {
 			shouldLog = true
 		}
@@ -44,12 +43,13 @@ func (d *defaultLogger) shouldLog(caller string) bool {
 	return shouldLog
 }
 
-// ensureNamespaces checks to see if our list of loggable namespaces
-// has been initialized or not. If not, it defaults to log all.
-func (d *defaultLogger) ensureNamespaces() {
+// loggable returns our list of loggable namespaces. If it has not been
+// initialized, it defaults to log all.
+func (d *defaultLogger) loggable() []string {
 	if d.namespaces == nil {
-		d.namespaces = []string{"all"}
+		return []string{"all"}
 	}
+	return d.namespaces
 }
 
 // Debug is used to log debug messages.
diff --git a/logger/logger.go b/logger/logger.go
index e3a85ae..7c169c5 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -9,7 +9,10 @@ import (
 )
 
 // Logger is a shared loggable interface that this library will use for all log messages.
-var Logger Loggable
+var Logger Loggable = &defaultLogger{}
+
+// fallback is used when the shared logger has been set to nil.
+var fallback = &defaultLogger{}
 
 // Loggable is an interface for logging.
 type Loggable interface {
@@ -31,10 +34,11 @@ func toString(a ...interface{}) string {
 }
 
 // EnsureLogger will use the default logger if one was not set up.
-func ensureLogger() {
+func ensureLogger() Loggable {
 	if Logger == nil {
-		Logger = &defaultLogger{}
+		return fallback
 	}
+	return Logger
 }
 
 // GetCaller gets the go file name and line number that the logger was called from.
@@ -57,32 +61,27 @@ func getCaller() string {
 
 // Debug prints debug level logs.
 func Debug(msg ...interface{}) {
-	ensureLogger()
-	Logger.Debug(getCaller(), toString(msg...))
+	ensureLogger().Debug(getCaller(), toString(msg...))
 }
 
 // Info prints info level logs.
 func Info(msg ...interface{}) {
-	ensureLogger()
-	Logger.Info(getCaller(), toString(msg...))
+	ensureLogger().Info(getCaller(), toString(msg...))
 }
 
 // Warning prints warning level logs.
 func Warning(msg ...interface{}) {
-	ensureLogger()
-	Logger.Warning(getCaller(), toString(msg...))
+	ensureLogger().Warning(getCaller(), toString(msg...))
 }
 
 // Error prints error level logs.
 func Error(msg ...interface{}) {
-	ensureLogger()
-	Logger.Error(getCaller(), toString(msg...))
+	ensureLogger().Error(getCaller(), toString(msg...))
 }
 
 // Configure allows arbitrary logger configuration settings. The
 // default logger uses this method to configure what Go files
 // are allowed to log.
 func Configure(settings string) {
-	ensureLogger()
-	Logger.Configure(settings)
+	ensureLogger().Configure(settings)
 }
-- 
2.43.0


From fd458e3544c16bdd819b1b5d601a39d4061314ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 13/23] fix: do not log cipher keys, session states and sender
 keys

---
 serialize/json.go  | 1 -
 serialize/proto.go | 1 -
 session/cipher.go  | 2 --
 3 files changed, 4 deletions(-)

diff --git a/serialize/json.go b/serialize/json.go
index f421f60..9a9a0ee 100644
--- a/serialize/json.go
+++ b/serialize/json.go
@@ -146,7 +146,6 @@ func (j *JSONStateSerializer) Serialize(state *record.StateStructure) []byte {
 	if err != nil {
 		logger.Error("Error serializing session state: ", err)
 	}
-	logger.Debug("Serialize result: ", string(serialized))
 
 	return serialized
 }
diff --git a/serialize/proto.go b/serialize/proto.go
index 89505f8..96aa5b3 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -178,7 +178,6 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 
 	version := strconv.Itoa(int(message.Version))
 	serialized = append([]byte(version), serialized...)
-	logger.Debug("Serialize result: ", serialized)
 	return serialized
 }
 
diff --git a/session/cipher.go b/session/cipher.go
index b6bec8c..2c54db6 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -350,14 +350,12 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 // decrypt will use the given message keys and ciphertext and return
 // the plaintext bytes.
 func decrypt(keys *message.Keys, body []byte) ([]byte, error) {
-	logger.Debug("Using cipherKey: ", keys.CipherKey())
 	return cipher.DecryptCbc(keys.Iv(), keys.CipherKey(), bytehelper.CopySlice(body))
 }
 
 // encrypt will use the given cipher, message keys, and plaintext bytes
 // and return ciphertext bytes.
 func encrypt(messageKeys *message.Keys, plaintext []byte) ([]byte, error) {
-	logger.Debug("Using cipherKey: ", messageKeys.CipherKey())
 	return cipher.EncryptCbc(messageKeys.Iv(), messageKeys.CipherKey(), plaintext)
 }
 
-- 
2.43.0


From e38fbc82998910af3d8f859279fdfdc93454e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 14/23] fix: previous counter of an unused sending chain is
 zero

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index 2c54db6..3b18ac9 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -340,7 +340,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From 59ec0f37a146023d927e5995c20bae2743924900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 15/23] fix: loading an incomplete stored record is an error,
 not a panic

---
 groups/state/record/state_sender_key.go | 12 ++++++++++++
 state/record/state_chain.go             | 12 ++++++++++++
 state/record/state_session.go           |  9 +++++++++
 3 files changed, 33 insertions(+)

diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 8f7d8ed..fcc73e0 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
@@ -62,6 +64,16 @@ func NewSenderKeyStateFromPublicKey(keyID uint32, iteration uint32, chainKey []b
 func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	serializer SenderKeyStateSerializer) (*SenderKeyState, error) {
 
+	// Return an error if the structure is incomplete.
+	if structure == nil || structure.SenderChainKey == nil {
+		return nil, errors.New("Incomplete sender key state structure")
+	}
+	for _, key := range structure.Keys {
+		if key == nil {
+			return nil, errors.New("Incomplete sender message key structure")
+		}
+	}
+
 	// Convert our ecc keys from bytes into object form.
 	signingKeyPublic, err := ecc.DecodePoint(structure.SigningKeyPublic, 0)
 	if err != nil {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index 4f4a64d..11ef162 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -36,6 +38,16 @@ func NewChain(senderRatchetKeyPair *ecc.ECKeyPair, chainKey *chain.Key,
 // NewChainFromStructure will return a new Chain with the given
 // chain structure.
 func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
+	// Return an error if the structure is incomplete.
+	if structure == nil || structure.ChainKey == nil {
+		return nil, errors.New("Incomplete chain structure")
+	}
+	for _, keys := range structure.MessageKeys {
+		if keys == nil {
+			return nil, errors.New("Incomplete message keys structure")
+		}
+	}
+
 	// Alias to SliceToArray
 	getArray := bytehelper.SliceToArray
 
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 9fe07e3..75a6d20 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -16,6 +18,8 @@ import (
 const maxMessageKeys int = 2000
 const maxReceiverChains int = 5
 
+var errIncompleteState = errors.New("Incomplete state structure")
+
 // StateSerializer is an interface for serializing and deserializing
 // a Signal State into bytes. An implementation of this interface should be
 // used to encode/decode the object into JSON, Protobuffers, etc.
@@ -44,6 +48,11 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
+	// Return an error if there is no structure.
+	if structure == nil {
+		return nil, errIncompleteState
+	}
+
 	// Keep a list of errors, so they can be handled once.
 	errors := errorhelper.NewMultiError()
 
-- 
2.43.0


From 509ef91be11e094e8d95f860aa68212921d79714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 16/23] fix: a prekey message for an unknown signed prekey is
 an error, not a panic

---
 session/session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/session.go b/session/session.go
index 217d030..03d45c6 100644
--- a/session/session.go
+++ b/session/session.go
@@ -120,6 +120,9 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		return nil, errors.New(noSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From 66a2995edde52649cdc3512988eee1162b2c493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 17/23] fix: a record that holds a session is not fresh, so the
 session is archived

---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index 2d49022..0e9231a 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -111,7 +111,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From c15f82381f56369c1bb115aa97cd195e4e29f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 18/23] fix: compare whole base keys when choosing the role in
 a symmetric session

---
 ratchet/ratchet.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..56ffe69 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -190,8 +190,5 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 // be calculated as the sender or receiver. It does so by converting the given
 // keys into integers and comparing the size of those integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From a42db3d8a9647370addd1188dd5977318968f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 19/23] fix: a failing random source does not yield keys or
 signatures

---
 ecc/curve.go              | 5 ++++-
 groups/session_builder.go | 8 +++++++-
 util/keyhelper/key.go     | 8 +++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ecc/curve.go b/ecc/curve.go
index 6fbbe3e..a04958d 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -112,7 +112,10 @@ func CalculateSignature(signingKey ECPrivateKeyable, message []byte) [64]byte {
 	// Get cryptographically secure random numbers.
 	var random [64]byte
 	r := rand.Reader
-	io.ReadFull(r, random[:])
+	if _, err := io.ReadFull(r, random[:]); err != nil {
+		logger.Error("Unable to get random bytes for signing: ", err)
+		return [64]byte{}
+	}
 
 	// Get the private key.
 	privateKey := signingKey.Serialize()
diff --git a/groups/session_builder.go b/groups/session_builder.go
index 12290ac..eeaed56 100644
--- a/groups/session_builder.go
+++ b/groups/session_builder.go
@@ -9,6 +9,8 @@
 package groups
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/groups/state/record"
 	"github.com/prospik/libsignal-protocol-go/groups/state/store"
 	"github.com/prospik/libsignal-protocol-go/protocol"
@@ -57,9 +59,13 @@ func (b *SessionBuilder) Create(senderKeyName *protocol.SenderKeyName) (*protoco
 		if err != nil {
 			return nil, err
 		}
+		senderKey := keyhelper.GenerateSenderKey()
+		if senderKey == nil {
+			return nil, errors.New("Unable to generate a sender key")
+		}
 		senderKeyRecord.SetSenderKeyState(
 			keyhelper.GenerateSenderKeyID(), 0,
-			keyhelper.GenerateSenderKey(),
+			senderKey,
 			signingKey,
 		)
 		b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)
diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index e7c696b..6be4b21 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -4,6 +4,7 @@ package keyhelper
 import (
 	"crypto/rand"
 	"encoding/binary"
+	"errors"
 	"time"
 
 	"github.com/RadicalApp/complete"
@@ -77,6 +78,9 @@ func GenerateSignedPreKey(identityKeyPair *identity.KeyPair, signedPreKeyID uint
 		return nil, err
 	}
 	signature := ecc.CalculateSignature(identityKeyPair.PrivateKey(), keyPair.PublicKey().Serialize())
+	if signature == [64]byte{} {
+		return nil, errors.New("Error calculating signature")
+	}
 	timestamp := time.Now().Unix()
 
 	return record.NewSignedPreKey(signedPreKeyID, timestamp, keyPair, signature, serializer), nil
@@ -99,7 +103,9 @@ func GenerateSenderSigningKey() (*ecc.ECKeyPair, error) {
 
 func GenerateSenderKey() []byte {
 	randBytes := make([]byte, 32)
-	rand.Read(randBytes)
+	if _, err := rand.Read(randBytes); err != nil {
+		return nil
+	}
 	return randBytes
 }
 
-- 
2.43.0


From 48a708858303601a5932a7ad86e8664f0be5b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 20/23] fix: encrypting without a session is an error, not a
 panic

---
 session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 3b18ac9..b52b249 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
-- 
2.43.0


From c077922202b5903d94e29a05b63cae2d6babeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 21/23] fix: fail group encryption when the message can not be
 signed

---
 groups/cipher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groups/cipher.go b/groups/cipher.go
index 8a68682..9783e9e 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -70,6 +70,10 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 		c.sessionBuilder.serializer.SenderKeyMessage,
 	)
 
+	if senderKeyMessage.Signature() == [64]byte{} {
+		return nil, errors.New("Error calculating signature")
+	}
+
 	senderKeyState.SetSenderChainKey(senderKeyState.SenderChainKey().Next())
 	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
 
-- 
2.43.0


From 5cd0254c0c036c990f2da85281a622288522c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 22/23] fix: use a bundle's one-time prekey only along with its
 id

---
 session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/session.go b/session/session.go
index 03d45c6..d67a034 100644
--- a/session/session.go
+++ b/session/session.go
@@ -207,6 +207,12 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 	theirOneTimePreKey := preKey.PreKey()
 	theirOneTimePreKeyID := preKey.PreKeyID()
 
+	// A one time prekey can only be used along with its id.
+	if theirOneTimePreKey == nil || theirOneTimePreKeyID == nil || theirOneTimePreKeyID.IsEmpty {
+		theirOneTimePreKey = nil
+		theirOneTimePreKeyID = optional.NewEmptyUint32()
+	}
+
 	// Build the parameters of the session
 	parameters := ratchet.NewEmptySenderParameters()
 	parameters.SetOurBaseKey(ourBaseKey)
-- 
2.43.0


From 7e82c15ff48ce22fe05690b6f7083e07b58bfc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:55 +0000
Subject: [PATCH 23/23] fix: report an invalid base key of unacknowledged
 prekey message items

---
 state/record/unacknowledged_prekey.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/state/record/unacknowledged_prekey.go b/state/record/unacknowledged_prekey.go
index 1760b5d..d50ee2e 100644
--- a/state/record/unacknowledged_prekey.go
+++ b/state/record/unacknowledged_prekey.go
@@ -2,6 +2,7 @@ package record
 
 import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
+	"github.com/prospik/libsignal-protocol-go/logger"
 	"github.com/prospik/libsignal-protocol-go/util/optional"
 )
 
@@ -17,9 +18,13 @@ func NewUnackPreKeyMessageItems(preKeyID *optional.Uint32, signedPreKeyID uint32
 }
 
 // NewUnackPreKeyMessageItemsFromStruct will return a new unacknowledged prekey
-// message items object from the given structure.
+// message items object from the given structure, or nil if its base key is not valid.
 func NewUnackPreKeyMessageItemsFromStruct(structure *UnackPreKeyMessageItemsStructure) *UnackPreKeyMessageItems {
-	baseKey, _ := ecc.DecodePoint(structure.BaseKey, 0)
+	baseKey, err := ecc.DecodePoint(structure.BaseKey, 0)
+	if err != nil {
+		logger.Error("Error decoding the base key of an unacknowledged prekey message: ", err)
+		return nil
+	}
 	return NewUnackPreKeyMessageItems(
 		structure.PreKeyID,
 		structure.SignedPreKeyID,
-- 
2.43.0

