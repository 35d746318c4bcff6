# small functions of every part, written in other ways
exec(open("/verif/tools/refs/r9.py").read().split("ref(\"x01")[0])
CV="ecc/curve.go"; SG="ecc/sign_curve25519.go"; BH="util/bytehelper/byte.go"; FD="fingerprint/display.go"
CB="cipher/cbc.go"; P="protocol/signal_message.go"; SM="protocol/sender_key_message.go"; KH="util/keyhelper/key.go"
CH="keys/chain/key.go"; RT="ratchet/ratchet.go"; SB="groups/session_builder.go"; PV="provision/cipher.go"
SCK="groups/ratchet/sender_chain_key.go"; HK="kdf/hkdf.go"; PP="serialize/proto.go"; RK="keys/root/key.go"
ref("y01-clamp",(CV,'''	copy(private[:], privateKey)

''','''	copy(private[:], privateKey)
	clamp(&private)
'''),(CV,fn(CV,"func CreateKeyPair("),fn(CV,"func CreateKeyPair(").replace('''	copy(private[:], privateKey)

''','''	copy(private[:], privateKey)
	clamp(&private)
''').replace('''	private[0] &= 248
	private[31] &= 127
	private[31] |= 64

''','')+'''
// clamp makes random bytes a Curve25519 private key.
func clamp(private *[32]byte) {
	private[0] &= 248
	private[31] = private[31]&127 | 64
}
'''))
REFS[-1]["edits"]=REFS[-1]["edits"][1:]
ref("y02-keypair-from",(CV,fn(CV,"func GenerateKeyPair("),'''func GenerateKeyPair() (*ECKeyPair, error) {
	var seed [32]byte
	if _, err := io.ReadFull(rand.Reader, seed[:]); err != nil {
		return nil, err
	}
	return CreateKeyPair(seed[:]), nil
}
'''))
ref("y03-decode-point",swap(CV,"func DecodePoint(",'''
func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
	if offset < 0 || len(bytes) < offset+KeySize {
		return nil, errors.New("Bad key length")
	}
	encoded := bytes[offset : offset+KeySize]
	if encoded[0] != DjbType {
		return nil, errors.New("Bad key type: " + string(encoded[0]))
	}
	var key [32]byte
	for i := range key {
		key[i] = encoded[1+i]
	}
	return NewDjbECPublicKey(key), nil
}
'''))
ref("y04-display-loop",swap(FD,"func displayStringFor(",'''
func displayStringFor(fingerprint []byte) string {
	text := ""
	for i := 0; i < 6; i++ {
		text += encodedChunk(fingerprint, 5*i)
	}
	return text
}
'''))
ref("y05-display-builder",swap(FD,"func displayStringFor(",'''
func displayStringFor(fingerprint []byte) string {
	var text strings.Builder
	for offset := 0; offset < 30; offset += 5 {
		text.WriteString(encodedChunk(fingerprint, offset))
	}
	return text.String()
}
'''),(FD,'	"fmt"\n','	"fmt"\n	"strings"\n'))
ref("y06-bytes5-loop",swap(BH,"func Bytes5ToInt64(",'''
func Bytes5ToInt64(bytes []byte, offset int) int64 {
	var value int64
	for _, b := range bytes[offset : offset+5] {
		value = value<<8 | int64(b)
	}
	return value
}
'''))
ref("y07-unpad-index",swap(CB,"func unpad(",'''
func unpad(src []byte) ([]byte, error) {
	length := len(src)
	padLen := int(src[length-1])
	if padLen == 0 || padLen > aes.BlockSize || padLen > length {
		return nil, fmt.Errorf("invalid padding length: %d", padLen)
	}
	end := length - padLen
	for i := end; i < length; i++ {
		if src[i] != byte(padLen) {
			return nil, fmt.Errorf("inconsistent padding")
		}
	}
	return src[:end], nil
}
'''))
ref("y08-pad-loop",swap(CB,"func pad(",'''
func pad(plaintext []byte, blockSize int) []byte {
	padding := blockSize - len(plaintext)%blockSize
	padded := make([]byte, len(plaintext)+padding)
	copy(padded, plaintext)
	for i := len(plaintext); i < len(padded); i++ {
		padded[i] = byte(padding)
	}
	return padded
}
'''),(CB,'	"bytes"\n',''))
ref("y09-encrypt-split",(CB,fn(CB,"func EncryptCbc("),'''func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	padded := pad(plaintext, aes.BlockSize)
	if iv != nil {
		if len(iv) != aes.BlockSize {
			return nil, fmt.Errorf("iv has the wrong length: %d / %d", len(iv), aes.BlockSize)
		}
		ciphertext := make([]byte, len(padded))
		cipher.NewCBCEncrypter(block, iv).CryptBlocks(ciphertext, padded)
		return ciphertext, nil
	}

	ciphertext := make([]byte, aes.BlockSize+len(padded))
	prefix, body := ciphertext[:aes.BlockSize], ciphertext[aes.BlockSize:]
	if _, err := io.ReadFull(rand.Reader, prefix); err != nil {
		return nil, err
	}
	cipher.NewCBCEncrypter(block, prefix).CryptBlocks(body, padded)
	return ciphertext, nil
}
'''))
ref("y10-verify-direct",(P,'''	structure := s.structure
	signalMessage, err := NewSignalMessageFromStruct(&structure, s.serializer)
	if err != nil {
		return err
	}
	signalMessage.structure.Mac = nil
	signalMessage.structure.Version = 0
	version := []byte(strconv.Itoa(s.MessageVersion()))
	serialized := append(version, signalMessage.Serialize()...)
''','''	structure := s.structure
	if _, err := NewSignalMessageFromStruct(&structure, s.serializer); err != nil {
		return err
	}
	structure.Mac = nil
	structure.Version = 0
	serialized := s.authenticated(s.MessageVersion(), &structure)
''')) if '''	signalMessage.structure.Mac = nil
	signalMessage.structure.Version = 0
	version :=''' in rd(P) else None
ref("y11-generate-prekeys",(KH,'''	for i := start; i <= count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
	}
''','''	for id := uint32(start); int(id) <= count && start <= count; id++ {
		preKey, err := generatePreKey(id, serializer)
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, preKey)
	}
'''),(KH,"// GenerateLastResortKey",'''func generatePreKey(id uint32, serializer record.PreKeySerializer) (*record.PreKey, error) {
	keyPair, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	return record.NewPreKey(id, keyPair, serializer), nil
}

// GenerateLastResortKey'''))
REFS.pop()
ref("y12-generate-prekeys",(KH,'''	for i := start; i <= count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
	}
''','''	for i := start; i <= count; i++ {
		preKey, err := generatePreKey(i, serializer)
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, preKey)
	}
'''),(KH,"// GenerateLastResortKey",'''func generatePreKey(id int, serializer record.PreKeySerializer) (*record.PreKey, error) {
	keyPair, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	return record.NewPreKey(uint32(id), keyPair, serializer), nil
}

// GenerateLastResortKey'''))
ref("y13-agreements",swap(RT,"func CalculateSenderSession(",'''
func CalculateSenderSession(parameters *SenderParameters) (*session.KeyPair, error) {
	ourIdentity := parameters.OurIdentityKey().PrivateKey()
	ourBase := parameters.OurBaseKey().PrivateKey()
	pairs := []agreement{
		{parameters.TheirSignedPreKey(), ourIdentity},
		{parameters.TheirIdentityKey().PublicKey(), ourBase},
		{parameters.TheirSignedPreKey(), ourBase},
	}
	if oneTime := parameters.TheirOneTimePreKey(); oneTime != nil {
		pairs = append(pairs, agreement{oneTime, ourBase})
	}
	return derive(pairs)
}

type agreement struct {
	theirs ecc.ECPublicKeyable
	ours   ecc.ECPrivateKeyable
}

func derive(pairs []agreement) (*session.KeyPair, error) {
	discontinuity := genDiscontinuity()
	master := append([]byte(nil), discontinuity[:]...)
	for _, p := range pairs {
		secret := kdf.CalculateSharedSecret(p.theirs.PublicKey(), p.ours.Serialize())
		master = append(master, secret[:]...)
	}
	derived, err := kdf.DeriveSecrets(master, nil, []byte("WhisperText"), root.DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	secrets := session.NewDerivedSecrets(derived)
	return session.NewKeyPair(
		root.NewKey(kdf.DeriveSecrets, secrets.RootKey()),
		chain.NewKey(kdf.DeriveSecrets, secrets.ChainKey(), 0),
	), nil
}
'''))
ref("y14-create-fresh",(SB,fn(SB,"func (b *SessionBuilder) Create("),'''func (b *SessionBuilder) Create(senderKeyName *protocol.SenderKeyName) (*protocol.SenderKeyDistributionMessage, error) {
	senderKeyRecord := b.senderKeyStore.LoadSenderKey(senderKeyName)
	if senderKeyRecord == nil || senderKeyRecord.IsEmpty() {
		fresh, err := b.newRecord()
		if err != nil {
			return nil, err
		}
		b.senderKeyStore.StoreSenderKey(senderKeyName, fresh)
		senderKeyRecord = fresh
	}

	state, err := senderKeyRecord.SenderKeyState()
	if err != nil {
		return nil, err
	}
	chainKey := state.SenderChainKey()
	return protocol.NewSenderKeyDistributionMessage(
		state.KeyID(),
		chainKey.Iteration(),
		chainKey.Seed(),
		state.SigningKey().PublicKey(),
		b.serializer.SenderKeyDistributionMessage,
	), nil
}

// newRecord makes a record with new keys for sending.
func (b *SessionBuilder) newRecord() (*record.SenderKey, error) {
	signingKey, err := keyhelper.GenerateSenderSigningKey()
	if err != nil {
		return nil, err
	}
	chainKey := keyhelper.GenerateSenderKey()
	if chainKey == nil {
		return nil, errors.New("Unable to generate a sender key")
	}
	fresh := record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
	fresh.SetSenderKeyState(keyhelper.GenerateSenderKeyID(), 0, chainKey, signingKey)
	return fresh, nil
}
'''))
ref("y15-chain-derive",swap(CH,"func (c *Key) MessageKeys(",'''
func (c *Key) MessageKeys() *message.Keys {
	material, _ := c.kdf(c.BaseMaterial(messageKeySeed), nil, []byte(message.KdfSalt), message.DerivedSecretsSize)
	return message.NewKeys(material[:32], material[32:64], material[64:80], c.index)
}
'''),(CH,fn(CH,"func newKeyMaterial("),""))
ref("y16-provision-parts",(PV,'''	iv := message[1 : 16+1]
	mac := message[len(message)-32:]
	ivAndCiphertext := message[0 : len(message)-32]
	cipherText := message[16+1 : len(message)-32]
''','''	macStart := len(message) - sha256.Size
	ivAndCiphertext, mac := message[:macStart], message[macStart:]
	iv, cipherText := ivAndCiphertext[1:17], ivAndCiphertext[17:]
'''),(PV,'''	aesKey := derivedSecretBytes[:32]
	macKey := derivedSecretBytes[32:]
''','''	secrets := bytehelper.Split(derivedSecretBytes, 32, 32)
	aesKey, macKey := secrets[0], secrets[1]
'''))
ref("y17-sign-helper",(SG,'''	var r [64]byte
	hash := sha512.New()
	hash.Write(diversifier[:])
	hash.Write(privateKey[:])
	hash.Write(message)
	hash.Write(random[:])
	hash.Sum(r[:0])

''','''	r := digest(diversifier[:], privateKey[:], message, random[:])

'''),(SG,'''	var hramDigest [64]byte
	hash.Reset()
	hash.Write(encodedR[:])
	hash.Write(publicKey[:])
	hash.Write(message)
	hash.Sum(hramDigest[:0])
''','''	hramDigest := digest(encodedR[:], publicKey[:], message)
'''),(SG,"// verify checks","""// digest hashes the parts one after the other.
func digest(parts ...[]byte) (sum [64]byte) {
	hash := sha512.New()
	for _, part := range parts {
		hash.Write(part)
	}
	hash.Sum(sum[:0])
	return sum
}

// verify checks"""))
ref("y18-diversifier",(SG,'''	diversifier := [32]byte{
		0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
		0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
		0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF,
		0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}
''','''	var diversifier [32]byte
	diversifier[0] = 0xFE
	for i := 1; i < len(diversifier); i++ {
		diversifier[i] = 0xFF
	}
'''))
ref("y19-group-remove",(GS,fn(GS,"func (k *SenderKeyState) RemoveSenderMessageKey("),'''func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.SenderMessageKey {
	i := k.indexOf(iteration)
	if i < 0 {
		return nil
	}
	removed := k.keys[i]
	k.keys = append(k.keys[:i], k.keys[i+1:]...)
	return removed
}

func (k *SenderKeyState) indexOf(iteration uint32) int {
	for i, key := range k.keys {
		if key.Iteration() == iteration {
			return i
		}
	}
	return -1
}
'''),(GS,fn(GS,"func (k *SenderKeyState) HasSenderMessageKey("),'''func (k *SenderKeyState) HasSenderMessageKey(iteration uint32) bool {
	return k.indexOf(iteration) >= 0
}
'''))
ref("y20-group-remove-fresh",(GS,fn(GS,"func (k *SenderKeyState) RemoveSenderMessageKey("),'''func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.SenderMessageKey {
	var removed *ratchet.SenderMessageKey
	kept := make([]*ratchet.SenderMessageKey, 0, len(k.keys))
	for _, key := range k.keys {
		if removed == nil && key.Iteration() == iteration {
			removed = key
			continue
		}
		kept = append(kept, key)
	}
	k.keys = kept
	return removed
}
'''))
ref("y21-version-check",(SM,'''	if structure.Version <= UnsupportedVersion {
		err := "Legacy message: " + strconv.Itoa(int(structure.Version))
		return nil, errors.New(err)
	}
''','''	if err := checkVersion(structure.Version); err != nil {
		return nil, err
	}
'''),(SM,fn(SM,"func NewSenderKeyMessage("),fn(SM,"func NewSenderKeyMessage(")+'''
func checkVersion(version uint32) error {
	switch {
	case version <= UnsupportedVersion:
		return errors.New("Legacy message: " + strconv.Itoa(int(version)))
	case version > CurrentVersion:
		return errors.New("Unknown version: " + strconv.Itoa(int(version)))
	}
	return nil
}
'''))
ref("y22-hkdf-read",swap(HK,"func DeriveSecrets(",'''
func DeriveSecrets(inputKeyMaterial, salt, info []byte, outputLength int) ([]byte, error) {
	secrets := make([]byte, outputLength)
	reader := hkdf.New(sha256.New, inputKeyMaterial, salt, info)
	if _, err := io.ReadFull(reader, secrets); err != nil {
		return nil, err
	}
	return secrets, nil
}
'''))
ref("y23-bytes-helpers",swap(BH,"func CopySlice(",'''
func CopySlice(bytes []byte) []byte {
	return append(make([]byte, 0, len(bytes)), bytes...)
}
'''),swap(BH,"func Trim(",'''
func Trim(input []byte, length int) []byte {
	return CopySlice(input[:length])
}
'''),swap(BH,"func Split(",'''
func Split(input []byte, firstLength, secondLength int) [][]byte {
	first := make([]byte, firstLength)
	second := make([]byte, secondLength)
	copy(first, input[:firstLength])
	copy(second, input[firstLength:])
	return [][]byte{first, second}
}
'''))
ref("y24-unpad-suffix",swap(CB,"func unpad(",'''
func unpad(src []byte) ([]byte, error) {
	padLen := int(src[len(src)-1])
	if padLen == 0 || padLen > aes.BlockSize || padLen > len(src) {
		return nil, fmt.Errorf("invalid padding length: %d", padLen)
	}
	body, padding := src[:len(src)-padLen], src[len(src)-padLen:]
	if !bytes.Equal(padding, bytes.Repeat([]byte{byte(padLen)}, padLen)) {
		return nil, fmt.Errorf("inconsistent padding")
	}
	return body, nil
}
'''))
ref("y25-verify-async",(CV,'''		r := VerifySignature(signingKey, message, signature)
		if r == false {
			completion.OnFailure("Signature invalid")
			return
		}
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
''','''		if VerifySignature(signingKey, message, signature) {
			result := complete.NewResult(true)
			completion.OnSuccess(&result)
		} else {
			completion.OnFailure("Signature invalid")
		}
'''))
REFS=[r for r in REFS if r["id"]!="y10-verify-direct"]
