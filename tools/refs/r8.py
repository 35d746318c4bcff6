# idioms: buffers, tables, closures, deferred work, variadic helpers, switches
REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=list(edits)))
src={}
def rd(f):
    if f not in src: src[f]=open("/repo/"+f).read()
    return src[f]
def fn(f,head):
    t=rd(f); i=t.index(head); j=t.index("\n}\n",i)+3
    return t[i:j]
def swap(f,head,new): return (f,fn(f,head),new.lstrip("\n"))
P="protocol/signal_message.go"; GC="groups/cipher.go"; CH="keys/chain/key.go"; CB="cipher/cbc.go"
PV="provision/cipher.go"; BH="util/bytehelper/byte.go"; CV="ecc/curve.go"; FD="fingerprint/display.go"
SK="groups/ratchet/sender_message_key.go"; SC="groups/ratchet/sender_chain_key.go"; RK="keys/root/key.go"
ref("w01-mac-parts",swap(P,"func getMac(",'''
func getMac(messageVersion int, senderIdentityKey, receiverIdentityKey *identity.Key,
	macKey, serialized []byte) ([]byte, error) {

	var parts [][]byte
	if messageVersion >= 3 {
		parts = append(parts, senderIdentityKey.PublicKey().Serialize(), receiverIdentityKey.PublicKey().Serialize())
	}
	parts = append(parts, serialized)
	return authenticate(macKey, parts...)[:MacLength:MacLength], nil
}

func authenticate(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}
'''),(P,'	"github.com/prospik/libsignal-protocol-go/util/bytehelper"\n',''))
ref("w02-mac-join",swap(P,"func getMac(",'''
func getMac(messageVersion int, senderIdentityKey, receiverIdentityKey *identity.Key,
	macKey, serialized []byte) ([]byte, error) {

	input := serialized
	if messageVersion >= 3 {
		input = bytes.Join([][]byte{
			senderIdentityKey.PublicKey().Serialize(),
			receiverIdentityKey.PublicKey().Serialize(),
			serialized,
		}, nil)
	}
	mac := hmac.New(sha256.New, macKey)
	mac.Write(input)
	return bytehelper.Trim(mac.Sum(nil), MacLength), nil
}
'''),(P,'import (\n','import (\n	"bytes"\n'))
ref("w03-mac-buffer",swap(P,"func getMac(",'''
func getMac(messageVersion int, senderIdentityKey, receiverIdentityKey *identity.Key,
	macKey, serialized []byte) ([]byte, error) {

	var input bytes.Buffer
	if messageVersion >= 3 {
		input.Write(senderIdentityKey.PublicKey().Serialize())
		input.Write(receiverIdentityKey.PublicKey().Serialize())
	}
	input.Write(serialized)
	mac := hmac.New(sha256.New, macKey)
	mac.Write(input.Bytes())
	return bytehelper.Trim(mac.Sum(nil), MacLength), nil
}
'''),(P,'import (\n','import (\n	"bytes"\n'))
ref("w04-mac-mode",swap(P,"func getMac(",'''
func getMac(messageVersion int, senderIdentityKey, receiverIdentityKey *identity.Key,
	macKey, serialized []byte) ([]byte, error) {

	mac := hmac.New(sha256.New, macKey)
	switch {
	case messageVersion >= 3:
		for _, id := range []*identity.Key{senderIdentityKey, receiverIdentityKey} {
			mac.Write(id.PublicKey().Serialize())
		}
		fallthrough
	default:
		mac.Write(serialized)
	}
	full := mac.Sum(make([]byte, 0, 32))
	short := make([]byte, MacLength)
	copy(short, full)
	return short, nil
}
'''),(P,'	"github.com/prospik/libsignal-protocol-go/util/bytehelper"\n',''))
ref("w05-chain-seeds",swap(CH,"func newKeyMaterial",'''
func newKeyMaterial(keyMaterialBytes []byte) *kdf.KeyMaterial {
	m := new(kdf.KeyMaterial)
	rest := keyMaterialBytes
	for _, part := range []struct {
		to *[]byte
		n  int
	}{{&m.CipherKey, 32}, {&m.MacKey, 32}, {&m.IV, 16}} {
		*part.to, rest = rest[:part.n], rest[part.n:]
	}
	return m
}
'''))
ref("w06-chain-take",swap(CH,"func newKeyMaterial",'''
func newKeyMaterial(keyMaterialBytes []byte) *kdf.KeyMaterial {
	take := func(n int) []byte {
		part := keyMaterialBytes[:n]
		keyMaterialBytes = keyMaterialBytes[n:]
		return part
	}
	m := &kdf.KeyMaterial{}
	m.CipherKey = take(message.CipherKeyLength)
	m.MacKey = take(message.MacKeyLength)
	m.IV = take(message.IVLength)
	return m
}
'''))
ref("w07-unpad-fold",swap(CB,"func unpad(",'''
func unpad(src []byte) ([]byte, error) {
	length := len(src)
	padLen := int(src[length-1])
	switch {
	case padLen > length:
		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
	case padLen < 1, padLen > aes.BlockSize:
		return nil, fmt.Errorf("invalid padding length: %d", padLen)
	}
	body, padding := src[:length-padLen], src[length-padLen:]
	if bytes.Count(padding, []byte{byte(padLen)}) != padLen {
		return nil, fmt.Errorf("inconsistent padding")
	}
	return body, nil
}
'''))
ref("w08-unpad-down",swap(CB,"func unpad(",'''
func unpad(src []byte) ([]byte, error) {
	length := len(src)
	last := src[length-1]
	padLen := int(last)
	if padLen > length {
		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
	}
	if padLen == 0 || padLen > aes.BlockSize {
		return nil, fmt.Errorf("invalid padding length: %d", padLen)
	}
	for i := length - 1; i >= length-padLen; i-- {
		if src[i] != last {
			return nil, fmt.Errorf("inconsistent padding")
		}
	}
	return src[:length-padLen], nil
}
'''))
ref("w09-unpad-equal",swap(CB,"func unpad(",'''
func unpad(src []byte) ([]byte, error) {
	length := len(src)
	padLen := int(src[length-1])
	if padLen > length {
		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
	}
	if padLen == 0 || padLen > aes.BlockSize {
		return nil, fmt.Errorf("invalid padding length: %d", padLen)
	}
	want := bytes.Repeat([]byte{byte(padLen)}, padLen)
	if !bytes.HasSuffix(src, want) {
		return nil, fmt.Errorf("inconsistent padding")
	}
	return bytes.TrimSuffix(src, want), nil
}
'''))
ref("w10-pad-loop",swap(CB,"func pad(",'''
func pad(ciphertext []byte, blockSize int) []byte {
	n := len(ciphertext)
	padding := blockSize - n%blockSize
	padded := make([]byte, n+padding)
	copy(padded, ciphertext)
	for i := n; i < len(padded); i++ {
		padded[i] = byte(padding)
	}
	return padded
}
'''),(CB,'	"bytes"\n',''))
ref("w11-encrypt-flat",swap(CB,"func EncryptCbc(",'''
func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
	padded := pad(plaintext, aes.BlockSize)
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	if iv != nil && len(iv) != aes.BlockSize {
		return nil, fmt.Errorf("iv has the wrong length: %d / %d", len(iv), aes.BlockSize)
	}
	var prefix []byte
	if iv == nil {
		iv = make([]byte, aes.BlockSize)
		if _, err := io.ReadFull(rand.Reader, iv); err != nil {
			return nil, err
		}
		prefix = iv
	}
	encrypted := make([]byte, len(padded))
	cipher.NewCBCEncrypter(block, iv).CryptBlocks(encrypted, padded)
	return append(prefix, encrypted...), nil
}
'''))
ref("w12-provision-steps",(PV,"	iv := message[1 : 16+1]\n	mac := message[len(message)-32:]\n	ivAndCiphertext := message[0 : len(message)-32]\n	cipherText := message[16+1 : len(message)-32]\n",'''	ivAndCiphertext, mac := message[:len(message)-sha256.Size], message[len(message)-sha256.Size:]
	iv, cipherText := ivAndCiphertext[1:17], ivAndCiphertext[17:]
'''))
ref("w13-provision-open",(PV,'''	aesKey := derivedSecretBytes[:32]
	macKey := derivedSecretBytes[32:]

	if !verifyMAC(macKey, ivAndCiphertext, mac) {
		return "", fmt.Errorf("Verify Mac failed")
	}
	plaintext, err := cipher.DecryptCbc(iv, aesKey, cipherText)
	if err != nil {
		return "", err
	}
	return string(plaintext), nil
}
''','''	plaintext, err := open(derivedSecretBytes, ivAndCiphertext, mac, iv, cipherText)
	return string(plaintext), err
}

func open(secrets, authenticated, mac, iv, cipherText []byte) ([]byte, error) {
	if !verifyMAC(secrets[32:], authenticated, mac) {
		return nil, fmt.Errorf("Verify Mac failed")
	}
	return cipher.DecryptCbc(iv, secrets[:32], cipherText)
}
'''))
ref("w14-split-append",swap(BH,"func Split(",'''
func Split(input []byte, firstLength, secondLength int) [][]byte {
	first := append([]byte{}, input[:firstLength]...)
	second := make([]byte, secondLength)
	copy(second, input[firstLength:])
	return [][]byte{first, second}
}
'''),swap(BH,"func Trim(",'''
func Trim(input []byte, length int) []byte {
	return append(make([]byte, 0, length), input[:length]...)
}
'''))
ref("w15-split-named",swap(SK,"func NewSenderMessageKey(",'''
func NewSenderMessageKey(iteration uint32, seed []byte) (key *SenderMessageKey, err error) {
	var derivative []byte
	if derivative, err = kdf.DeriveSecrets(seed, nil, []byte(KdfInfo), 48); err != nil {
		return
	}
	key = &SenderMessageKey{iteration: iteration, seed: seed}
	key.iv = bytehelper.Trim(derivative, 16)
	key.cipherKey = append(key.cipherKey, derivative[16:48]...)
	return
}
'''))
ref("w16-decode-if",swap(CV,"func DecodePoint(",'''
func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
	if offset < 0 || len(bytes)-offset < KeySize {
		return nil, errors.New("Bad key length")
	}
	encoded := bytes[offset : offset+KeySize]
	if encoded[0] != DjbType {
		return nil, errors.New("Bad key type: " + string(encoded[0]))
	}
	var key [32]byte
	copy(key[:], encoded[1:])
	return NewDjbECPublicKey(key), nil
}
'''))
ref("w17-keypair-helper",swap(CV,"func CreateKeyPair(",'''
func CreateKeyPair(privateKey []byte) *ECKeyPair {
	var private [32]byte
	copy(private[:], privateKey)
	keypair := keyPairOf(private)
	logger.Debug("Returning keypair: ", keypair)
	return keypair
}

func keyPairOf(private [32]byte) *ECKeyPair {
	private[0] = private[0] &^ 7
	private[31] = private[31]&0x3f | 0x40
	var public [32]byte
	curve25519.ScalarBaseMult(&public, &private)
	return NewECKeyPair(NewDjbECPublicKey(public), NewDjbECPrivateKey(private))
}
'''),swap(CV,"func GenerateKeyPair()",'''
func GenerateKeyPair() (*ECKeyPair, error) {
	var random [32]byte
	if _, err := io.ReadFull(rand.Reader, random[:]); err != nil {
		return nil, err
	}
	return keyPairOf(random), nil
}
'''))
ref("w18-rand-read",(CV,"	if _, err := io.ReadFull(r, random[:]); err != nil {",'	if _, err := rand.Read(random[:]); err != nil {'),(CV,"	r := rand.Reader\n",""))
ref("w19-display-loop",swap(FD,"func displayStringFor(",'''
func displayStringFor(fingerprint []byte) string {
	var b strings.Builder
	for offset := 0; offset < 30; offset += 5 {
		b.WriteString(encodedChunk(fingerprint, offset))
	}
	return b.String()
}
'''),(FD,'	"fmt"\n','	"fmt"\n	"strings"\n'))
ref("w20-display-pad",swap(FD,"func encodedChunk(",'''
func encodedChunk(hash []byte, offset int) string {
	digits := strconv.FormatInt(bytehelper.Bytes5ToInt64(hash, offset)%100000, 10)
	return strings.Repeat("0", 5-len(digits)) + digits
}
'''),(FD,'	"fmt"\n','	"strconv"\n	"strings"\n'))
ref("w29-display-fill",swap(FD,"func encodedChunk(",'''
func encodedChunk(hash []byte, offset int) string {
	digits := strconv.FormatInt(bytehelper.Bytes5ToInt64(hash, offset)%100000, 10)
	for len(digits) < 5 {
		digits = "0" + digits
	}
	return digits
}
'''),(FD,'	"fmt"\n','	"strconv"\n'))
ref("w21-group-switch",swap(GC,"func (c *GroupCipher) getSenderKey",'''
func (c *GroupCipher) getSenderKey(senderKeyState *record.SenderKeyState, iteration uint32) (*ratchet.SenderMessageKey, error) {
	chain := senderKeyState.SenderChainKey()
	switch at := chain.Iteration(); {
	case at > iteration && senderKeyState.HasSenderMessageKey(iteration):
		return senderKeyState.RemoveSenderMessageKey(iteration), nil
	case at > iteration:
		return nil, errors.New("Received message with old counter: " + strconv.Itoa(int(at)) + ", " + strconv.Itoa(int(iteration)))
	case iteration-at > 2000:
		return nil, errors.New("Over 2000 messages into the future!")
	}
	for ; chain.Iteration() != iteration; chain = chain.Next() {
		skipped, err := chain.SenderMessageKey()
		if err != nil {
			return nil, err
		}
		senderKeyState.AddSenderMessageKey(skipped)
	}
	senderKeyState.SetSenderChainKey(chain.Next())
	return chain.SenderMessageKey()
}
'''))
ref("w22-group-recursive-free",(GC,'''	if !verified {
		return nil, errors.New("Sender Key State failed verification with given pub key!")
	}

	senderKey, err :=''','''	if verified == false {
		err = errors.New("Sender Key State failed verification with given pub key!")
		return nil, err
	}

	var senderKey *ratchet.SenderMessageKey
	senderKey, err ='''))
ref("w23-derivative-func",swap(SC,"func (k *SenderChainKey) getDerivative",'''
func derive(key, seed []byte) []byte {
	mac := hmac.New(sha256.New, key)
	mac.Write(seed)
	return mac.Sum(nil)
}
'''),(SC,"k.getDerivative(messageKeySeed, k.chainKey)","derive(k.chainKey, messageKeySeed)"),(SC,"k.getDerivative(chainKeySeed, k.chainKey)","derive(k.chainKey, chainKeySeed)"))
ref("w24-root-chain",swap(RK,"func (k *Key) CreateChain",'''
func (k *Key) CreateChain(theirRatchetKey ecc.ECPublicKeyable, ourRatchetKey *ecc.ECKeyPair) (*session.KeyPair, error) {
	sharedSecret := kdf.CalculateSharedSecret(theirRatchetKey.PublicKey(), ourRatchetKey.PrivateKey().Serialize())
	derived, err := kdf.DeriveSecrets(sharedSecret[:], k.key, []byte(KdfInfo), DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	next := &Key{kdf: k.kdf, key: derived[:32]}
	return session.NewKeyPair(next, chain.NewKey(k.kdf, derived[32:], 0)), nil
}
'''))
ref("w25-verify-defer",swap(CV,"func VerifySignature(",'''
func VerifySignature(signingKey ECPublicKeyable, message []byte, signature [64]byte) (valid bool) {
	logger.Debug("Verifying signature of bytes: ", message)
	defer func() {
		logger.Debug("Signature valid: ", valid)
	}()
	return verify(signingKey.PublicKey(), message, &signature)
}
'''))
ref("w26-mac-first",(P,"	ourMac, err := getMac(\n		messageVersion,",'''	theirMac := s.structure.Mac
	ourMac, err := getMac(
		messageVersion,'''),(P,'''	// Get the message authentication code that was sent to us as part of
	// the signal message structure.
	theirMac := s.structure.Mac

''',''))
ref("w27-verify-copy",(P,'''	structure := s.structure
	signalMessage, err := NewSignalMessageFromStruct(&structure, s.serializer)
	if err != nil {
		return err
	}
	signalMessage.structure.Mac = nil
	signalMessage.structure.Version = 0
	version := []byte(strconv.Itoa(s.MessageVersion()))
	serialized := append(version, signalMessage.Serialize()...)
''','''	if _, err := NewSignalMessageFromStruct(s.Structure(), s.serializer); err != nil {
		return err
	}
	bare := s.Structure()
	bare.Mac, bare.Version = nil, 0
	serialized := append([]byte(strconv.Itoa(s.MessageVersion())), s.serializer.Serialize(bare)...)
'''))
ref("w28-version-prefix",(P,'''	version := []byte(strconv.Itoa(messageVersion))
	// Build''','''	// Build'''),(P,"	serialized := append(version, serializer.Serialize(structure)...)\n	// Get",'''	serialized := withVersion(messageVersion, serializer.Serialize(structure))
	// Get'''),(P,'''	version := []byte(strconv.Itoa(s.MessageVersion()))
	serialized := append(version, signalMessage.Serialize()...)
''','''	serialized := withVersion(s.MessageVersion(), signalMessage.Serialize())
'''),(P,"// getMac will",'''func withVersion(version int, body []byte) []byte {
	prefix := strconv.Itoa(version)
	out := make([]byte, 0, len(prefix)+len(body))
	out = append(out, prefix...)
	return append(out, body...)
}

// getMac will'''))
