#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=list(observe)
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','X3DH: both sides derive the same session keys from the full key agreement',
 "The initiator's and the responder's session derivation produce the same root key and chain key whenever they hold the two halves of the same identity, signed pre, base and (if used) one-time pre keys. The input secret is 32 bytes 0xFF followed by DH(signed prekey, initiator identity), DH(responder identity, base key), DH(signed prekey, base key) and, exactly when a one-time prekey takes part, DH(one-time prekey, base key), fed to HKDF-SHA256 with no salt and info \"WhisperText\" and split into a 32-byte root key and a 32-byte chain key at index 0. A session set up by processing a bundle, or by processing a prekey message, is installed with exactly these keys, the protocol version, both identities, both registration ids and the base key.",
 ['inputs'],'for all key pairs, with and without a one-time prekey','the session test runs one random key set with a one-time prekey; a wrong, missing or swapped DH that both test peers share goes unnoticed, and the no-one-time-key branch is never run',
 ['ratchet/ratchet.go','session/session.go','kdf/hkdf.go','keys/session/derived_secrets.go'],
 [('sender agreement','ratchet.CalculateSenderSession'),('receiver agreement','ratchet.CalculateReceiverSession'),('symmetric dispatch','ratchet.CalculateSymmetricSession'),('session installation','session.Builder.ProcessBundle / Process')],
 observe=['session record stored by ProcessBundle / Process'])
p('C02','Double ratchet key schedule follows the specification',
 "A chain key with key k and index i yields the next chain key HMAC-SHA256(k,0x02) at index i+1, and message keys HKDF-SHA256(HMAC-SHA256(k,0x01), no salt, \"WhisperMessageKeys\", 80) split into a 32-byte cipher key, a 32-byte MAC key and a 16-byte IV, labelled with index i. A root key r and a DH output s yield HKDF-SHA256(s, salt r, \"WhisperRatchet\", 64) split into the next root key and a chain key at index 0. On the first message under a new remote ratchet key the receiver derives the receiving chain with its old ratchet key and then the sending chain with a freshly generated one from the root key just derived, keeps both, and records the length of its previous sending chain (saturating at zero).",
 ['inputs','histories'],'for all keys, indices and interleavings of ratchet steps','tests compare an implementation with itself, so any schedule passes as long as both ends share it',
 ['keys/chain/key.go','keys/root/key.go','keys/message/key.go','session/cipher.go','kdf/hkdf.go'],
 [('chain step','chain.Key.NextKey / MessageKeys'),('root step','root.Key.CreateChain'),('ratchet step','session.getOrCreateChainKey')])
p('C03','The message MAC covers version, identities and every field, at full length',
 "The MAC of a message is the first 8 bytes of HMAC-SHA256 under the message's MAC key over sender identity key, receiver identity key (both for version 3), then the version and the complete serialized message (ratchet key, counter, previous counter, ciphertext) without the MAC. Verification recomputes the same value from the received message and the key it is given, and succeeds only if the received MAC equals it in all bytes and in length, compared in constant time. What a sender produces with (sender, receiver, key) always verifies at a receiver that uses the same sender, receiver and key.",
 ['inputs'],'for all messages, identities, keys and received MAC bytes','tests only ever verify untampered messages, or none; dropping a field from the MAC passes them',
 ['protocol/signal_message.go'],[('MAC construction','protocol.NewSignalMessage / getMac'),('MAC verification','protocol.SignalMessage.VerifyMac')])
p('C04','No plaintext leaves a session without a verified MAC under the same keys',
 "A session decryption returns plaintext only if the message's version equals the session's version, its MAC verified with the remote identity as sender and the local identity as receiver under the MAC key of the message's own ratchet chain and counter, and the plaintext is the CBC decryption of that message's body with the cipher key and IV of those same message keys. On any other outcome it returns an error and no plaintext or keys.",
 ['inputs','histories'],'for all sessions (current and archived states) and all received messages','no test delivers a forged, replayed or cross-session message',
 ['session/cipher.go'],[('verify before decrypt','session.Cipher.DecryptWithState'),('state selection','session.Cipher.DecryptWithRecord')])
p('C05','A session is built from a bundle only after its signed prekey is authenticated',
 "Processing a prekey bundle performs a key agreement, changes a session or stores anything only if the store trusts the bundle's identity key and the bundle's signature over its serialized signed prekey verifies under that identity key. The keys then used in the agreement and as the first ratchet key are exactly the bundle's verified signed prekey, identity key and one-time prekey, with freshly generated base and ratchet keys. Every rejected bundle yields an error and no store writes.",
 ['inputs','configurations'],'for all bundles and trust decisions','tests only process valid bundles from a trusted identity',
 ['session/session.go'],[('trust and signature gate','session.Builder.ProcessBundle')])
p('C06','Untrusted identities are rejected and accepted ones are recorded',
 "Encrypting, decrypting an established-session message, processing a bundle and processing a prekey message each ask the identity store about the remote identity key that the operation relies on (for a prekey message the one inside it), for that remote address, and fail with an error when it is not trusted, storing neither the session nor that identity. When the operation succeeds, that same identity key is saved for that address.",
 ['inputs','configurations'],'for all identity stores, sessions and messages','the in-memory identity store of the tests trusts the only identity it sees',
 ['session/cipher.go','session/session.go','state/store/identity.go'],[('trust check','IdentityKey.IsTrustedIdentity call sites'),('trust record','IdentityKey.SaveIdentity call sites')])
p('C07','A failed decryption or encryption changes nothing',
 "When a session encrypt or decrypt operation returns an error, no session is stored and no prekey is removed, and decrypting a message against a given record leaves that record's current and archived states as they were. In particular a forged message never consumes stored message keys, advances a chain or replaces a ratchet key, also when it is tried against several states.",
 ['inputs','histories','fault_sequences'],'for all messages that fail at any stage, against any record','tests have no failing decryption followed by a genuine one',
 ['session/cipher.go','state/record/state_session.go','state/record/session.go'],[('trial decryption','session.Cipher.DecryptWithRecord / DecryptWithState'),('store writes','SessionStore.StoreSession call sites')])
p('C08','The advanced session is stored before a result is released',
 "Every successful session encrypt or decrypt stores, under the remote address and before returning, the record it loaded, with the state it used as the current state. After an encrypt the sending chain has advanced by exactly one step and the message carries the counter, ratchet key and previous counter of the step it used; after a decrypt the receiving chain stands at the message's counter plus one, or the consumed out-of-order key is gone. An archived state that decrypts a message becomes the current one, the former current state is archived, and the promoted state is no longer archived.",
 ['inputs','histories','crash_points'],'for all sessions and messages; a crash after the return must find the advanced state stored','tests keep records in memory by pointer, so a missing store or a store of the wrong record is invisible',
 ['session/cipher.go','state/record/session.go'],[('persist','session.Cipher.Encrypt / DecryptAndGetKey / DecryptMessageReturnKey'),('promotion','record.Session.PromoteState')])
p('C09','Each message key is used once; skipped keys are kept exactly for gaps',
 "When a message arrives ahead of its chain, the message keys of exactly the skipped counters are derived and kept, each labelled with its own counter, under the message's ratchet key; when it arrives behind, it is decrypted only with a kept key of exactly its ratchet key and counter, which is then removed (and no other). A counter whose key was already used, or was never kept, is rejected with an error.",
 ['inputs','histories'],'for all orders of delivery, duplication and loss','the tests deliver a couple of fixed permutations; removal of the wrong key or labelling by the wrong counter needs a longer history',
 ['session/cipher.go','state/record/state_session.go','state/record/state_chain.go'],[('skipped keys','session.getOrCreateMessageKeys'),('kept keys','record.State.HasMessageKeys / RemoveMessageKeys / SetMessageKeys'),('chain lookup','record.State.ReceiverChainKey')])
p('C10','Session and group state stay within their bounds',
 "No sequence of messages makes a chain keep more than 2000 skipped message keys, a state more than 5 receiving chains, a session more than 40 archived states, a group state more than 2000 skipped keys or a group record more than 2000 states; on overflow the oldest entry goes. A message more than 5000 counters (group: 2000 iterations) ahead of its chain is rejected with an error before any key is derived, and one at or below that distance is not rejected for that reason.",
 ['inputs','histories'],'for all counters a peer can claim and all message histories','tests never reach any of the limits',
 ['state/record/state_session.go','state/record/session.go','groups/state/record/state_sender_key.go','groups/state/record/sender_key.go','session/cipher.go','groups/cipher.go'],
 [('receiving chains','record.State.AddReceiverChain'),('skipped keys','record.State.SetMessageKeys'),('archive','record.Session.PromoteState'),('future limit','session.getOrCreateMessageKeys / groups.GroupCipher.getSenderKey')])
p('C11','Session records survive storage unchanged',
 "Serializing a session record and loading it back yields a record equal in everything that affects later behaviour: version, identities, registration ids, root key, base key, previous counter, sending chain with both ratchet key halves, every receiving chain and its kept message keys in order, pending prekey and pending key exchange, and all archived states in order. The same holds for a single state.",
 ['inputs','histories','crash_points'],'for all established sessions','the serializer test compares one freshly built session as printed structures',
 ['state/record/session.go','state/record/state_session.go','state/record/state_chain.go','state/record/state_pending_prekey.go','state/record/state_pending_key_exchange.go','keys/chain/key.go','keys/message/key.go','serialize/json.go'],
 [('to structure','record.Session.Serialize / record.State.Serialize'),('from structure','record.NewSessionFromBytes / record.NewStateFromBytes')])
p('C12','Group sender key records survive storage unchanged and stay usable',
 "Serializing a sender key record and loading it back yields the same states in the same order, each with its key id, chain key and iteration, skipped message keys, signing public key, and signing private key present exactly if it was present before. The loaded record can be used and serialized like the original.",
 ['inputs','histories','crash_points'],'for all group records','no test serializes a group record',
 ['groups/state/record/sender_key.go','groups/state/record/state_sender_key.go','groups/ratchet/sender_chain_key.go','groups/ratchet/sender_message_key.go','serialize/json.go'],
 [('to structure','groups/state/record.SenderKey.Serialize'),('from structure','groups/state/record.NewSenderKeyFromBytes')])
p('C13','PreKey and signed PreKey records survive storage unchanged',
 "Serializing a prekey or signed prekey record and loading it back yields a record with the same id, the same public and private key, and, for signed prekeys, the same timestamp and signature.",
 ['inputs'],'for all key pairs, ids, timestamps and signatures','no test reloads a prekey record',
 ['state/record/prekey.go','state/record/signed_prekey.go','serialize/json.go'],[('prekey','record.NewPreKeyFromBytes'),('signed prekey','record.NewSignedPreKeyFromBytes')])
p('C14','Wire messages decode to exactly what was encoded',
 "For each of the four message kinds and each serializer (protocol buffers and JSON), decoding an encoded message yields the same version, ids, counters, keys, ciphertext, MAC or signature, and an absent one-time prekey id stays absent while id 0 stays 0 (for messages of the version the library sends, 3). A message rebuilt from its decoded form serializes, for MAC and signature purposes, to the bytes that were authenticated.",
 ['inputs'],'for all field values, including zero and absent ids and empty bodies','tests exchange a handful of messages, all with a one-time prekey',
 ['serialize/proto.go','serialize/json.go','protocol/signal_message.go','protocol/prekey_signal_message.go','protocol/sender_key_message.go','protocol/sender_key_distribution_message.go'],
 [('protobuf','serialize.ProtoBuf*Serializer'),('json','serialize.JSON*Serializer')])
p('C15','Malformed input is an error, never a panic',
 "Decoding arbitrary bytes as any message kind, public key or stored record, decrypting with arbitrary ciphertext, body, counters and key ids, and opening an arbitrary provisioning envelope, return an error or a value and never panic. So does encrypting when there is no session.",
 ['inputs'],'for all byte strings, including empty and truncated ones, with every field absent or of any length','tests feed only well-formed input',
 ['serialize/proto.go','ecc/curve.go','cipher/cbc.go','cipher/cipher.go','provision/cipher.go','session/cipher.go','session/session.go','groups/cipher.go','state/record/state_session.go','groups/state/record/state_sender_key.go'],
 [('message decoders','protocol.New*FromBytes with serialize.*'),('point decoding','ecc.DecodePoint'),('CBC','cipher.DecryptCbc / cipher.Decrypt'),('provisioning','provision.Decrypt')])
p('C16','A one-time prekey is used exactly when offered and removed exactly once',
 "A bundle without a one-time prekey, or with one but no id for it, leads to prekey messages that carry no prekey id, and a prekey message without an id is processed with the three-part agreement; with an id, the stored prekey of that id takes part and a missing one is an error. After a prekey message has been decrypted and its session stored, exactly the prekey id it used is removed; nothing is removed when no id was used, when the id is the reserved last-resort id (0xFFFFFF), which is the id given to a generated last-resort key, when the session already existed, or when anything failed.",
 ['inputs','histories'],'for all bundles and prekey messages with and without an id','every tested bundle has a one-time prekey',
 ['session/session.go','session/cipher.go','serialize/proto.go','state/record/state_pending_prekey.go','util/keyhelper/key.go'],
 [('selection','session.Builder.Process'),('removal','session.Cipher.DecryptMessageReturnKey'),('last resort','keyhelper.GenerateLastResortKey')])
p('C17','Group messages are authenticated over all their content before use',
 "A group message is signed with the state's private signing key over its serialization (version, key id, iteration, ciphertext), and a receiver verifies the received 64-byte signature over the same serialization under the public signing key of the state selected by the message's key id. Only after that verification does it derive keys, change or store the record or return plaintext; a failed verification is an error with no effect.",
 ['inputs','histories'],'for all group messages, genuine or forged','tests decrypt only genuine messages',
 ['groups/cipher.go','protocol/sender_key_message.go','ecc/curve.go'],[('verify first','groups.GroupCipher.Decrypt'),('sign','protocol.NewSenderKeyMessage')])
p('C18','The group chain gives each iteration its own key, used once and stored',
 "A group chain key k at iteration i yields the next chain key HMAC-SHA256(k,0x02) at i+1 and the message key HKDF-SHA256(HMAC-SHA256(k,0x01), no salt, \"WhisperGroup\", 48) split into a 16-byte IV and a 32-byte cipher key. A sender encrypts with the key of its current iteration, labels the message with it and its key id, and stores the record advanced by one; a receiver keeps exactly the skipped iterations' keys, uses a kept key once, rejects a repeated iteration, and stores the advanced record before returning plaintext.",
 ['inputs','histories'],'for all orders of group delivery','tests run short in-order exchanges through in-memory records',
 ['groups/ratchet/sender_chain_key.go','groups/ratchet/sender_message_key.go','groups/cipher.go','groups/state/record/state_sender_key.go'],
 [('chain','ratchet.SenderChainKey.Next / SenderMessageKey'),('encrypt','groups.GroupCipher.Encrypt'),('decrypt','groups.GroupCipher.Decrypt'),('kept keys','record.SenderKeyState.*SenderMessageKey')])
p('C19','Group distribution hands out and installs the sending state',
 "Creating a group session generates and stores new key material only if there is none, and always returns the stored sending state's key id, current iteration, chain key and public signing key. Processing a distribution message installs exactly these values in the record of the named sender, keeping the states already there, and stores it; a record with no matching key id yields an error when decrypting.",
 ['inputs','histories'],'for all names, prior records and distribution messages','tests create one session per group and compare nothing but a decrypted text',
 ['groups/session_builder.go','groups/state/record/sender_key.go'],[('create','groups.SessionBuilder.Create'),('install','groups.SessionBuilder.Process'),('lookup','SenderKey.GetSenderKeyStateByID')])
p('C20','Inputs handed to the library are not modified',
 "Encrypting and decrypting, in sessions, groups, provisioning and the cipher helpers, never write to the caller's plaintext, ciphertext, key or IV buffers (including spare capacity beyond their length) nor to the message object being decrypted, and verifying a MAC or signature does not change the message. The same message object can be decrypted or verified again with the same bytes.",
 ['inputs'],'for all buffers and messages','tests pass fresh strings and decrypt each message object once',
 ['cipher/cbc.go','cipher/cipher.go','session/cipher.go','groups/cipher.go','protocol/signal_message.go'],[('CBC buffers','cipher.DecryptCbc / EncryptCbc / pad'),('MAC verification copy','protocol.SignalMessage.VerifyMac')])
p('C21','Secret keys and plaintext never reach the log',
 "No private key, root, chain, message, cipher, MAC or sender key, shared secret, serialized session or plaintext is passed, directly or inside another value, in readable form to a logging or printing function or placed in an error text.",
 ['inputs','configurations'],'for all executions with any logger installed','tests do not look at log output',
 ['logger/logger.go','session/cipher.go','serialize/json.go','ecc/curve.go','protocol/signal_message.go'],[('log calls','logger.Debug/Info/Warning/Error call sites')])
p('C22','Keys come whole from the system random source, correctly formed',
 "Every generated private key, group chain key, registration id and group key id is filled in full from crypto/rand, a failure of the random source never yields key material (an id is 0 then), and private keys are clamped (low 3 bits and top bit cleared, bit 254 set) with the public key being the scalar multiple of the curve25519 base point by that private key. Generated key pairs, prekeys and signed prekeys contain these keys, with the requested ids, and a signed prekey is signed by the given identity over the serialized public key it contains.",
 ['inputs','fault_sequences'],'for all random outputs and failures of the source','a test cannot tell randomness from a constant, nor make crypto/rand fail',
 ['ecc/curve.go','util/keyhelper/key.go'],[('key pairs','ecc.GenerateKeyPair / CreateKeyPair'),('helpers','keyhelper.Generate*')])
p('C23','Signatures bind key, message and fresh nonce (XEdDSA structure)',
 "Signing derives its nonce from a 32-byte domain prefix, the private key, the whole message and 64 fresh random bytes, computes R and s = r + H(R, A, M)a with A the Edwards key of the signing private key, and carries A's sign in the top bit of byte 63. Verifying converts the given curve25519 key to its Edwards form with the sign taken from the signature, clears that bit, and returns the verdict of Ed25519 verification of the whole message, and nothing else, without changing its inputs.",
 ['inputs'],'for all keys, messages and signatures','tests sign one random message per run',
 ['ecc/sign_curve25519.go','ecc/curve.go'],[('sign','ecc.CalculateSignature'),('verify','ecc.VerifySignature')])
p('C24','Fingerprints show the same text on both devices and depend on all they should',
 "The display text for (local, remote) equals the one for (remote, local). Each side's half is the concatenation of six zero-padded five-digit groups, the big-endian values of the six consecutive 5-byte chunks of its fingerprint modulo 100000.",
 ['inputs'],'for all fingerprints of at least 30 bytes','the fingerprint test shows one pair, one way round',
 ['fingerprint/display.go','util/bytehelper/byte.go'],[('display','fingerprint.NewDisplay / DisplayText'),('chunk','bytehelper.Bytes5ToInt64')])
p('C25','Provisioning content is released only after its MAC verifies',
 "Opening a provisioning envelope returns text only if the version byte is 1 and the trailing 32 bytes equal HMAC-SHA256 over everything before them under the MAC key derived from our private key and the envelope's public key (HKDF-SHA256, no salt, \"Mixin Provisioning Message\", 64 bytes: cipher key then MAC key). The text is the CBC decryption of the bytes between IV and MAC with that cipher key and IV; every other envelope is an error.",
 ['inputs'],'for all envelopes and keys','provisioning has no test at all',
 ['provision/cipher.go'],[('open','provision.Decrypt')])
p('C26','A new session archives the old one, and known sessions are not rebuilt',
 "When a session with content is replaced by processing a bundle or a new prekey message, the old state is archived, newest first, and messages for it still decrypt. A prekey message whose version and base key match the current or any archived state builds nothing and changes nothing in the record, and only such a message is treated that way.",
 ['histories'],'for all histories of session establishment between two parties','tests build each session once or twice and never decrypt for an archived state',
 ['session/session.go','state/record/session.go'],[('archive','record.Session.ArchiveCurrentState'),('dedupe','record.Session.HasSessionState')])
p('C27','Independent sessions can be used from different goroutines',
 "Library calls on unrelated objects share no package-level or otherwise shared state that any of them writes without synchronisation, so using different sessions from different goroutines is free of data races. Setting up the logger, which is for the start of a program, is not part of this.",
 ['schedules'],'for all schedules of calls on unrelated objects','the tests are single-threaded',
 ['logger/logger.go','logger/default.go','serialize/json.go','keys/chain/key.go','groups/ratchet/sender_chain_key.go'],[('package state','package-level variables'),('default logger','logger.ensureLogger')])
p('C28','Asynchronous calls complete exactly once with the synchronous outcome',
 "Each asynchronous variant invokes its completion exactly once: success with the value the synchronous call returns when that succeeds, failure when it fails or, for verification, when the signature is invalid.",
 ['inputs','schedules'],'for all outcomes','the asynchronous variants have no failing-path test',
 ['ecc/curve.go','util/keyhelper/key.go'],[('async','ecc.*Async / keyhelper.*Async')])
p('C29','Only complete messages of a supported version are accepted, tagged by kind',
 "Building any of the four message kinds from a decoded structure fails with an error if its version is at most 1 or above 3, or if a required field (ratchet key, ciphertext, base key, identity key, embedded message, chain key, signing key) is absent or not a valid public key where one is required; otherwise the message reports exactly the decoded values. The four message kinds report the distinct type tags 2, 3, 4 and 5, and messages built by the library carry version 3.",
 ['inputs'],'for all decoded structures','tests decode only well-formed version 3 messages',
 ['protocol/signal_message.go','protocol/prekey_signal_message.go','protocol/sender_key_message.go','protocol/sender_key_distribution_message.go','protocol/ciphertext_message.go'],
 [('gates','protocol.New*FromStruct')])
p('C30','CBC encryption is undone by decryption and bad padding is rejected',
 "Encryption appends 1 to 16 bytes of PKCS#7 padding, all equal to their number, to the whole plaintext (DecryptCbc's and EncryptCbc's plaintext may be empty, cipher.Encrypt refuses an empty one) and encrypts it with AES-CBC under exactly the given key and IV (or a fresh random IV placed in front, when none is given). Decryption reverses this, and returns an error for ciphertext that is empty or not a whole number of blocks and for padding that is zero, longer than a block, longer than the data or inconsistent.",
 ['inputs'],'for all lengths, plaintexts and ciphertexts','tests encrypt a few short fixed strings',
 ['cipher/cbc.go','cipher/cipher.go'],[('cbc','cipher.EncryptCbc / DecryptCbc'),('pkcs7','cipher.Encrypt / Decrypt')])
p('C31','Messages stay prekey messages until the peer has answered',
 "After processing a bundle every encrypted message is a prekey message that embeds the session message and carries the bundle's key ids, our registration id, identity key and the base key of the session, for as long as nothing has been decrypted in that session. The first successful decryption ends this, and a failed one does not.",
 ['histories'],'for all interleavings of sends and receives after session setup','tests check the type of the first message only',
 ['session/cipher.go','session/session.go','state/record/state_session.go'],[('choice','session.Cipher.Encrypt'),('acknowledge','session.Cipher.DecryptWithState')])
p('C32','Public keys encode and decode one-to-one',
 "A public key serializes to the byte 0x05 followed by its 32 bytes, decoding that returns the same key, and decoding fails with an error for any other type byte or when fewer than 33 bytes are available at the given offset. Identity keys serialize to, and hex-print, exactly this encoding.",
 ['inputs'],'for all byte strings, offsets and keys','tests decode only what the library just encoded',
 ['ecc/curve.go','ecc/djb_ec_public.go','keys/identity/key.go'],[('decode','ecc.DecodePoint'),('encode','ecc.DjbECPublicKey.Serialize')])
p('C33','Errors of the library and its primitives are not swallowed',
 "When a call that can fail (a decoder, cipher, random source, record loader or key derivation) fails during an operation, the operation fails: it returns an error, or, having no error result, the zero value of its result, and never reports success. Of several errors kept together, the first is the one told. Only the attempts to decrypt a message with several session states may fail without the operation failing.",
 ['inputs','fault_sequences'],'for all failures of every fallible call','tests do not inject failures',
 ['session/cipher.go','session/session.go','state/record/state_session.go','state/record/unacknowledged_prekey.go','provision/cipher.go','keys/chain/key.go','ecc/curve.go'],[('error results','all call sites of fallible functions')])
p('C34','The elliptic-curve arithmetic computes the curve25519 group operations',
 "In ecc/edwards25519, for all operands within the documented limb bounds and whether or not the destination is one of the operands: field addition, subtraction, negation, multiplication, squaring, doubled squaring, inversion and the square-root power give the sum, difference, product, power modulo 2^255-19 with results within the bounds the next operation documents; FeToBytes is the one encoding below 2^255-19 and FeFromBytes its inverse, ignoring the top bit; ScMulAdd and ScReduce give ab+c and s modulo the group order, fully reduced; conditional moves move exactly when asked; doubling, mixed addition, the conversions between point forms and ToBytes follow the curve's group law; the table entries and constants are the multiples of the base point and the numbers they stand for; and GeScalarMultBase(a) is a times the base point for every a with a[31] <= 127.",
 ['inputs'],'for all field elements, scalars and points','known-answer tests cover single points of a 2^255 domain; a carry that is wrong for one value in 2^26 passes them all',
 ['ecc/edwards25519/edwards25519.go','ecc/edwards25519/const.go','ecc/sign_curve25519.go'],[('field arithmetic','ecc/edwards25519.FeMul'),('scalar arithmetic','ecc/edwards25519.ScMulAdd'),('scalar multiplication','ecc/edwards25519.GeScalarMultBase')])
p('C35','Control flow and table accesses do not depend on secrets',
 "In signing, the curve arithmetic under it and key agreement no branch, loop bound, array index, division or early-ending comparison depends on a private key or on a nonce; and no message authentication code computed by the library is compared byte by byte with an end at the first difference, nor decides a branch other than by the outcome of a constant-time comparison.",
 ['inputs'],'for all private keys, nonces and messages','timing is not observable in a unit test, and both forms give the same results',
 ['ecc/edwards25519/edwards25519.go','ecc/sign_curve25519.go','protocol/signal_message.go','provision/cipher.go'],[('table lookup','ecc/edwards25519.selectPoint'),('signing','ecc.CalculateSignature'),('MAC comparison','protocol.SignalMessage.VerifyMac'),('MAC comparison','provision.verifyMAC')])
p('C36','What goes over the wire is the published Signal format',
 "With the protobuf serializer every message is encoded as the published protocol says, so that other implementations read it: the version byte 0x33, then the protobuf message with the published field numbers and types and nothing else (session message: 1 ratchet key, 2 counter, 3 previous counter, 4 ciphertext; prekey message: 1 one-time prekey id, absent if there is none, 2 base key, 3 identity key, 4 the whole session message, 5 registration id, 6 signed prekey id; sender key message: 1 key id, 2 iteration, 3 ciphertext; distribution message: 1 id, 2 iteration, 3 chain key, 4 signing key; public keys as 0x05 and 32 bytes), then for a session message the 8 bytes of the MAC and for a sender key message the 64 bytes of the signature; message types are 2, 3, 4 and 5. Messages whose version byte has other low bits decode to the same values.",
 ['inputs','programs'],'for all messages of the four kinds','round-trip tests pass whatever the field numbers are, as long as both directions use the same',
 ['serialize/proto.go','serialize/protocol_whisper_text.pb.go','protocol/signal_message.go','protocol/prekey_signal_message.go','protocol/sender_key_message.go','protocol/sender_key_distribution_message.go','protocol/ciphertext_message.go'],[('wire format','serialize.ProtoBufSignalMessageSerializer.Serialize'),('wire format','serialize.ProtoBufPreKeySignalMessageSerializer.Serialize'),('schema','serialize.SignalMessage')])
p('C37','What is genuine is accepted: operations fail only for a stated reason',
 "Decrypting a session message succeeds whenever its version is the session's, its MAC is the one the session gives for its counter and ratchet key (for an earlier counter: a key is still kept), its body is properly padded ciphertext under the same keys, it is not too far ahead, the random source works and the peer's identity is trusted; a group message is decrypted whenever its signature verifies under the state it names and the same holds for its body. Processing a bundle or prekey message succeeds whenever the identity is trusted, the bundle's signature verifies, the named prekeys are stored and the random source works; encrypting succeeds whenever there is a session (for a group: a sending state with its private key) and the identity is trusted.",
 ['inputs','histories'],'for all states, messages, bundles and texts','tests deliver a few messages in a few orders',
 ['session/cipher.go','session/session.go','groups/cipher.go','state/record/state_session.go','cipher/cbc.go','protocol/signal_message.go'],[('acceptance','session.Cipher.DecryptWithState'),('acceptance','session.Builder.ProcessBundle'),('acceptance','groups.GroupCipher.Decrypt')])
p('C38','Builders, ciphers and values work on exactly what they were given',
 "A session builder or cipher made by any constructor works on exactly the stores, serializers and address handed to it; addresses, sender key names, bundles, keys, key pairs, agreement parameters, chains, prekey records and optional ids answer through their accessors exactly what their constructor was given; a setter changes what its accessor answers to what was set and nothing that another setter set. CreateKeyPair gives the clamped private key and the public key that belongs to it. An address prints as its name, a colon and its device number, so that different devices of one user never print alike.",
 ['inputs'],'for all arguments of every constructor and setter','tests use one way to build each tool, with one store for everything, and few of the accessors',
 ['session/session.go','session/cipher.go','keys/prekey/bundle.go','ratchet/sender.go','ratchet/receiver.go','protocol/signal_protocol_address.go','state/record/state_session.go','ecc/curve.go'],[('constructor','session.NewBuilderFromSignal'),('constructor','session.NewCipherFromSession'),('constructor','keys/prekey.NewBundle'),('setters','state/record.State'),('key pair','ecc.CreateKeyPair')])
for d in P: print(json.dumps(d))
