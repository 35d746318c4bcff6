TECH={
"C27":"static analysis: interprocedural side-effect (write-origin) analysis over the SSA form and call graph, with lock regions",
"C34":"static analysis: abstract interpretation of the SSA form over polynomials modulo the field prime and group order with interval bounds, compared with the group law",
"C35":"static analysis: interprocedural taint analysis of branches, indices, divisions and early-ending comparisons over the SSA form",
}
NOTE={
"C01":"Decided for all keys of both parties and all cases of one-time prekeys and roles; DH and HKDF are uninterpreted, and the two sides agree because their inputs are term by term the two halves of the same agreement.",
"C02":"Decided for all chain, root and ratchet keys and every state with up to 5 chains (the bound C10 proves); primitives uninterpreted.",
"C03":"Decided for all messages, keys and versions: MAC input, truncation, full-length constant-time comparison.",
"C04":"Decided for DecryptWithState on every state within the bounds of C10 and every message, split into the cases equal, behind, ahead, new chain, uninitialized. Kept keys are assumed whole (32, 32, 16 bytes).",
"C09":"Decided for every number of kept keys (up to 2000) and every gap: each kept key before and after is compared at an unknown index.",
"C10":"Inductive: the bounds hold after any decryption if they held before. Counters below 2^32-1.",
"C31":"Decided for every state and message, and every bundle.",
"C05":"Decided for every bundle and every answer of the stores; signatures and key agreement uninterpreted. The store's answers are functions of what it is asked.",
"C06":"Decided for every record, message, bundle and answer of the identity store. The identity inside a prekey message is the one asked about when it is processed.",
"C07":"Decided for every record with up to 40 archived states; a trial decryption with one state stands as an unknown outcome that may leave anything in the fields DecryptWithState may change, a set computed from its own analysis (C04, C09, C10 decide that function itself).",
"C08":"As C07, for successes: the current state, the first archived state that decrypts, or none. Prekey messages in a record with all 40 archived states in use are left to C26.",
"C16":"Decided for every bundle, prekey message, id and answer of the stores.",
"C26":"Decided for every record with up to 40 archived states, compared at an unknown index.",
"C15":"Decided for every byte string, every structure an unknown serializer may return and the two shipped ones, and every message and record that decoding lets through. Panics counted: nil dereference, nil interface calls, index and slice bounds, type assertions, division, negative make; exhaustion of memory or stack is not. Keys in stores are whole pairs; counters below 2^32-1; processing a message for another session is decided for records with fewer than 40 archived states. Serializers, stores and the standard library are assumed not to panic on their arguments.",
"C30":"Decided for inputs of every content and length: all paths of the four CBC helpers, against AES-CBC as an uninterpreted permutation with its inverse.",
"C32":"Decided for every key, byte string and offset; the scalar multiplication itself is uninterpreted.",
"C11":"Decided for states with up to 5 chains and any number of kept keys; serializers as inverse functions over the fields they carry; chains' elements compared at an unknown index. Snapshots after the round trip agree on every getter.",
"C12":"Decided for every record with any number of kept keys and up to 5 sender key states.",
"C13":"Decided for every key, id, timestamp and signature; JSON and an unknown serializer.",
"C14":"Decided for every content of the four message kinds with JSON, ProtoBuf and an unknown serializer; encoding/json and proto are inverse functions over the fields their struct tags carry.",
"C29":"Decided for every decoded structure; an empty ciphertext and keys longer than 33 bytes are left open.",
"C17":"Decided for every message, record with up to 2000 states (the bound C10 proves) and iteration; signatures uninterpreted.",
"C18":"Decided for every record, message and iteration distance; HMAC and HKDF uninterpreted. Keys skipped by a jump are characterised per step by the loop's invariant.",
"C19":"Decided for every record, distribution message and outcome of the random source.",
"C22":"Decided for every generator, every range of prekey ids below 2^30 and every outcome of the random source.",
"C23":"Decided for every key, message and signature; the Edwards arithmetic and SHA-512 are uninterpreted, and the library's operations on them are compared with the XEdDSA computation term by term.",
"C24":"Decided for all fingerprints of at least 30 bytes.",
"C25":"Decided for every private key of 32 bytes and every content; envelope keys longer than 33 bytes are left open.",
"C28":"Decided for every input and every outcome of the random source, by comparing the completion calls with the synchronous call on the same random bytes. Goroutines run at the point where they start.",
"C20":"Decided for every content and length of the buffers, their spare capacity included, and every message; each write during the operation is compared with the memory of the inputs.",
"C21":"Decided for all that the analysed operations hand to the logger, standard output or an error text; a value is secret by what it was computed from. Sites that no operation reaches may show constants, numbers and errors only.",
"C27":"Interprocedural effects over the whole module: writes to package variables and, through methods, to objects of the kinds that sessions share. Setup and Configure of the logger are for the start of the program and exempt. Race freedom of an application's stores is not covered.",
"C37":"Decided for every state, record, message, bundle and text within the bounds of C10; signatures, MAC and cipher uninterpreted. Whether a record's state accepts is the unknown outcome of a trial (as in C07), which the same check decides for one state. A signature of 64 zero bytes is taken to be impossible.",
"C38":"Decided for all arguments; the pairs of setter and accessor are found by their names and types, the constructors are listed with the accessors that answer each parameter.",
"C34":"Static abstract interpretation of the SSA form in three levels: limbs as integer polynomials with intervals (exact values modulo 2^255-19 or the group order, no overflow), field elements as polynomials modulo the curve equation, and points as multiples of the base point with unknown digits. Every alias pattern. Comparisons of limbs fork the path; bounds that cannot then be settled are printed as undecided and not reported. FeIsNonZero, ToCached and ExtendedGroupElement.FromBytes are unused and not covered.",
"C35":"Taint analysis of source-level control flow, indices and comparisons over the SSA form, per function and combination of tainted parameters; what the compiler and the processor make of constant-time source is outside it, and so are the padding of decrypted text (checked after the MAC) and golang.org/x/crypto.",
"C36":"Decided for every content of the four message kinds of version 3; proto.Marshal is taken to write each field under the number and type of its struct tag. Messages with other low version bits decode to the same values; that their MAC or signature, made over another version byte, verifies is not claimed.",
"C33":"Decided for every call with an error result that can fail during the operations analysed; stand-ins of the analysis (a trial decryption) are left to C07 and C08. An operation without an error result must yield its zero value.",
}
NA={
}
