"""Source of properties.jsonl and MANIFEST.json: python tools/props.py (re)writes both."""
import json
import os

K = 'python/src/keyczar/'
KC, KEYS, UTIL, KD, KI = K + 'keyczar.py', K + 'keys.py', K + 'util.py', K + 'keydata.py', K + 'keyinfo.py'
RD, WR, KT, ER, IO = K + 'readers.py', K + 'writers.py', K + 'keyczart.py', K + 'errors.py', 'interop/interop.py'

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, level, level_note
P = []


def p(*a):
  P.append(a)


p('C01', 'Decrypting returns exactly the plaintext that was encrypted',
  'For every crypting key set (AES 128/192/256, RSA of every supported size), every byte string that fits the '
  'algorithm, every encoder/decoder pair and either AES library, decrypting what Encrypt returned gives back exactly '
  'the original byte string. This also holds when the encrypting version is no longer primary and when the data was '
  'encrypted with the exported public key set. A plaintext too long for an RSA key is refused with a KeyczarError, '
  'never truncated.',
  ['inputs', 'configurations'], 'all plaintexts x key sets x encoders x libraries',
  'testDecrypt-style tests encrypt one fixed sentence per key type; lengths, byte values, leading zeros in RSA '
  'integers and library combinations are not reached.',
  [KC, KEYS, UTIL], [('PKCS5 padding, CBC, HMAC trailer', KEYS + ' AesKey.Encrypt/Decrypt'),
                     ('OAEP encode/decode', KEYS + ' RsaPublicKey/RsaPrivateKey'),
                     ('header lookup of the decrypting key', KC + ' Crypter.Decrypt')],
  'round-trip monitor over generated workloads with an independent reference for short RSA encodings', 'exploration',
  'Every observed Encrypt/Decrypt pair is judged by equality; all lengths 0-300 and block/buffer edges are covered '
  'for each AES size and all fitting lengths for RSA; other lengths are sampled.')

p('C02', 'An altered ciphertext never decrypts',
  'If any byte of an AES ciphertext produced by a key set is changed, removed, inserted, reordered, taken from another '
  'ciphertext or relabelled with another key identifier, Decrypt raises a KeyczarError and returns no plaintext. This '
  'covers header, IV, every cipher block and every byte of the authentication tag, whatever the ciphertext length and '
  'the AES library in use. A changed RSA ciphertext, or one whose decrypted block is not a well-formed OAEP encoding, is '
  'refused in the same way (the same number with other leading zero bytes is not a change).',
  ['inputs'], 'all ciphertexts x all modifications of them',
  'Tests corrupt one position of one ciphertext; a check that skips some bytes, some lengths or cancelling changes '
  'passes them.',
  [KC, KEYS], [('HMAC over header, IV and cipher text checked before decryption', KEYS + ' AesKey.Decrypt'),
               ('constant time comparison of all tag bytes', KEYS + ' HmacKey.VerifySignedData'),
               ('OAEP label hash and delimiter', KEYS + ' RsaPrivateKey.__Decode')],
  'tamper workload with a rejection oracle on every mutant', 'exploration',
  'Exhaustive single-bit flips, truncations and byte edits on short ciphertexts; sampled on long ones, plus structured '
  'mutants (block moves, splices, cancelling tag changes, relabelled headers) and crafted OAEP blocks.')

p('C03', 'Streaming and one-shot encryption are interchangeable',
  'For every plaintext, however it is split into writes and however reads are sized, data written through an '
  'encrypting stream decrypts to the same plaintext with Decrypt, and data made by Encrypt or by an encrypting stream '
  'reads back completely and in order through a decrypting stream. A read of n characters returns at most n, an empty '
  'string only at the end, and sources that deliver short or temporarily no data do not change the result.',
  ['inputs', 'schedules'], 'all plaintexts x chunkings x read sizes x buffer sizes x source behaviours x encoders',
  'Tests stream a few fixed texts with a couple of buffer sizes; interactions of block, Base64 and tag boundaries with '
  'arbitrary chunkings are unbounded.',
  [KC, KEYS, UTIL], [('block buffering', KEYS + ' EncryptingStreamWriter, DecryptingStreamReader'),
                     ('incremental Base64', UTIL + ' IncrementalBase64WSStreamWriter/Reader')],
  'differential monitor of streams against one-shot calls and the reference, with adversarial stream sources', 'exploration',
  'All lengths 0-100 and edges with many chunkings; hostile sources (short reads, None, BlockingIOError) are injected. '
  'Sources keep returning None only finitely often.')

p('C04', 'A damaged stream never reads as complete',
  'When an AES ciphertext stream has been altered, truncated or extended in any way, reading the decrypting stream to '
  'its end raises a KeyczarError instead of reporting a normal end of data, and no later read of the same stream '
  'reports a normal end either. This holds for every read size, buffer '
  'size, encoding and position of the damage, including streams cut before the tag or inside the header or IV.',
  ['inputs', 'schedules'], 'all ciphertext streams x damage x ways of reading',
  'Tests read one stream with a wrong tag; truncation points and read-size dependent paths are not reached.',
  [KEYS], [('tag check at end of input, before the last block is released', KEYS + ' DecryptingStreamReader.read')],
  'tamper workload on streams with an end-of-data oracle', 'exploration',
  'Every truncation and single-byte change of short streams for several read sizes; sampled for long ones. Plaintext '
  'that was released before the end is reached is by design unauthenticated and not judged.')

p('C05', 'Every genuine signature verifies',
  'For every signing key set (HMAC-SHA1, DSA, RSA of each size), every message and every encoder, a signature made by '
  'Sign, AttachedSign or the unversioned signer is accepted by the corresponding verify operation on the same key set, '
  'on the exported public key set, and on any later state of the key set that still contains the signing version. '
  'AttachedVerify returns exactly the signed data.',
  ['inputs', 'histories'], 'all messages x key sets x signing modes x randomness',
  'Tests sign one sentence per key type; rare encodings (short r/s, leading zero bytes of an RSA signature, empty '
  'message or nonce) occur once in hundreds of signatures.',
  [KC, KEYS, UTIL], [('EMSA, DER and HMAC encoding', KEYS + ' Sign/Verify'), ('header lookup', KC + ' Verifier')],
  'sign/verify monitor with fault-injected randomness to reach rare encodings, cross-checked by an independent verifier', 'exploration',
  'Each signature is judged by keyczar and by the reference; rare encodings are forced by searching or stubbing '
  'randomness.')

p('C06', 'Only genuine signatures verify',
  'No verify operation accepts a signature that the key set did not make for exactly that message: any change of the '
  'message, of a significant byte of the signature, or of the key identifier, a signature of another key, a value '
  'outside the range of the algorithm, or an RSA block with malformed padding or digest is rejected (False, None or a '
  'KeyczarError). An accepted signature is always mathematically valid for the message under a key of the set.',
  ['inputs'], 'all messages x all candidate signatures',
  'Acceptance of forged values is a statement about all inputs; tests try one bad signature per type.',
  [KC, KEYS, UTIL], [('HMAC comparison', KEYS + ' HmacKey.VerifySignedData'),
                     ('full EMSA comparison', KEYS + ' RsaPublicKey.Verify'),
                     ('DSA equation and ranges', KEYS + ' DsaPublicKey.Verify')],
  'forgery workload judged by an independent mathematical verifier', 'exploration',
  'Mutated, spliced and specially crafted signatures (made with the private keys) are submitted; each acceptance is '
  'rechecked by the reference. Alternative encodings of the same valid integer are not counted as forgeries.')

p('C07', 'Attached signatures bind the exact data and nonce',
  'AttachedVerify returns data only if that data, unmodified and with the same boundaries, was signed together with '
  'exactly the given nonce; a different, missing, longer or shorter nonce, moved data/nonce boundaries, a changed '
  'length field, trailing data or a detached signature presented as attached yield None or a KeyczarError. The empty '
  'message and the empty nonce are as good as any other.',
  ['inputs'], 'all data x nonces x modifications of the blob',
  'Tests use one data/nonce pair; boundary confusion between data and nonce needs crafted pairs.',
  [KC, UTIL], [('length-prefixed nonce in the signed text', KC + ' Signer.AttachedSign, Verifier.AttachedVerify'),
               ('length-prefixed data', UTIL + ' PackByteArray, UnpackByteArray')],
  'pairwise confusion workload with a binding oracle', 'exploration',
  'All ordered pairs of a family of (data, nonce) values that share concatenations, plus mutations of every length '
  'byte; HMAC, RSA and DSA keys.')

p('C08', 'Outputs, key files and accepted inputs follow the Keyczar format',
  'Every ciphertext, signature, attached signature, key file and metadata file has the documented layout (version '
  'byte, 4-byte key identifier, IV, PKCS5/CBC, HMAC-SHA1; OAEP; PKCS1 v1.5 SHA-1; DER; web-safe Base64 without '
  'padding; JSON fields and names) so that an independent implementation reads it, and data and key sets made by an '
  'independent implementation in that layout are accepted. Key sets, ciphertexts and signatures shipped in the '
  'repository by the Java, C++ and Python implementations keep working.',
  ['inputs', 'configurations'], 'all outputs and all well-formed foreign inputs',
  'A change made consistently to both directions keeps every round-trip test green and silently breaks '
  'interoperability with other implementations and stored data.',
  [KC, KEYS, UTIL, KD], [('header', KC + ' Keyczar._ParseHeader, ' + KEYS + ' Key.Header'),
                         ('key JSON', KEYS + ' __str__/Read'), ('metadata JSON', KD)],
  'conformance monitor: strict independent decoder on outputs, independent encoder for inputs, golden data', 'exploration',
  'Reference implementation written from the format documentation (own AES, OAEP, DER); golden data from '
  'python/testdata, python/jtestdata, java and cpp.')

p('C09', 'Every use of randomness is fresh and unpredictable',
  'IVs, DSA nonces, OAEP seeds, session keys, session nonces and generated keys come in full length from the '
  'operating system\'s random source: they never repeat, every bit of them varies, and they do not depend on the '
  'state of seedable generators, on earlier calls, on the message, on being in a forked child, or on threads. '
  'Encrypting the same plaintext twice never gives the same ciphertext.',
  ['histories', 'schedules'], 'all sequences of operations, processes and threads',
  'A test sees two values; reuse after fork, partially constant or seed-dependent values look random in each run.',
  [UTIL, KEYS, KC], [('os.urandom', UTIL + ' RandBytes'), ('SystemRandom for DSA k', KEYS + ' DsaPrivateKey.Sign')],
  'freshness monitor over extracted random values, with reseeding, forks, threads and a substituted OS source', 'exploration',
  'The random values are recovered from outputs with the secret keys; statistics are set so that a false alarm has '
  'probability below 1e-12. Entropy of the OS source is trusted.')

p('C10', 'Tag comparison does not reveal where a forged tag differs',
  'When an HMAC tag is checked (signature verification, decryption, streaming decryption) the work done does not depend '
  'on how many leading bytes of a forged tag of the right length are correct or on which byte differs.',
  ['inputs'], 'all forged tags of the right length',
  'Results are identical for leaky and constant-time comparisons; only the execution differs.',
  [KEYS], [('full-length accumulation of differences', KEYS + ' HmacKey.VerifySignedData')],
  'execution-trace monitor: instruction trace and C-call trace compared across differing positions', 'exploration',
  'Counts bytecode instructions and watches comparison operands; data-dependent timing inside the interpreter and '
  'hardware effects are out of reach.')

p('C11', 'Key status changes follow the documented life cycle',
  'After any sequence of create, addkey, promote, demote and revoke (through the tool or the API) the key set is '
  'exactly what the documented rules give: at most one primary, a new version gets the highest number plus one, '
  'promote moves inactive to active to primary and turns the former primary into active, demote moves primary to active '
  'to inactive, only inactive versions can be revoked, and every other version, key and field is untouched. The state '
  'in memory and the state on disk agree.',
  ['histories'], 'all command sequences',
  'Tests run each command once or twice on a mock; the rules are about all histories.',
  [KC, KT, KD], [('AddVersion, Promote, Demote, Revoke', KC + ' GenericKeyczar'), ('commands', KT)],
  'history monitor: every step compared with an executable life-cycle model', 'exploration',
  'All command sequences up to a small length and long random ones, on every key type, on disk and in memory.')

p('C12', 'Rotation: new data uses the primary, old data works until revoked',
  'At every point of a key set\'s history, encrypting and signing use exactly the version that is primary at that '
  'moment and fail with a KeyczarError when there is none, and everything encrypted or signed earlier by a version still '
  'in the set decrypts and verifies whatever the version\'s present status. Data of a revoked version is refused with '
  'a KeyczarError and never attributed to another key.',
  ['histories'], 'all rotation histories x all data made along the way',
  'Tests use fixed two-version key sets; the guarantee ranges over histories.',
  [KC, KEYS], [('lookup by key identifier', KC + ' Keyczar.GetKey'), ('primary_key', KC)],
  'history monitor with a ledger of all data produced along the history', 'exploration',
  'Random histories with up to 20 versions, objects reopened from disk at every step and objects kept in memory.')

p('C13', 'Key sets survive storage; encrypted key sets need their key',
  'Writing a key set and reading it back yields the same versions, statuses, flags, name and key material, for plain and '
  'encrypted storage and any number of rewrites. The files of an encrypted key set contain no key material in '
  'recognisable form and are usable only through a reader with the right crypter; a wrong crypter, a missing '
  'crypter or a damaged encrypted key file is refused with a KeyczarError.',
  ['inputs', 'histories'], 'all key sets x names x storage histories',
  'Tests store one key set each; names with special characters, leading zero key bytes and mixed rewrites are not '
  'covered.',
  [KC, WR, RD, KD, KEYS], [('Write', KC + ' GenericKeyczar.Write'), ('FileWriter', WR), ('EncryptedReader', RD)],
  'storage monitor: files parsed by the reference after every write, secret scan of every file', 'exploration',
  'Secrets are searched in raw, Base64 (all alignments), hex and decimal form in every file written.')

p('C14', 'Public key export is complete, usable and reveals nothing private',
  'Exporting the public keys of an asymmetric key set yields a key set with the same name, version numbers, statuses '
  'and key identifiers and the matching public purpose, which encrypts to or verifies from the private set for every '
  'version and contains no private parameter in any form. Export of symmetric key sets is refused, and exporting '
  'changes nothing in the source key set, also not when its own location is named as the destination (refused).',
  ['inputs', 'configurations'], 'all asymmetric key sets x destinations',
  'Tests export one key set to a mock; leaking fields and mismatching versions go unnoticed.',
  [KC, KT, KEYS], [('PublicKeyExport', KC), ('public key JSON', KEYS)],
  'export monitor: reference parse, usability matrix, secret scan', 'exploration',
  'RSA and DSA, all purposes, 1-12 versions with mixed statuses, exported through tool and API.')

p('C15', 'Key sets are used only for their purpose',
  'An object that can encrypt, decrypt, sign or verify can be made from a key set only if the key set\'s purpose '
  'includes that operation, and otherwise construction raises a KeyczarError; in particular a public key set never '
  'yields a signer or a decrypting object, and signing keys never encrypt nor the other way round. A key set with two '
  'primaries or an unknown type, purpose or status is refused.',
  ['configurations'], 'all purposes x types x entry points',
  'Tests construct matching pairs; the refused combinations form a matrix over all entry points.',
  [KC, KI, KD], [('IsAcceptablePurpose', KC)],
  'full matrix of constructions with an allow-list oracle', 'exploration',
  'The matrix of purposes, types and entry points (constructor, Read, encrypted reader, session classes) is '
  'enumerated completely.')

p('C16', 'A crash or I/O error never leaves a broken key set',
  'If the process dies or a file system call fails at any moment during a key set command (create, addkey, promote, '
  'demote, revoke, public export, encrypted or not), the location afterwards holds a readable key set that is either the one '
  'before or the one after the command, and every key needed for previously protected data is intact. An I/O error is reported '
  'by an exception or a non-zero result, never as success.',
  ['crash_points', 'fault_sequences'], 'all file system operations of all commands x kill/error/short write',
  'Tests never interrupt a write.',
  [UTIL, WR, KC, KT], [('write to temporary file and rename', UTIL + ' WriteFile'),
                       ('keys before metadata', KC + ' GenericKeyczar.Write')],
  'fault injection at every file system call through a preloaded shim, with an old-or-new state oracle', 'fault_enumeration',
  'Every mutating libc call made by the command is failed or killed at, one at a time, including partial writes; '
  'power-loss reordering (missing fsync) is not modelled.')

p('C17', 'Refused commands change nothing and existing key sets are not overwritten',
  'A command or API call that is refused (wrong size, wrong status, unknown version, missing flag, wrong purpose, wrong '
  'crypter, unusable location) raises a KeyczarError or returns a non-zero result, leaves every file byte for byte as '
  'it was, creates no new file, and leaves the in-memory key set unchanged and usable. create never overwrites existing '
  'metadata.',
  ['histories', 'inputs'], 'all refused commands in all key set states',
  'Tests check that an exception is raised, not what was already changed by then.',
  [KT, KC, WR], [('checks before changes', KC + ' GenericKeyczar'), ('overwrite=False', WR + ' FileWriter')],
  'directory snapshots and in-memory state comparison around every refused command', 'exploration',
  'A catalogue of refusals is applied in every reachable state of generated key sets.')

p('C18', 'Hostile input yields only documented outcomes',
  'Whatever bytes are given as ciphertext, signature, attached signature, signed session message, Base64 text or '
  'ciphertext stream, the operation terminates promptly and either returns a documented result or raises a KeyczarError; '
  'it never raises an undocumented exception, hangs, or changes the state of the object. Later operations with the same '
  'object work as before.',
  ['inputs'], 'all byte strings',
  'Tests feed a few malformed values; parser paths for arbitrary bytes are unbounded.',
  [KC, KEYS, UTIL, ER], [('length and format checks', KC + ', ' + UTIL)],
  'fuzzing with an exception-class oracle, deadline and after-use probes', 'exploration',
  'Structure-aware mutations of genuine data and random bytes; inputs are str with code points below 256, sizes up '
  'to 100 kB.')

p('C19', 'Sessions connect exactly the intended parties and messages',
  'A session decrypter made from a session\'s material decrypts exactly the messages of that session to their '
  'plaintext; messages of other sessions are refused, also when many sessions are used interleaved. For signed sessions, '
  'data is returned only if it was sent in that session by the holder of the signing key; a changed message, another '
  'signer, another session\'s nonce or material gives None or a KeyczarError.',
  ['histories', 'inputs'], 'all interleavings of sessions x messages x modifications',
  'Tests run a single session; leaking state between sessions needs several.',
  [KC, UTIL], [('_Session', KC), ('nonce in attached signature', KC + ' SignedSessionEncrypter/Decrypter')],
  'multi-session ledger monitor with cross-delivery and tampering', 'exploration',
  'Up to 8 sessions interleaved, all cross deliveries judged; AES and RSA envelope keys, HMAC/DSA/RSA signers.')

p('C20', 'Key identifiers are stable, correct and unique',
  'A key\'s identifier depends only on its key material by the documented formula: it is the same before and after '
  'storing, for the private key and its exported public key, and for any representation with leading zero bytes, and it '
  'is the one in the header of everything the key produces. Within a key set all identifiers differ, even if a newly '
  'generated key happens to collide with an existing one.',
  ['inputs', 'configurations'], 'all keys',
  'Tests compare a few known identifiers; collisions never happen by chance.',
  [KEYS, UTIL, KC], [('_Hash', KEYS), ('retry on collision', KC + ' GenericKeyczar.AddVersion')],
  'identifier monitor against the reference formula, collisions forced by a substituted random source', 'exploration',
  'Keys with unusual shapes (leading zeros, high bits) of all types; collisions are forced by replaying randomness.')

p('C21', 'Encodings are exact inverses',
  'For all byte strings, Base64 web-safe encoding and decoding are inverse, independent of how the text is split when done '
  'incrementally, and tolerant of whitespace and line breaks in one-shot decoding; byte-array packing, integer/byte/bit '
  'conversions, DSA signature encoding and PKCS8/X509 export and import are inverse on their whole domain. Malformed '
  'Base64 length and truncated packed data raise a KeyczarError.',
  ['inputs'], 'all byte strings, integers and keys',
  'Tests convert a few values.',
  [UTIL], [('Base64WSEncode/Decode', UTIL), ('Pack/UnpackByteArray', UTIL), ('Export*/Parse*', UTIL)],
  'inverse and reference monitors over exhaustive small and generated large domains', 'exploration',
  'All byte strings up to length 2, all lengths up to 300, integers at all byte boundaries.')

p('C22', 'Generated keys are valid and of the requested strength',
  'A key generated for a supported size has exactly that size in its material (all bytes random and used), recorded size and modulus, is mathematically '
  'valid (primes, exponents, CRT values, DSA group), works at once and after being stored, and defaults to the documented '
  'default size; an unsupported size is refused with a KeyczarError for every type, and public types cannot be generated.',
  ['inputs', 'configurations'], 'all types x sizes x randomness',
  'Tests generate one key per type and compare the recorded size only.',
  [KEYS, KI, KC], [('Generate', KEYS), ('IsValidSize', KI)],
  'validity monitor on generated keys with reference arithmetic', 'exploration',
  'Many keys per type and size; sizes 0-4200 tried for refusal.')

p('C23', 'The interop matrix covers every combination that is not ignored',
  'For any configuration of implementations, operations, algorithms, options and ignore rules, the tests that the interop '
  'runner generates and displays are exactly the full product of generating implementation, operation, key set, options, '
  'testing implementation and test options, minus those that match an ignore rule completely; none is lost, '
  'duplicated or mixed up.',
  ['configurations', 'programs'], 'all configurations',
  'Unit tests use one small configuration and mocks.',
  [IO], [('_GenerateAll, _TestAll, _Options, _IsException', IO)],
  'differential monitor: generated matrices against an independent product model', 'exploration',
  'Random configurations plus the shipped one.')

p('C24', 'The interop runner reports success only if every test passed',
  'The interop runner creates every key set the tests need, passes every generated output unchanged, with the right '
  'key path, options and test data, to the testing implementation, and reports success exactly if every generate and test '
  'call succeeded; any failing implementation call is visible as a failure in result and exit status. Emptying a key '
  'directory removes only plain files directly in it.',
  ['fault_sequences', 'configurations'], 'all configurations x failing calls',
  'Unit tests mock the implementations away.',
  [IO], [('_CallImplementation, _Generate, _Test, RunTests, main', IO)],
  'scripted stand-in implementations log every call; offline checker over the call log', 'exploration',
  'The stand-ins are real subprocesses whose failures are injected per call; everything runs in a scratch directory.')

p('C25', 'Custom storage back ends get exactly the documented calls',
  'A reader or writer class found through KEYCZAR_BACKEND_PATHS, or subclassed by the program, is used for exactly the locations it accepts '
  'by every entry point, receives the keys and metadata of the key set it serves, and leaves file locations to the file '
  'back end; keys are written before the metadata that lists them. Readers and writers opened by the tool are closed, also when a command fails, and a location that no back end accepts is '
  'refused with a KeyczarError.',
  ['configurations', 'histories'], 'all entry points x commands x outcomes',
  'Tests load one plugin for one entry point.',
  [RD, WR, UTIL, KC, KT], [('CreateReader/CreateWriter', RD + ', ' + WR), ('ImportBackends', UTIL)],
  'recording back end with an online protocol checker', 'exploration',
  'An in-memory back end records all calls of all entry points and commands, with injected failures.')

p('C26', 'Results do not depend on other threads or earlier calls',
  'Operations on one key set object give correct results when issued from many threads at once, when objects of several '
  'key sets are used alternately, and after any earlier successful or failed operation; two streams or sessions of one '
  'object never influence each other.',
  ['schedules', 'histories'], 'all interleavings of operations',
  'Tests are single threaded and use one object each.',
  [KC, KEYS, UTIL], [('no shared mutable state in operations', KEYS), ('Memoize', UTIL)],
  'stress with forced thread switches, each result judged individually', 'exploration',
  'Thread switch interval of microseconds and trace-injected yields; distinct interleavings are counted.')

p('C27', 'Secrets appear only where the interface puts them',
  'Key material appears only in the key files of a plain key set, in the JSON form (str) of a key object and in session material '
  'after decryption, and plaintext only in the result of decrypting. No ciphertext, '
  'signature, session material, metadata, exported public key, representation (repr) of an object, exception message, '
  'warning, log record or text printed by the tool contains them in raw, hexadecimal, decimal, Base64 or escaped form, '
  'whether the operation succeeds or is refused, and also if key files or messages are damaged. '
  'Operations write no files outside the given locations and start no processes or connections.',
  ['inputs', 'fault_sequences'], 'all operations x keys x failures',
  'Tests look at results, not at error texts or output, and never search them for the keys in use.',
  [KC, KEYS, KT, 'python/src/keyczar/errors.py'], [('exception texts', KEYS + ', ' + 'python/src/keyczar/errors.py'), ('printed messages', KT)],
  'secret search (as a taint sanitizer would) over everything an operation shows, with audit hooks for files, processes and sockets', 'exploration',
  'Every operation of every key type, successful and refused; key files damaged field by field; the search is validated on '
  'positive controls in every case.')

p('C28', 'A refused ciphertext does not tell what it would have decrypted to',
  'Forged ciphertexts of one length for one key are all refused with the same kind of exception and the same text, '
  'whatever they would decrypt to: for AES regardless of padding and of which part was altered, for RSA regardless of the leading bytes '
  'and of the label of the decrypted block. This holds for Decrypt, streams, session messages, session material and encrypted key '
  'sets, so that none of them is an oracle for adaptive attacks (Vaudenay, Manger).',
  ['inputs'], 'all forgeries x ways of decrypting',
  'Tests check that one altered ciphertext is refused, not that all refusals look alike.',
  [KEYS, KC], [('tag check before decryption', KEYS + ' AesKey.Decrypt'), ('OAEP decoding', KEYS + ' RsaPrivateKey.__Decode')],
  'outcome comparison over forgeries that are constructed with the private key to decrypt to chosen blocks', 'exploration',
  'Valid and invalid paddings set bit by bit through the previous block; RSA blocks with zero, several zero and other '
  'leading bytes, multiples of genuine ciphertexts. Timing is not judged.')

p('C29', 'Long-running use does not accumulate memory, files or threads',
  'Repeating any operation, successful or refused, with the same or ever new messages, sessions, streams and key set objects that are '
  'dropped afterwards leaves memory, open files and threads at a level that does not depend on the number of '
  'repetitions; what a large message occupied is released; a stream of any length passes through memory that does not '
  'grow with its length when it is written and read in pieces; and open key set objects hold no files.',
  ['histories', 'inputs'], 'all operations x numbers of repetitions',
  'Tests run each operation once.',
  [KC, KEYS, UTIL, RD, WR], [('crypter of a session', KC + ' _Session'), ('stream buffers', KEYS), ('files closed', RD + ', ' + WR)],
  'leak monitor: allocator tracing over growing phases of repetitions, descriptor and thread counts', 'exploration',
  '27 operations with both AES libraries, phases are lengthened until memory is level, so that caches of limited size '
  'are not mistaken for leaks.')

p('C30', 'No input makes the C++ library crash, corrupt memory, leak or throw',
  'Every call of the C++ library and its tool returns, and refuses what it cannot process through its ordinary result '
  '(false, NULL): for no message, ciphertext, signature, attached signature, session material, compressed data, Base64 or JSON text, '
  'key file, metadata file, PEM file or command line, however malformed, truncated or altered, does it read or write outside its objects, overflow an integer, '
  'use freed memory, abort the process, let an exception escape, or lose memory.',
  ['inputs', 'fault_sequences'], 'all byte strings as messages, files and arguments',
  'Tests decode a few good inputs, without sanitizers.',
  ['cpp/src/keyczar/keyczar.cc', 'cpp/src/keyczar/aes_key.cc', 'cpp/src/keyczar/base/base64w.cc', 'cpp/src/keyczar/base/json_reader.cc', 'cpp/src/keyczar/base/zlib.cc',
   'cpp/src/keyczar/keyset_metadata.cc', 'cpp/src/keyczar/session.cc', 'cpp/src/keyczar/openssl/', 'cpp/src/keyczar/keyczar_tool/keyczar_tool.cc'],
  [('length checks', 'cpp/src/keyczar/aes_key.cc, cpp/src/keyczar/keyczar.cc'), ('ownership (scoped_ptr)', 'cpp/src/keyczar/openssl/'),
   ('validation of metadata and key files', 'cpp/src/keyczar/keyset_metadata.cc, cpp/src/keyczar/key.cc')],
  'compiler sanitizers (address, leak, undefined behaviour) on the library built from the working tree, under hostile inputs', 'exploration',
  'Every entry point of the public interface and the tool; every length below 70 and at block boundaries, length fields at their limits, '
  'structural and byte-wise edits of every file; controls show that each sanitizer reports.')

CPP = 'cpp/src/keyczar/'
p('C31', 'The C++ library round-trips data and speaks the shared formats',
  'For every key set, message, encoding and compression, decrypting in the C++ library returns exactly what was encrypted and verifying accepts '
  'what was signed (plain, attached and unversioned signatures, sessions); what it writes conforms to the published Keyczar formats - header with '
  'version byte and the id of the primary key, AES-CBC with fresh IV and HMAC, RSA-OAEP, HMAC/RSA/DSA/ECDSA signatures over message and format byte - '
  'and it reads everything an independent implementation of these formats writes, under any version of the set. Without a primary key, or with a message too long for RSA, it refuses.',
  ['inputs', 'configurations'], 'all messages x key sets x encodings x compressions',
  'Tests use one short sentence and the stored data of a few key sets.',
  [CPP + 'keyczar.cc', CPP + 'aes_key.cc', CPP + 'hmac_key.cc', CPP + 'rsa_private_key.cc', CPP + 'dsa_private_key.cc', CPP + 'ecdsa_private_key.cc', CPP + 'session.cc', CPP + 'openssl/', CPP + 'base/zlib.cc'],
  [('encryption and signing with the primary key', CPP + 'keyczar.cc'), ('compression', CPP + 'base/zlib.cc'), ('sessions', CPP + 'session.cc'), ('key ids', CPP + 'key.cc')],
  'monitor comparing every result with an independent implementation of the formats, in both directions, on the sanitized library', 'exploration',
  'Key sets of every kind, number and status; messages of every length to 70 and at block and buffer edges, zeros leading RSA and DSA numbers included.')

p('C32', 'The C++ library accepts no altered ciphertext and no forged signature',
  'The C++ library returns a plaintext only for a ciphertext made with a key of the set, unaltered, and accepts a signature only for exactly the '
  'message (and hidden data) it was made for, by a key of the set: a changed, cut, extended or spliced ciphertext or signature, one by '
  'another key, by another kind of key under the same id, for another message or with another format version is refused, and so is signed session material that was altered.',
  ['inputs'], 'all alterations of all ciphertexts, signatures and session materials',
  'Tests alter one byte of one message, if any.',
  [CPP + 'keyczar.cc', CPP + 'aes_key.cc', CPP + 'hmac_key.cc', CPP + 'session.cc', CPP + 'openssl/'],
  [('HMAC checked before decrypting', CPP + 'aes_key.cc'), ('signed bytes end with the format byte', CPP + 'keyczar.cc'), ('key chosen by header', CPP + 'keyset.cc')],
  'monitor judging every acceptance against the record of genuine messages, under systematic and random alterations', 'exploration',
  'All single-bit changes of one message per kind of key, and cuts, extensions, splices and substitutions at random; encodings that denote the same '
  'number (RSA, DSA) or the same bytes (Base64) are not counted as forgeries.')

p('C33', 'The C++ tool keeps key sets valid through any history of commands',
  'Through any sequence of create, addkey, promote, demote, revoke, pubkey, importkey and exportkey commands of the C++ tool, on plain, crypted or password-encrypted key '
  'sets, the stored set follows the documented life cycle: at most one primary, statuses change only as asked, new keys are fresh and of the asked size, '
  'only inactive keys can be revoked and their key files go, nothing else changes, and data made under any key still in the set stays readable. A '
  'refused command changes nothing. Secrets are stored only in the chosen form, exported public sets contain none. Success is reported only if the set was written.',
  ['histories', 'fault_sequences'], 'all sequences of commands, with write failures',
  'Tests run a few commands on one set each.',
  [CPP + 'keyczar_tool/keyczar_tool.cc', CPP + 'keyset.cc', CPP + 'keyset_metadata.cc', CPP + 'rw/', CPP + 'openssl/pbe.cc'],
  [('status changes', CPP + 'keyset.cc'), ('observers that write the changes', CPP + 'rw/keyset_file_writer.cc'), ('encrypted key files', CPP + 'rw/keyset_encrypted_file_writer.cc')],
  'model of the life cycle run beside the real tool; the files are re-read by an independent implementation after every command', 'exploration',
  'Random histories of up to 60 commands over every kind of key and storage, refused commands and unwritable files included. Crash consistency of the C++ tool is not claimed.')


JAVA = 'java/code/src/org/keyczar/'
p('C34', 'The Java library round-trips data and speaks the shared formats',
  'For every key set, message and text, decrypting in the Java library returns exactly what was encrypted and verifying accepts what was signed (plain, attached, unversioned and '
  'timeout signatures; signed and plain sessions; byte arrays, byte buffers and strings, in any platform character set); what it writes conforms to the published Keyczar formats and '
  'it reads everything an independent implementation of these formats writes, under any version of the set. A timeout signature is accepted until its time and not after it. '
  'Without a primary key, or with a message too long for RSA, it refuses.',
  ['inputs', 'configurations'], 'all messages x key sets x forms of input',
  'Tests use short sentences and the stored data of a few key sets.',
  [JAVA + 'Encrypter.java', JAVA + 'Crypter.java', JAVA + 'Signer.java', JAVA + 'Verifier.java', JAVA + 'Timeout*.java', JAVA + 'Unversioned*.java', JAVA + '*Session*.java', JAVA + '*Key.java', JAVA + 'util/'],
  [('encryption and signing with the primary key', JAVA + 'Encrypter.java'), ('attached signatures', JAVA + 'Signer.java'), ('sessions', JAVA + 'SignedSessionEncrypter.java'), ('Base64 and packing', JAVA + 'util/')],
  'monitor comparing every result with an independent implementation of the formats, in both directions, on the real library in a JVM', 'exploration',
  'Key sets of every kind, number and status; messages of every length to 70 and at block and chunk edges, zeros leading RSA and DSA numbers included. '
  'The identifiers of AES keys of 192 and 256 bits, which Java computes as for 128 bits (documented in interop/config/ignoredTests.json), are taken as Java has them.')

p('C35', 'The Java library accepts no forgery and answers malformed input cleanly',
  'The Java library returns a plaintext only for a ciphertext made with a key of the set, unaltered, and accepts a signature only for exactly the message (and hidden data, and expiry) '
  'it was made for, by a key of the set, also when another object of the process holds a key of the same id; altered signed session material is refused. Whatever bytes or text '
  'it is given - truncated, random, with wild lengths - it answers with a result, false or a KeyczarException, never with another exception or error.',
  ['inputs'], 'all alterations of all ciphertexts, signatures and session materials; all byte strings',
  'Tests alter one byte of one message, if any.',
  [JAVA + 'Crypter.java', JAVA + 'Verifier.java', JAVA + 'UnversionedVerifier.java', JAVA + 'TimeoutVerifier.java', JAVA + 'StreamCache.java', JAVA + '*Session*.java', JAVA + 'util/Base64Coder.java', JAVA + 'util/Util.java'],
  [('HMAC checked before the plaintext is given out', JAVA + 'Crypter.java'), ('signed bytes end with the format byte', JAVA + 'Verifier.java'), ('cached streams', JAVA + 'StreamCache.java')],
  'monitor judging every acceptance against the record of genuine messages, and every exception by its type, under systematic and random alterations and hostile input', 'exploration',
  'All single-bit changes of one message per kind of key, and cuts, extensions, splices and substitutions at random; encodings that denote the same '
  'number (DSA) or the same bytes (Base64) are not counted as forgeries. Damaged key files, whose RuntimeException is documented nowhere, are not judged by their exception.')

p('C36', 'Objects of the Java library can be shared by threads',
  'When many threads use the same Encrypter, Crypter, Signer, Verifier, TimeoutSigner, UnversionedSigner or session objects of the Java library at once, or open key sets at once, every operation gives the '
  'result it gives alone: ciphertexts and signatures are well formed and made with the primary key, with their own random values, what is genuine is accepted and what is altered is refused.',
  ['schedules', 'inputs'], 'all interleavings of operations on shared objects',
  'Tests run two threads once, on encryption only.',
  [JAVA + 'StreamCache.java', JAVA + 'StreamQueue.java', JAVA + 'Encrypter.java', JAVA + 'Crypter.java', JAVA + 'Signer.java', JAVA + 'Verifier.java', JAVA + 'util/Util.java'],
  [('queues and caches of streams', JAVA + 'StreamCache.java'), ('queues of digests and random generators', JAVA + 'util/Util.java')],
  'monitor judging every result of mixed requests executed in 2 to 16 threads against an independent implementation of the formats', 'exploration',
  'Some 200000 operations per quick run; interleavings are those that the scheduler gives.')

p('C37', 'The Java tool keeps key sets valid through any history of commands',
  'Through any sequence of create, addkey, promote, demote, revoke, pubkey, importkey, exportkey and usekey commands of the Java tool, on plain or encrypted key '
  'sets, with any name and location, the stored set follows the documented life cycle: at most one primary, statuses change only as asked, new keys are fresh and of the asked size, '
  'only inactive keys can be revoked and their key files go, nothing else changes, and data made under any key still in the set stays readable. A '
  'refused command says so and changes nothing. Secrets are stored only in the chosen form, in files only the owner can read; exported public sets contain none.',
  ['histories', 'fault_sequences'], 'all sequences of commands, with write failures',
  'Tests run a few commands on one set each.',
  [JAVA + 'KeyczarTool.java', JAVA + 'GenericKeyczar.java', JAVA + 'KeyMetadata.java', JAVA + 'KeyczarFileReader.java', JAVA + 'PkcsKeyReader.java', JAVA + 'DefaultKeyType.java'],
  [('status changes', JAVA + 'GenericKeyczar.java'), ('flags and commands', JAVA + 'KeyczarTool.java'), ('PEM files', JAVA + 'PkcsKeyReader.java')],
  'model of the life cycle run beside the real tool; the files are re-read by an independent implementation after every command', 'exploration',
  'Random histories of up to 60 commands over every kind of key and storage, refused commands, odd names and locations and unwritable files included. Crash consistency of the Java tool is not claimed.')

p('C38', 'Implementations accept each other\'s outputs, and interop tests fail when due',
  'For every operation, algorithm, encoding and storage that the interop configuration does not ignore and every ASCII text: what one of Python, C++ and Java generates with a key set made '
  'by any of them follows the published formats and is accepted by the test command of the other two, with signer or verifier, private or public set. A test or generate command '
  'of the C++ and Java interop programs ends with a non-zero status whenever it cannot be carried out or its data do not hold: altered, cut or empty output, other text, '
  'other keys, missing key sets, unknown operations or options (what an attached signature says is not compared by Java).',
  ['inputs', 'histories'], 'all combinations of makers, generators and testers, with all texts and alterations',
  'Tests of one implementation never see another; the interop runner uses one text and never an output that has to be refused.',
  ['cpp/src/keyczar/interop/operation.cc', JAVA + 'interop/Interop.java', JAVA + 'interop/operations/Operation.java', 'python/src/keyczar/keyczar.py', 'interop/README.md'],
  [('operations of the C++ program', 'cpp/src/keyczar/interop/operation.cc'), ('operations of the Java program', JAVA + 'interop/operations/SignOperation.java')],
  'the real programs (C++ under sanitizers) run on each other\'s outputs and on altered ones; an independent implementation judges every output', 'exploration',
  'Every operation, algorithm and storage per run, each with all pairs of generator and tester; alterations, texts and options are drawn. RSA 4096 is left out. '
  'Creating key sets through the C++ program is a known finding.')

p('C39', 'C++ and Java open key sets only for their purpose and with their key',
  'In the C++ and Java libraries an object that encrypts, decrypts, signs or verifies is made from a key set only if the purpose of the set includes that, whatever its type and storage; a set with '
  'two primary keys or an unknown type or purpose is refused. An encrypted key set opens only through the crypter it was written with: without a crypter, with another one, with the wrong '
  'password, with a key file that was altered, or with a plain key file in place of an encrypted one it is refused. A set that can be opened works, with every key in it, and new data are made with its primary key only.',
  ['inputs', 'configurations'], 'all classes, types, purposes, statuses and storages, all damage to key files',
  'Tests open a few valid sets and hardly any that has to be refused.',
  [JAVA + 'Keyczar.java', JAVA + 'KeyczarEncryptedReader.java', JAVA + 'Crypter.java', JAVA + 'Signer.java', 'cpp/src/keyczar/keyczar.cc', 'cpp/src/keyczar/keyset.cc', 'cpp/src/keyczar/rw/keyset_encrypted_file_reader.cc'],
  [('purposes', 'cpp/src/keyczar/keyczar.cc'), ('purposes and primaries', JAVA + 'Keyczar.java'), ('encrypted key files', 'cpp/src/keyczar/rw/keyset_encrypted_file_reader.cc')],
  'every combination is opened for real (C++ under sanitizers) and what opens is exercised; an independent implementation makes the sets and judges the results', 'exploration',
  'The matrix of classes, types, purposes, statuses and storages is complete in every run; damage to key files is drawn. Damage to files stored with a password is not judged: that format has no authenticator.')


p('C40', 'Java reads keys from certificates and PKCS8 files and keeps their padding',
  'A key that the Java implementation takes from an X.509 certificate or a PKCS8 file (PEM or DER, encrypted or not), through its readers or with importkey, is the key in the file: it '
  'encrypts, decrypts, signs and verifies as the file\'s owner would, and importkey writes these numbers, with the status asked for. RSA keys use the padding asked for (OAEP unless PKCS is given) and the identifier '
  'that belongs to it, and keep it through every later command, also when imported, generated, exported as public keys or mixed in one set. A wrong passphrase, an unusable file, an RSA padding for a DSA '
  'key, or a DSA key for a set that encrypts is refused and changes nothing.',
  ['inputs', 'histories'], 'all keys, file forms, passphrases and paddings, all histories of tool commands',
  'Tests import a handful of fixed files and hardly look at what was written.',
  [JAVA + 'X509CertificateReader.java', JAVA + 'PkcsKeyReader.java', JAVA + 'enums/RsaPadding.java', JAVA + 'RsaPublicKey.java', JAVA + 'RsaPrivateKey.java', JAVA + 'KeyczarTool.java', JAVA + 'KeyczarKey.java'],
  [('certificates', JAVA + 'X509CertificateReader.java'), ('PKCS8 files', JAVA + 'PkcsKeyReader.java'), ('paddings and identifiers', JAVA + 'enums/RsaPadding.java')],
  'the real readers and tool work on files that an independent implementation and OpenSSL write; the reference decrypts, encrypts, signs and verifies against them and reads what they leave on disk', 'exploration',
  'Keys, forms and histories are drawn. Messages with PKCS1 padding that were altered are not judged: that padding has no integrity. Encrypted PKCS8 files use PBE-SHA1-3DES.')


def main():
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  import importlib
  import sys
  sys.path.insert(0, root)
  with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for (i, title, st, over, qt, why, files, mech, tech, level, note) in P:
      assert len(title) <= 80, title
      f.write(json.dumps({
          'id': i, 'title': title, 'statement': st,
          'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
          'anchors': {'files': files,
                      'mechanism': [{'name': a, 'where': b} for a, b in mech],
                      'hook_needed': None}}) + '\n')
  checks, na = [], []
  for (i, title, st, over, qt, why, files, mech, tech, level, note) in P:
    if os.path.exists(os.path.join(root, 'checks', i.lower() + '.py')):
      checks.append({'property': i, 'quick_cmd': 'bash run.sh %s quick' % i,
                     'thorough_cmd': 'bash run.sh %s thorough' % i,
                     'evidence_file': 'evidence/%s.json' % i,
                     'technique': 'runtime monitoring: ' + tech, 'level': level, 'level_note': note})
    else:
      na.append({'property': i, 'reason': 'check not built yet'})
  with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
               'not_applicable': na,
               'notes': 'No hooks in /repo: all monitors attach from outside. See DESIGN.md.'}, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
