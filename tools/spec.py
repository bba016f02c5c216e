"""Regenerates properties.jsonl and MANIFEST.json from one table.
usage: python3 tools/spec.py     (run in /verif)"""
import json
import os

S = 'python/src/keyczar/'
PROPS = []
NA = {}


def P(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    PROPS.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=[f if '/' in f else S + f for f in files.split()],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


P('C01', 'Decryption releases plaintext only after the MAC over everything matched',
  'Decrypting an AES ciphertext returns plaintext only if its header names a key of the set and its trailing HMAC-SHA1 tag, computed with that key\'s own HMAC key over the header, the IV and all of the ciphertext body, matches. In every other case (truncated, unknown header or version byte, any altered byte, misaligned body, wrong key) a Keyczar error is raised and neither plaintext nor a padding verdict is released.',
  'inputs', 'every byte string given to Decrypt, of every length, for every AES key set',
  'The 20 stable tests only exercise the interop harness; the Python crypto unit tests cannot run in this environment and sample a few bit flips.',
  'keys.py keyczar.py', [('AesKey.Decrypt', 'keys.py'), ('Crypter.Decrypt', 'keyczar.py'), ('HmacKey.Verify', 'keys.py')],
  ['return value / exception of Crypter.Decrypt'])

P('C02', 'Stream decryption is authenticated, complete, and independent of chunking',
  'A decrypting stream returns, over any sequence of reads, exactly the plaintext that whole-message decryption of the same bytes would give; a stream that is truncated, altered, or carries a bad header or MAC ends in a Keyczar error, never in a silent end of file. An encrypting stream produces, however the data is split over writes, one well-formed ciphertext of all the data written, with a single header, a fresh IV and a final MAC, and a closed stream cannot be used again.',
  'inputs histories', 'every stream content, every split into reads and writes, every short or empty read of the underlying stream',
  'Chunk boundaries, short reads and truncation points form an unbounded space; tests use a few sizes.',
  'keyczar.py keys.py util.py', [('EncryptingStreamWriter / DecryptingStreamReader', 'keyczar.py'), ('AesKey.__initEncrypt, _AesEncryptingStream', 'keys.py')],
  ['bytes written to the output stream', 'bytes returned by Read'])

P('C03', 'What is encrypted decrypts to the same message, in the documented format',
  'For every message and every AES key size, decrypting what was encrypted returns the original message, and the ciphertext is header, IV, CBC body with 1 to 16 bytes of PKCS#5 padding, then a 20-byte MAC over all that precedes it. Ciphertexts of that format made by another implementation decrypt too, whichever crypto back end is installed.',
  'inputs configurations', 'every message of every length, each AES key size, with PyCrypto alone and with M2Crypto present',
  'Message lengths modulo the block size and key sizes multiply; one fixed test string is all tests try.',
  'keys.py keyczar.py', [('AesKey.Encrypt/Decrypt, _Pad/_UnPad', 'keys.py'), ('EvpAesCipher', 'keys.py')], ['ciphertext bytes'])

P('C04', 'All secrets, IVs and nonces are fresh draws from the system random source',
  'Every generated key is drawn in full from the operating system\'s cryptographic random source (or a generator seeded only by it), at the size recorded for the key. Each encryption, session and DSA signature uses newly drawn random values of the full size that are never reused, derived from the data, or replaced by constants.',
  'inputs histories', 'every key type and size, every sequence of encryptions and signatures',
  'Weak or repeated randomness is invisible to functional tests: round trips still pass.',
  'keys.py keyczar.py util.py', [('GenKey / Generate', 'keys.py'), ('RandBytes', 'util.py')], ['calls to the random source and where their results flow'])

P('C05', 'New data is protected with the primary key and only with it',
  'Encrypting and signing (streaming, attached and unversioned forms included) use exactly the one primary version of the key set and carry that version\'s header. Without a primary version they raise the no-primary-key error and produce no output.',
  'inputs configurations', 'every key set of up to three versions and every assignment of statuses and version numbers, every message',
  'Tests use fixed two-version key sets with one primary.',
  'keyczar.py keydata.py', [('Keyczar.primary_key use in Encrypt/Sign', 'keyczar.py'), ('primary_version', 'keyczar.py')], ['header and key of the output'])

P('C06', 'Every non-revoked key of a set stays usable, found by its header',
  'Decryption and verification select precisely the key of the set whose identifier and format version the header carries, whatever its status and position in the set. A header that names no key of the set, or a wrong format version, or input shorter than a header, is refused with the corresponding Keyczar error.',
  'inputs configurations', 'every key set (statuses, order, key types), every header',
  'The product of statuses, positions and headers is not sampled; unknown headers are tried once.',
  'keyczar.py keys.py', [('Keyczar._AddKey / GetKey', 'keyczar.py'), ('_ParseHeader', 'keyczar.py')], ['which key object is used'])

P('C07', 'Verification accepts exactly the signatures the key set produced',
  'Every signature made by a set verifies for the same message (plain, attached with its nonce, and unversioned forms), and verification returns true only if the signature was made over exactly that message (plus the format version byte and the nonce, where the form has them) by a key of the set. Any other input makes it return false or nothing, or raise a Keyczar error, never another error; an attached message is released only if its signature is good.',
  'inputs', 'every message, nonce and signature string; every signing key type',
  'Forgery resistance, field confusion and malformed inputs quantify over all byte strings.',
  'keyczar.py keys.py util.py', [('Verifier.Verify / AttachedVerify / UnversionedVerifier', 'keyczar.py'), ('ParseDsaSig', 'util.py')], ['boolean / exception of Verify'])

P('C08', 'A key set can only be used for the purpose it was created for',
  'Opening a key set for signing, verifying, encrypting or decrypting succeeds only if its stored purpose allows that operation; otherwise a Keyczar error is raised before any cryptographic operation. Interfaces for the restricted purposes offer no broader operation, and public keys cannot sign or decrypt.',
  'configurations', 'every purpose, including unknown ones, against every class that opens key sets',
  'Tests try single accepted combinations.',
  'keyczar.py keyinfo.py', [('IsAcceptablePurpose', 'keyczar.py')], ['exception on opening'])

P('C09', 'Version lifecycle: legal status moves only, at most one primary, distinct ids',
  'Under any sequence of add, promote, demote and revoke, a key set keeps at most one primary version, distinct version numbers that are never taken by two live versions, and distinct key identifiers. Promotion moves scheduled-for-revocation to active to primary (demoting the former primary to active), demotion does the reverse, illegal moves and unknown versions raise a Keyczar error, and an operation that fails leaves the set as it was.',
  'histories fault_sequences', 'every sequence of operations from every state, including failures of key generation',
  'Histories are unbounded; tests run a handful of fixed ones.',
  'keyczar.py keydata.py', [('AddVersion, Promote, Demote', 'keyczar.py'), ('KeyMetadata', 'keydata.py')], ['metadata after each operation'],
  [('metadata versions', 'statuses and numbers of all versions', 'keydata.py')])

P('C10', 'Revocation removes the key everywhere, and only revocable keys',
  'Only a version that is scheduled for revocation can be revoked; afterwards the version is gone from the metadata, its key can neither decrypt nor verify nor be written out again, and its stored key file is removed. No other version is affected, and a refused revocation changes nothing in memory or on disk.',
  'histories configurations', 'every key set and version number, existing or not',
  'Requires combining status, memory and disk states; tests check one case in memory.',
  'keyczar.py keyczart.py writers.py', [('GenericKeyczar.Revoke', 'keyczar.py'), ('Revoke command', 'keyczart.py')], ['metadata, key table, files'])

P('C11', 'Keys of an encrypted key set never reach storage in the clear',
  'When a key set is written with an encrypter, every key file holds only the encryption of the key text and the metadata is marked encrypted; no key material appears in any file, error or printed line. Reading such a set works only through a reader holding the matching decrypter, and yields the original keys; a set written without encrypter is marked as not encrypted.',
  'inputs configurations', 'every key type and key set written with and without an encrypter',
  'A leak does not change any functional result.',
  'keyczar.py writers.py readers.py keyczart.py', [('GenericKeyczar.Write', 'keyczar.py'), ('FileWriter.WriteKey', 'writers.py'), ('EncryptedReader', 'readers.py')], ['file contents'])

P('C12', 'Stored keys and metadata read back as exactly what was written',
  'For every key type and size, and every metadata with any versions, statuses, name and flags, reading the stored text gives an equal object: same key material, size, identifier, statuses, numbers, purpose and type. Stored text that names an unknown type, status, purpose or cipher mode is refused with a Keyczar error, and text that lacks a field of its format is refused rather than read as something else.',
  'inputs', 'every key value and every metadata',
  'Key values include leading-zero and boundary cases that random test keys practically never hit.',
  'keydata.py keys.py keyczar.py util.py', [('KeyMetadata.Read / __str__', 'keydata.py'), ('Key.Read / __str__', 'keys.py'), ('Parse/Export Pkcs8, X509', 'util.py')], ['parsed objects'])

P('C13', 'Public export contains the public half of every version and nothing secret',
  'Exporting an asymmetric key set writes a key set of the matching public type and purpose, with the same name, version numbers and statuses, whose keys are the public halves with the same identifiers, and no private component reaches the destination. The exported set verifies (encrypts) what the private set signs (decrypts), symmetric or public sets are refused with a Keyczar error before anything is written, and the source set is unchanged.',
  'configurations inputs', 'every private key set, every key',
  'Leakage and per-version status mapping need all combinations of versions.',
  'keyczar.py keys.py keyczart.py', [('PublicKeyExport', 'keyczar.py'), ('public_key', 'keys.py')], ['files written'])

P('C14', 'Key sizes are honoured: valid, recorded, defaulted, or refused',
  'A key generated for a key set, by the library or the tool, has exactly the requested size, or the default size of its type when none is requested, and records it so that it reads back with that size. A size that is not valid for the type, or a type whose keys cannot be generated, is refused with a Keyczar error and changes nothing; every type\'s default size is one of its valid sizes, and adding a key smaller than the default is warned about.',
  'inputs configurations', 'every key type and every integer size',
  'Tests generate default sizes only.',
  'keyinfo.py keys.py keyczar.py', [('KeyType.IsValidSize/default_size', 'keyinfo.py'), ('GenKey', 'keys.py')], ['size of the generated key'])

P('C15', 'Every name lookup gives the entry of that name; unknown names are refused',
  'Looking up a key type, status, purpose, cipher mode, command or flag by its name gives the entry with exactly that name, and every unknown name raises a Keyczar error. All failures the library reports are Keyczar errors of the documented kind carrying the offending value.',
  'inputs', 'every string given to a lookup',
  'All strings but a few are untested.',
  'keyinfo.py keyczart.py errors.py', [('GetType/GetStatus/GetPurpose/GetMode', 'keyinfo.py'), ('errors', 'errors.py')], ['lookup result / exception'])

P('C16', 'Key set storage: no overwrite on create, I/O errors reported, handles closed',
  'Creating a key set never overwrites existing metadata; every read, write, removal or open that fails in the storage layer surfaces as a Keyczar error, and locations that no back end can serve are refused. Every reader or writer that a command of the tool opens on a key set is closed on success and on every failure, wrapped readers included, and files are read and written at the location and under the names that the version numbers give.',
  'fault_sequences configurations', 'every point at which an I/O call can fail, every location',
  'Fault injection at every I/O call is not tested.',
  'util.py readers.py writers.py keyczart.py keyczar.py', [('ReadFile/WriteFile', 'util.py'), ('CreateReader/CreateWriter', 'readers.py writers.py'), ('finally: Close()', 'keyczart.py keyczar.py')], ['files, Close calls'])

P('C17', 'Sessions: material opens only with the right private key, data is authenticated',
  'A session\'s key is freshly generated, is released only encrypted under the primary key of the given encrypter, and what one side encrypts in the session the holder of the matching decrypter recovers from the session material and the ciphertext; signed sessions additionally verify the ciphertext\'s signature, bound to the session\'s nonce, before decrypting. Altered, truncated or foreign session material or ciphertext is refused and releases no plaintext.',
  'inputs histories', 'every message, every session material, every ciphertext',
  'No stable test touches sessions.',
  'keyczar.py keys.py util.py', [('SessionEncrypter/SessionDecrypter/SignedSession*', 'keyczar.py')], ['messages exchanged'])

P('C18', 'Web-safe Base64: bijective, unpadded, whitespace tolerant, chunk independent',
  'Encoding yields only letters, digits, dash and underscore, without padding or line breaks, and decoding returns the original bytes for every byte string; decoding ignores spaces and line breaks, and text one longer than a multiple of four, or that the library decoder rejects, is refused with the Base64 decoding error. The incremental encoder and decoder give, over every split of the data into pieces, the same result as the one-shot functions once flushed. The stream reader never returns more characters than asked for, and returns None, not an end of data and not an endless wait, while the underlying stream has nothing yet.',
  'inputs histories', 'every byte string, every split into chunks',
  'Lengths modulo 3 and 4 times chunk splits are unbounded.',
  'util.py', [('Base64WSEncode/Decode', 'util.py'), ('BufferedIncrementalBase64WS*', 'util.py')], ['encoded/decoded text'])

P('C19', 'Length-prefixed packing is injective and unpacks to the packed arrays',
  'Unpacking what was packed returns the same arrays in order, for any number of arrays of any length and content, and two different lists never pack to the same bytes. Integer/byte conversions and the length prefixes inside hashes use fixed-width big-endian form so that different inputs never collide.',
  'inputs', 'every list of byte strings, every integer in range',
  'Ambiguity only shows for particular boundaries.',
  'util.py', [('PackMultipleByteArrays/UnpackMultipleByteArrays', 'util.py'), ('PrefixHash, IntToBytes, BytesToLong', 'util.py')], ['packed bytes'])

P('C20', 'Key identifiers follow the documented derivation from public key material',
  'A key\'s identifier is the first four bytes of the SHA-1 hash over the documented, length-prefixed key fields (for AES the AES key length prefix, AES key and HMAC key; for HMAC the HMAC key; for RSA and DSA the public parameters in order, without leading zero bytes). It is the same for a private key and its public half, unchanged by storing and reading, and ends up in bytes 1 to 4 of every output after a zero version byte.',
  'inputs', 'every key value', 'Identifiers must agree for all key values, including ones with leading zeros.',
  'keys.py util.py', [('_Hash / hash_id / Header', 'keys.py'), ('PrefixHash/TrimBytes', 'util.py')], ['hash_id, Header()'])

P('C21', 'The command line tool performs exactly the requested operation',
  'Each keyczart command carries out exactly its documented operation with the given flags and defaults (create picks the key type from purpose and the asymmetric flag; addkey defaults to active status and default size; promote, demote, revoke need a version) on the key set at the given location and on nothing else. Unknown commands or flags and missing or unusable values are refused without changing any key set.',
  'inputs configurations', 'every argument vector',
  'Flag combinations are not enumerated by tests.',
  'keyczart.py', [('main, Create, AddKey, Promote, Demote, Revoke, PubKey', 'keyczart.py')], ['files at the location'])

P('C22', 'The interop harness runs every non-ignored combination, with the right data',
  'The interoperability harness generates and tests every combination of implementation, operation, key set, size and options in its configuration except those that an ignore rule matches in all its parts, each exactly once under its own name, and hands every implementation the key path, algorithm, options, data and output belonging to that combination. A failing implementation call makes that test fail, key directories are created or emptied without touching anything outside the key directory, and unrecognised arguments only print the usage.',
  'configurations inputs', 'every configuration file content, every ignore rule, every argument vector',
  'The stable tests use one small mocked configuration.',
  'interop/interop.py', [('_Options, _TestAll, _GenerateAll, _IsException, _Create, _Generate, _Test', 'interop/interop.py')], ['implementation calls, tests installed'])

P('C23', 'RSA encryption is OAEP and RSA signing PKCS#1 v1.5, with checks on decoding',
  'RSA encryption uses OAEP with SHA-1, the empty label and a fresh seed, refuses messages longer than the modulus allows, and decryption returns the message only if the label hash and the separator are right, else a Keyczar error. RSA signatures cover the PKCS#1 v1.5 SHA-1 encoding of the full modulus length.',
  'inputs', 'every message length and ciphertext, every RSA key size',
  'Boundary lengths and malformed encodings are not tested.',
  'keys.py util.py', [('RsaPublicKey.Encrypt, RsaPrivateKey.Decrypt', 'keys.py'), ('MGF, MakeEmsaMessage', 'util.py')], ['ciphertext, plaintext'])

P('C24', 'A crash between file operations never leaves a key set that cannot be opened',
  'At every point between two completed file operations of adding, promoting, demoting, revoking or exporting, the metadata on disk only refers to versions whose key files are present, so that the key set still opens and still holds every key needed for existing data. Key files are removed only after metadata no longer mentions them.',
  'crash_points', 'every prefix of the sequence of file operations of every command',
  'Crash points are never exercised by tests.',
  'keyczar.py keyczart.py writers.py', [('GenericKeyczar.Write order', 'keyczar.py'), ('Revoke order', 'keyczart.py')], ['file state after each write'])

P('C25', 'Storage back ends are discovered and consulted before giving up',
  'Opening a location offers it to every known reader (writer) class in turn and uses the first that accepts it, after loading all back-end modules from the built-in directory and from every directory named in the environment variable; if none accepts, a Keyczar error naming the location is raised. A reader or writer class that does not implement the creation hook fails loudly, and abstract classes cannot be used incomplete.',
  'configurations', 'every set of back ends, every value of the environment variable',
  'Plug-in combinations are untested.',
  'util.py readers.py writers.py', [('ImportBackends/ImportAll', 'util.py'), ('CreateReader/CreateWriter', 'readers.py writers.py')], ['imports, chosen class'])

P('C26', 'MAC comparison covers every byte and its work does not depend on the contents',
  'Comparing a computed MAC with a supplied one examines all bytes whatever the position of the first difference, with no early exit on content, in every place a secret tag is compared; strings of different length never compare equal. Padding is examined only once the MAC has been accepted.',
  'inputs', 'every pair of tags', 'Timing is not observable in functional tests.',
  'keys.py keyczar.py', [('HmacKey.Verify', 'keys.py')], ['control flow of the comparison'])

P('C27', 'The Python wire and file formats agree with the Java and C++ implementations',
  'The constants that fix the on-disk and wire formats (version byte, header, identifier and MAC lengths, block size, JSON field names of metadata and keys, type, status and purpose names, cipher mode, Base64 alphabet, session nonce length, metadata file name) have the same values in the Python code as in the Java and C++ code of the repository. Data written by one implementation therefore parses in the others.',
  'configurations', 'every shared constant and field name', 'Cross-language tests need the Java and C++ builds and are not in the stable suite.',
  'keyczar.py keyinfo.py keydata.py keys.py java cpp', [('format constants', 'keyczar.py keys.py keyinfo.py')], ['constants in the three source trees'])

TECH = 'path-partitioned abstract interpretation of the Python source over a value-numbered term domain'
NOTES = 'Deduces each obligation from the source on every path of the analysed entry points with symbolic inputs; nothing is executed and no solver is used. Trusts: the models of the standard library and of PyCrypto/M2Crypto/pyasn1 calls, ideal hash/MAC/cipher assumptions, text and byte strings identified (the tree is a half-finished Python 3 conversion), bounded key-set sizes and loop unrollings named in DESIGN.md. Partitions that stay undecided are counted in the evidence and not reported as violations.'
OVERRIDE = {
    'C27': ('constant and field extraction from the Java and C++ sources, compared with abstract interpretation of the Python source', NOTES + ' The Java and C++ values are found by token patterns after comments and the non-compatible preprocessor branch are removed; a value that is not found leaves its obligation undecided.'),
}

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    have = set(f[:-3].upper() for f in os.listdir(os.path.join(here, 'kz', 'props')))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in PROPS:
        i = p['id']
        if i in have:
            t, n = OVERRIDE.get(i, (TECH, NOTES))
            checks.append(dict(property=i, quick_cmd='python3 -m kz.run ' + i,
                               thorough_cmd='VERIF_TIER=thorough python3 -m kz.run ' + i,
                               evidence_file='evidence/%s.json' % i,
                               technique=t, level='other', level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 -m compileall -q kz || true', checks=checks, not_applicable=na,
                       notes='Static analysis only; see DESIGN.md.'), f, indent=1)
        f.write('\n')
