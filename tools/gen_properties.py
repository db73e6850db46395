"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['webauthn_rp/'+f for f in files],
                     state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
BE='webauthn_rp/backends.py: CredentialsBackend'
A='CredentialsBackend.handle_credential_attestation'; S='CredentialsBackend.handle_credential_assertion'
IN=['inputs']
p('C01','Registration is bound to type, challenge and origin',
 'A registration ceremony succeeds only if the submitted client data has type exactly "webauthn.create", its challenge base64url-decodes to exactly the expected challenge bytes, and its origin has the same scheme, host and port as one of the expected origins given by the caller. An empty collection of expected origins never succeeds.',
 IN,'all credentials, challenges, and single or multiple expected origins',
 'tests flip a handful of fields; acceptance must imply the conditions for every input and every combination of the optional parameters',
 ['backends.py','parsers.py','utils.py'],[('type/challenge/origin guards before the storage callback',BE+'.handle_credential_attestation'),('client data parser','webauthn_rp/parsers.py: parse_client_data'),('origin parser','webauthn_rp/parsers.py: parse_origin')],[A+' returns normally'])
p('C02','Authentication is bound to type, challenge and origin',
 'An authentication ceremony succeeds only if the submitted client data has type exactly "webauthn.get", its challenge base64url-decodes to exactly the expected challenge bytes, and its origin has the same scheme, host and port as one of the expected origins given by the caller. An empty collection of expected origins never succeeds.',
 IN,'all credentials, challenges, and single or multiple expected origins',
 'the tests sample single mismatches on one path; the check has to dominate success on every path and parameter combination',
 ['backends.py','parsers.py','utils.py'],[('type/challenge/origin guards before the storage callback',BE+'.handle_credential_assertion'),('client data parser','webauthn_rp/parsers.py: parse_client_data')],[S+' returns normally'])
p('C03','Token binding state must match in both ceremonies',
 'Either ceremony succeeds only if the client data carries a token binding exactly when the caller supplied one, and then with the same status and the same id.',
 IN,'all combinations of supplied and received token bindings, for both ceremonies',
 'the tests use a few bindings; presence, status and id have to be compared for all of them in both ceremonies',
 ['backends.py','parsers.py'],[('token binding guards',BE+' (both handlers)')],[A+', '+S+' return normally'])
p('C04','Authenticator data is bound to the relying party in force',
 'Either ceremony succeeds only if the RP ID hash in the authenticator data equals the SHA-256 of the UTF-8 encoded ID of the relying party in force: the one supplied for a registration, and for an authentication the one registered with the credential or, if none is registered, the supplied one.',
 IN,'all relying parties, registered or supplied, and all authenticator data',
 'the tests sample one mismatching hash per ceremony, not which relying party the hash is computed from on each path',
 ['backends.py','parsers.py'],[('RP ID hash guard',BE+' (both handlers)')],[A+', '+S+' return normally'])
p('C05','User presence and required user verification are enforced',
 'Either ceremony succeeds only if the user-present flag (bit 0) is set in the authenticator data, and, when the caller requires user verification, only if the user-verified flag (bit 2) is set too.',
 IN,'all 256 flag bytes and both settings of the verification requirement, for both ceremonies',
 'the tests clear one flag at a time; other bits must never stand in for these',
 ['backends.py','types.py','parsers.py'],[('flag guards',BE+' (both handlers)'),('flag values','webauthn_rp/types.py: AuthenticatorDataFlag')],[A+', '+S+' return normally'])
p('C06','Every required extension output must be present',
 'When the caller gives a set of required extensions, either ceremony succeeds only if the authenticator data carries an output for every one of them.',
 IN,'all sets of required extensions and all extension outputs, for both ceremonies',
 'tests use one or two extensions; the condition is universally quantified over the set',
 ['backends.py','types.py','parsers.py'],[('required extension loop',BE+' (both handlers)'),('identifier to attribute name','webauthn_rp/types.py: ExtensionIdentifier.key')],[A+', '+S+' return normally'])
p('C07','Registration succeeds only through the attestation procedure',
 'A registration succeeds only after the procedure for the attestation statement\'s format accepted the parsed statement together with the parsed attestation object it came in, exactly the raw authenticator data bytes of that object, and the SHA-256 of exactly the submitted client data bytes. The attestation type and trust path handed to the storage callback are the ones that procedure returned.',
 IN,'all attestation objects of every format and all client data',
 'the tests replace the attestation procedure with a mock, so nothing ties its arguments or results to the ceremony (it was in fact called with the wrong argument)',
 ['backends.py','attesters.py','parsers.py'],[('attestation call and storage callback',BE+'.handle_credential_attestation'),('procedures','webauthn_rp/attesters.py: attest')],[A+' returns normally','register_credential_attestation arguments'])
p('C08','Assertion signature is checked with the registered key',
 'An authentication succeeds only if the signature in the response was verified, with the public key the storage returned for this credential ID and not any key from the request, over exactly the received authenticator data bytes followed by the SHA-256 of exactly the received client data bytes.',
 IN,'all assertions, keys and stored credential data',
 'the tests mock verification in the backend; that every successful path went through it with these operands is a must-pass-through fact over all paths',
 ['backends.py','verifiers.py'],[('verify call',BE+'.handle_credential_assertion')],[S+' returns normally'])
p('C09','Authentication only with a credential the user owns',
 'An authentication succeeds only if the credential ID is one of the allowed ones whenever an allow list is given (an empty list allows none), storage knows the credential, the credential\'s registered user has the same ID as the supplied user if one is supplied, and the response\'s user handle equals that user ID whenever it is present. With no supplied user the handle must be present.',
 IN,'all allow lists, users, handles and stored credential data',
 'the tests sample a few combinations of optional parameters; empty lists, empty handles and the combinations are the interesting cases',
 ['backends.py'],[('ownership guards',BE+'.handle_credential_assertion')],[S+' returns normally'])
p('C10','The relying party of an authentication is resolved safely',
 'An authentication succeeds only if a relying party is registered with the credential or supplied by the caller, and if both are, only if their IDs are equal. The relying party and user handed to the storage callback are the resolved ones.',
 IN,'all combinations of registered and supplied relying parties and users',
 'four combinations times every later check; the tests exercise each alone',
 ['backends.py'],[('RP resolution',BE+'.handle_credential_assertion')],[S+' returns normally','register_credential_assertion arguments'])
p('C11','A possibly cloned authenticator is rejected',
 'When storage returns a signature count for the credential (zero included), an authentication succeeds only if the received counter is strictly greater, unless the caller opted out of clone detection. Without a stored count or with the opt-out the counter never causes a rejection.',
 IN,'all pairs of stored and received 32-bit counters and the opt-out flag',
 'the tests sample one pair of counters; equality, zero and the missing count are boundary cases of a relation over all pairs',
 ['backends.py'],[('signature count guard',BE+'.handle_credential_assertion')],[S+' returns normally','SignatureCountError'])
p('C12','Storage is written once, last, and only for an accepted ceremony',
 'Each ceremony calls its own storage write callback at most once, after every check has passed, with exactly the given credential, the parsed data of this ceremony and its user and relying party, and never on a rejected ceremony. The ceremony returns normally if and only if that callback was called, raised nothing and returned None; a registration never reads or writes the authentication callbacks and vice versa.',
 ['inputs','fault_sequences'],'all inputs and all behaviours (results and exceptions) of the storage callbacks',
 'ordering and at-most-once over all paths and callback behaviours is not sampled by the mocks in the tests',
 ['backends.py','registrars.py'],[('callback at the end of each handler',BE+' (both handlers)')],['register_credential_attestation, register_credential_assertion, get_credential_data calls'])
p('C13','Only library errors leave a ceremony, and no failure becomes success',
 'Whatever the inputs and the storage callbacks do, a ceremony either returns None or raises an error of the library\'s own hierarchy: errors the library itself raises come out unchanged, an exception of a storage callback (of whatever class) comes out as the registration error, and any other exception as the internal error. No exception raised by a check, a parser, a cryptographic primitive or a callback is swallowed into a successful return.',
 ['inputs','fault_sequences'],'all inputs, all exceptions of dependencies and callbacks',
 'the tests inject a few exceptions; containment must hold at every program point',
 ['backends.py','errors.py','attesters.py','verifiers.py','parsers.py'],[('outermost handlers',BE+' (both handlers)')],['exceptions leaving the handlers'])
p('C14','Each ceremony error is raised only for its documented cause',
 'The specific errors for client data type, challenge, origin, token binding, RP ID hash, user presence, user verification, extensions, allow list, user ID, user handle, relying party, credential data and signature count are each raised only when the documented condition they name really failed for the input at hand (the origin error also names a malformed origin, the caller\'s own included). A ceremony that satisfies a condition is therefore never rejected with that condition\'s error. A failed condition is not reported as the internal error either, as long as the messages are well formed and the attestation or signature verifies.',
 IN,'all inputs to both ceremonies',
 'tests check that an error appears for sampled bad inputs, never that it cannot appear for good ones',
 ['backends.py','errors.py'],[('raise sites',BE+' (both handlers)')],['exceptions leaving the handlers'])
p('C15','FIDO U2F attestation is verified as specified',
 'A fido-u2f statement is accepted, as type Basic with its certificate as trust path, only if it holds exactly one X.509 certificate whose key is an elliptic-curve key on P-256, the credential key is an EC2 key with 32-byte coordinates, and the certificate\'s key verified an ECDSA/SHA-256 signature over 0x00, the RP ID hash, the client data hash, the credential ID, 0x04 and the x and y coordinates of the credential key, in that order. A statement failing any of these is rejected with an attestation error, and one meeting them all is not.',
 IN,'all statements, authenticator data and client data hashes',
 'tests verify a few generated certificates; field order, single-certificate and curve conditions hold or fail per path',
 ['attesters.py'],[('procedure','webauthn_rp/attesters.py: attest_fido_u2f')],['attest'])
p('C16','Android key attestation is verified as specified',
 'An android-key statement is accepted, as type Basic with the first certificate as trust path, only if the first certificate\'s key verified the statement\'s signature over the raw authenticator data followed by the client data hash (with the hash the statement\'s algorithm names for EC keys), that key equals the credential key, and the certificate\'s Android key description has the client data hash as challenge, no allApplications in either enforcement list, and TEE-enforced origin "generated" and purpose "sign". A statement failing any of these is rejected, and the attestation-specific rejections are attestation errors.',
 IN,'all statements, certificates and authenticator data',
 'tests build a few certificates; each clause must hold on every accepting path',
 ['attesters.py','asn1.py','constants.py','utils.py'],[('procedure','webauthn_rp/attesters.py: attest_android_key')],['attest'])
p('C17','No attestation format is accepted without a procedure',
 'A statement of the none format is accepted with type None and no trust path, fido-u2f and android-key statements only by their own procedures, and every other statement (packed, tpm, android-safetynet, or an unknown class) is refused with the unimplemented error rather than accepted.',
 IN,'all attestation statement classes, subclasses included',
 'tests call a few procedures directly; dispatch over the whole class hierarchy is not enumerated',
 ['attesters.py','types.py'],[('dispatch table','webauthn_rp/attesters.py: attest')],['attest'])
p('C18','Signature verification uses the right key, data and algorithm',
 'Verifying a signature with a credential key returns normally only if the cryptographic library verified exactly the given signature over exactly the given data with the public key built from that credential key, using ECDSA with SHA-256, SHA-384 or SHA-512 for ES256, ES384 or ES512 and plain EdDSA for OKP keys. An invalid signature is reported as a verification error, and a key class without a procedure is refused.',
 IN,'all keys, signatures and data',
 'tests verify sampled signatures; that no path returns without the primitive having accepted is a path property',
 ['verifiers.py','converters.py','utils.py'],[('dispatch and primitives','webauthn_rp/verifiers.py: verify'),('hash table','webauthn_rp/utils.py: ec2_hash_algorithm')],['verify'])
p('C19','Credential keys convert to the same public key',
 'Converting an EC2 credential key yields the point with big-endian coordinates x and y on exactly the curve the key names (P-256, P-384, P-521), and an OKP key the Ed25519 or Ed448 key with exactly the bytes of x. Material the cryptographic library rejects is reported as a public key conversion error, and curves or key classes without a conversion are refused.',
 IN,'all credential keys',
 'tests convert sampled keys; table agreement across curves and byte order is decided over the whole table',
 ['converters.py'],[('conversion','webauthn_rp/converters.py: cryptography_public_key')],['cryptography_public_key'])
p('C20','Attested keys pass the key validation gate',
 'A credential key parsed from authenticator data is always validated before the data is accepted: validation returns normally only for an EC2 key on P-256, P-384 or P-521 with ES256, ES384 or ES512, or an OKP key on Ed25519 or Ed448 with EdDSA, and it rejects other curves or algorithms with a validation error and unknown key classes with the unimplemented error.',
 IN,'all keys and authenticator data',
 'the set of (class, curve, algorithm) combinations is finite but the gate must dominate every accepting path of the parser',
 ['validators.py','parsers.py'],[('validators','webauthn_rp/validators.py: validate'),('call in the parser','webauthn_rp/parsers.py: parse_authenticator_data')],['validate','parse_authenticator_data'])
p('C21','COSE keys decode strictly and faithfully',
 'Parsing a COSE key yields an OKP or EC2 key, as its key type (1) says, whose type, algorithm (3), curve (-1), coordinates (-2, -3), key ID (2), operations (4) and base IV (5) are exactly the decoded map\'s entries. Missing required entries, wrong types, unknown identifiers, unsupported key types and coordinates whose length is not the curve\'s are rejected; nothing else is.',
 IN,'all COSE maps and byte strings',
 'tests cover sampled maps; each field\'s label, type and failure is a separate case',
 ['parsers.py','utils.py','types.py','constants.py'],[('parser','webauthn_rp/parsers.py: parse_cose_key, parse_ec2_public_key, parse_okp_public_key')],['parse_cose_key'])
p('C22','COSE keys encode every member under its label',
 'Encoding a credential key writes exactly its key type under 1, key ID under 2 when present, algorithm under 3, operations under 4 when present, base IV under 5 when present, curve under -1, x under -2 and, for EC2, y under -3, all as the values of the registry, so that decoding gives the same key back.',
 IN,'all OKP and EC2 keys and all combinations of their optional members',
 'tests round-trip keys with a few combinations (one combination did lose the base IV)',
 ['converters.py','parsers.py'],[('encoder','webauthn_rp/converters.py: cose_key')],['cose_key'])
p('C23','Authenticator data is decoded exactly by its layout',
 'Parsing authenticator data returns the first 32 bytes as RP ID hash, byte 32 as flags and bytes 33-36 as big-endian counter; with the AT flag (bit 6) set, the 16-byte AAGUID, a big-endian 16-bit length, that many bytes of credential ID and the CBOR key follow, and with the ED flag (bit 7) a CBOR extension map. Data that is shorter than its layout needs or has bytes left over is rejected, and attested data or extensions are reported exactly when their flag is set.',
 IN,'all byte strings',
 'tests parse sampled byte strings; offsets, truncation and leftovers quantify over all lengths',
 ['parsers.py','types.py'],[('parser','webauthn_rp/parsers.py: parse_authenticator_data')],['parse_authenticator_data'])
p('C24','Attestation objects decode to the parts they carry',
 'Parsing an attestation object returns the authenticator data parsed from its authData bytes, the format its fmt names, and the statement parsed from its attStmt by that format\'s own parser, together with the raw map it came from. Anything that is not a map with these three well-typed members and one of the six known formats is rejected.',
 IN,'all byte strings and all six formats',
 'dispatch over formats and the missing/ill-typed member cases are sampled by the tests',
 ['parsers.py','types.py'],[('parser and format table','webauthn_rp/parsers.py: parse_attestation_object')],['parse_attestation_object'])
p('C25','Attestation statements are parsed strictly per format',
 'For each format, parsing a statement accepts exactly the maps with that format\'s members, each of the specified type, and no other members (packed and tpm: the base members alone, or with x5c, or with ecdaaKeyId, but not both), and the result carries every member unchanged in the class for that variant. Everything else is a parser error.',
 IN,'all attestation statement maps for the six formats',
 'tests drop or retype single members; acceptance must equal the schema for all maps',
 ['parsers.py'],[('per format parsers','webauthn_rp/parsers.py: parse_*_attestation_statement')],['parse_packed_attestation_statement','parse_tpm_attestation_statement','parse_android_key_attestation_statement','parse_android_safetynet_attestation_statement','parse_fido_u2f_attestation_statement','parse_none_attestation_statement'])
p('C26','Extension outputs are parsed strictly and completely',
 'Parsing extension outputs rejects any unknown extension and any output of the wrong type (coordinates, uvm entries and exts elements included), and otherwise returns every given output under its own attribute, unchanged (coordinates as a coordinates object), and None for those absent.',
 IN,'all extension maps',
 'nine outputs with nested types; tests cover single deviations',
 ['parsers.py','types.py'],[('parser','webauthn_rp/parsers.py: parse_extensions')],['parse_extensions'])
p('C27','Client data is parsed strictly and faithfully',
 'Parsing client data accepts exactly UTF-8 JSON objects whose type, challenge and origin are strings and whose token binding, if present and not null, is an object with status "supported" or "present" and, for "present", an id; the result carries exactly these values. Anything else is rejected with a parser or decoding error.',
 IN,'all byte strings',
 'tests use sampled JSON documents',
 ['parsers.py'],[('parser','webauthn_rp/parsers.py: parse_client_data')],['parse_client_data'])
p('C28','Origins are parsed strictly',
 'Parsing an origin accepts exactly strings with "://" that parse to an http or https URL with a non-empty authority and no path, parameters, query or fragment; the result carries its scheme, its authority, and the explicit port or else 80 for http and 443 for https. Anything else, malformed ports and hosts included, is an origin error.',
 IN,'all strings',
 'no test calls the origin parser directly; ports, schemes and malformed URLs are unbounded',
 ['parsers.py'],[('parser','webauthn_rp/parsers.py: parse_origin')],['parse_origin'])
p('C29','Browser credentials are parsed strictly',
 'Parsing a browser credential accepts exactly maps with string id, type and rawId and a response map with either the attestation members or the assertion members (user handle optional) and nothing else, and returns an attestation or assertion credential carrying the id and type unchanged and every other member base64-decoded under its own name. Anything else is a parser or decoding error.',
 IN,'all credential maps',
 'members, their absence and extra members are sampled by the tests',
 ['parsers.py'],[('parser','webauthn_rp/parsers.py: parse_public_key_credential')],['parse_public_key_credential'])
p('C30','Parsers raise only the documented library errors',
 'On any input of the declared type (any byte string, any string, any decoded map) the public parsers either return or raise an error of the library\'s own hierarchy (parser, decoding, origin, validation or unimplemented); no exception of the JSON, CBOR, URL or base64 decoder or of the language runtime escapes them.',
 IN,'all inputs of the declared types to every public parser',
 'malformed input is unbounded (decoders did leak ValueError, RecursionError, OverflowError and others)',
 ['parsers.py','validators.py','utils.py'],[('exception handlers around the decoders','webauthn_rp/parsers.py')],['exceptions leaving the public parsers'])
p('C31','JSON conversion is faithful',
 'Converting to JSON replaces enumerations by their values, byte strings by standard base64 text, objects and maps by maps of their non-None members, recursively, with member names in camel case when asked (the default) so that the library\'s options get the WebAuthn member names, sequences by lists in order, and leaves strings, numbers, booleans and None unchanged; a non-string key is a conversion error and any other kind of value is refused.',
 IN,'all values, nested to any depth',
 'recursion over value kinds is unbounded; the tests convert a few objects',
 ['converters.py','utils.py'],[('converter','webauthn_rp/converters.py: jsonify')],['jsonify'])
p('C32','Data types keep every argument under its own member',
 'Constructing any of the library\'s option, response, key, statement and entity types stores each argument under the member of the same name, unchanged and with the documented defaults for optional ones, so that no member is dropped, swapped or defaulted differently in what is sent to clients or handed to storage.',
 IN,'all constructor arguments of all data types',
 'about forty constructors with up to nine members each; the tests construct a few',
 ['types.py','registrars.py'],[('constructors','webauthn_rp/types.py')],['attributes of constructed objects'])
p('C33','Builders never change in place and lose nothing',
 'Each builder setter returns a new builder that differs from the original only in that setting and leaves the original unmodified, its nested settings included; building produces options carrying exactly the builder\'s settings and the arguments given to build, and fails with the builder error if a required setting is missing. No two builders share a setting that either can change.',
 ['inputs','histories'],'all builders and all sequences of setter calls',
 'sequences of setters and aliasing between builders are not sampled',
 ['builders.py','types.py'],[('setters and build','webauthn_rp/builders.py')],['setter results','build'])
p('C34','Registered identifiers have their standard values',
 'The COSE algorithm, key type, key operation and curve identifiers (by name and by value), the authenticator data flags, attestation formats and types, extension identifiers, transports, credential types, conveyance, attachment, verification, mediation and token binding constants, coordinate lengths and Android keymaster constants all have the values of their registries, and the name and value form of each COSE identifier has the same members. An identifier given as an integer resolves only in the value form, as a string only in the name form, and anything else is refused.',
 ['configurations'],'all enumeration members and constants',
 'tests exercise the entries that appear in sample messages',
 ['types.py','constants.py','utils.py'],[('enumerations','webauthn_rp/types.py'),('constants','webauthn_rp/constants.py')],['enumeration members and constants'])
p('C35','The Android key description schema matches the standard',
 'The ASN.1 description of the Android key attestation extension has exactly the standard\'s fields, in order, with the standard\'s types, optionality and context tags, so that a field such as allApplications, origin or purpose is read from the standard\'s position in both enforcement lists.',
 ['configurations'],'all fields of the schema',
 'tests encode and decode with the same schema, so a consistent mistake cancels out',
 ['asn1.py'],[('schema','webauthn_rp/asn1.py')],['decoded key descriptions'])
p('C36','Ceremonies and parsers keep no hidden state',
 'No public function or ceremony reads or writes state that survives the call: nothing in module, class or function storage or in mutable default arguments is modified after import, and no argument object given by the caller is modified. The outcome therefore depends only on the arguments and what the storage callbacks return.',
 ['histories','inputs'],'all sequences of calls',
 'cross-call influence needs histories the tests do not build',
 ['backends.py','parsers.py','converters.py','attesters.py','verifiers.py','validators.py','utils.py','types.py','builders.py'],[('absence of writes to shared or caller-owned objects','all modules')],['module, class and argument state'])
p('C37','Base64url coding follows RFC 4648 section 5',
 'Encoding uses the URL-safe alphabet over exactly the given bytes, and decoding uses the same alphabet over exactly the given text with any amount of missing padding supplied, so that decoding inverts encoding with and without padding.',
 IN,'all byte strings and all base64url texts',
 'tests decode samples',
 ['utils.py'],[('codec','webauthn_rp/utils.py: url_base64_encode, url_base64_decode')],['url_base64_encode','url_base64_decode'])
p('C38','Extension identifiers, outputs and wire names agree',
 'For every extension identifier, the attribute name it maps to is an attribute of both the extension inputs and the extension outputs types, is the one the parser fills from the identifier\'s wire name, and is the one JSON conversion turns back into that wire name.',
 ['configurations'],'all extension identifiers',
 'agreement of four tables is checked by no test',
 ['types.py','parsers.py','utils.py','converters.py'],[('identifier to attribute','webauthn_rp/types.py: ExtensionIdentifier.key'),('case conversion','webauthn_rp/utils.py')],['ExtensionIdentifier.key','parse_extensions','jsonify'])
p('C39','Signatures cannot be forged without the private key',
 'No party without a credential\'s private key can complete an authentication or an attested registration for it.',
 IN,'all adversaries','computational; no test or source analysis can settle it',
 ['verifiers.py','attesters.py'],[('delegated to the cryptography package','webauthn_rp/verifiers.py')])
p('C40','Secret-dependent timing does not leak',
 'The time a ceremony takes does not reveal the expected challenge or stored data to a client.',
 IN,'all inputs and timings','timing is not observed by tests',
 ['backends.py'],[('comparisons',BE)])
p('C41','Hostile messages are parsed in bounded time and memory',
 'Parsing any message takes time and memory bounded by a modest multiple of its size.',
 IN,'all byte strings','resource use over unbounded input is not sampled',
 ['parsers.py'],[('decoders','webauthn_rp/parsers.py')])
p('C42','Certificate chains lead to trusted roots',
 'A Basic attestation is accepted only if its certificate chain validates to a trust anchor configured by the relying party.',
 IN,'all certificate chains','no trust anchor is configured anywhere in the library; storage receives the trust path and decides',
 ['attesters.py'],[('trust path handed to storage','webauthn_rp/attesters.py')])
p('C43','Challenges are fresh and used once',
 'Every ceremony uses an unpredictable challenge that is accepted at most once.',
 ['histories'],'all histories of ceremonies','a property of the application that issues and remembers challenges',
 ['backends.py'],[('expected challenge argument',BE)])
p('C44','Every conformant authenticator is accepted',
 'Every registration and authentication performed by a conformant client and authenticator for a supported format and algorithm is accepted.',
 IN,'all conformant clients and authenticators','tests use a few generated messages',
 ['backends.py','parsers.py','attesters.py'],[('whole ceremony',BE)])
p('C45','A ceremony that meets every requirement is accepted',
 'A ceremony whose client data is well formed and of the right type, challenge, origin and token binding state, whose attestation object or authenticator data parses, matches the RP ID hash and has the required flags and extension outputs, whose attestation or signature verifies, and (for authentications) whose credential is allowed, known, owned by the user, bound to a matching relying party and ahead of the stored counter, is never rejected: it returns normally unless a storage callback raises or refuses.',
 IN,'all inputs to both ceremonies and all behaviours of the storage callbacks',
 'the tests accept a handful of ceremonies; a rejection of others, for one combination of optional arguments say, is not sampled',
 ['backends.py','parsers.py','utils.py'],[('all exits of both ceremonies',BE+' (both handlers)')],['exceptions leaving the handlers'])
p('C46','Library errors form the documented groups',
 'Every error class of the library is caught by its base error, the errors of a ceremony also by the backend error, JSON and public key conversion errors also by the converter error, and decoding errors also by the parser error. Beyond that no error passes for another: a handler for one specific error never catches a different one.',
 ['configurations'],'all pairs of error classes',
 'tests catch the exact class they expect; which handlers of an application also catch it is a relation between all pairs of classes',
 ['errors.py'],[('error classes','webauthn_rp/errors.py')],['handlers of the calling application'])
p('C47','The storage interface fails closed and keeps its shape',
 'A storage operation that an application does not implement is always refused with the unimplemented error, whatever it is called with. Both ceremonies call the storage operations with the documented parameters, so that an implementation of the documented interface receives every one of them under its own name and in the documented position, and the credential data type that storage returns keeps each argument under its own member, with the relying party optional.',
 IN,'all arguments of the storage operations and all implementations of the interface',
 'the tests call each base operation once with empty arguments, and use implementations that accept anything',
 ['registrars.py','backends.py'],[('base operations','webauthn_rp/registrars.py: CredentialsRegistrar'),('storage calls',BE+' (both handlers)')],['CredentialsRegistrar operations','arguments of the storage callbacks'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
