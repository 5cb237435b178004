"""The properties, in one place: text for properties.jsonl and MANIFEST.json."""
NA = {}


def P(id, title, statement, over, text, why, mechanism, technique, note, **kw):
    return dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                mechanism=mechanism, technique=technique, note=note, **kw)


REF = 'Held on the executions the evidence file counts, judged by an oracle written from the specifications and independent of the library. '

PROPS = [
P('C01', 'Forged or altered signed tokens never pass as authentic',
  'A signed token, wherever the library receives one (ID Token, request object, logout token, ID Token hint, client assertion, registration statement), is accepted only if its signature verifies with a key the receiver already held for the issuer it expects. '
  'Altered headers, payloads or signatures, keys carried in or pointed to by the token itself, keys of other issuers, and public keys used as shared secrets are refused. Tokens that were honestly signed are accepted, and what is then read is exactly what was signed.',
  'inputs', 'every token content, signing algorithm, key set and tampering, over every message that consumes a signed token',
  'The tests verify a few honest tokens and next to no hostile ones; there is no bound on ways to forge.',
  ['key collection for a token @ message.py:Message.from_jwt', 'ID Token extraction @ oidc/__init__.py:verify_id_token', 'request object extraction @ oidc/__init__.py:AuthorizationRequest.verify', 'logout token extraction @ oidc/session.py:BackChannelLogoutRequest.verify'],
  'runtime monitoring: forged-token workload, acceptance oracle over verdict and content',
  REF + 'Trusts cryptojwt/cryptography for the primitives; the attack classes are enumerated in rv/checks/c01.py.'),
P('C02', 'Encrypted messages round-trip, and only with intact ciphertext and signature',
  'A message encrypted for a recipient is read back by that recipient as it was, and by nobody else. Any change to the ciphertext or its header is refused, and a signed message inside encryption is held to the same signature and algorithm rules as a bare one.',
  'inputs', 'every content, key management and content encryption algorithm, inner signature and corruption site',
  'The tests encrypt two fixed messages with one algorithm each.',
  ['decryption before verification @ message.py:Message.from_jwt', 'encryption @ message.py:Message.to_jwe', 'decryption @ message.py:Message.from_jwe', 'expected encryption algorithms @ oidc/__init__.py:verify_id_token'],
  'runtime monitoring: round-trip and corruption workload with content oracle', REF + 'Trusts cryptojwt for the JWE primitives.'),
P('C03', 'An ID Token is accepted exactly when its claims meet the expectations',
  'An ID Token is accepted only if the issuer and audience are the expected ones, an authorized party is present and right when it has to be, it has not expired, was not issued too long ago, and a nonce in it is the expected one. '
  'A token that meets all of this is accepted. That holds for whatever message carries the token and whatever the time zone of the process.',
  'inputs configurations', 'every combination of claims, expectations, clock skew, storage time, time zone and carrying message',
  'The tests look at single deviations of one token; acceptance depends on the combination of claims, expectations and the clock.',
  ['claim acceptance @ oidc/__init__.py:IdToken.verify', 'expectation hand-over @ oidc/__init__.py:verify_id_token', 'carriers @ oidc/__init__.py:AuthorizationResponse.verify', 'carriers in session messages @ oidc/session.py:EndSessionRequest.verify'],
  'runtime monitoring: reference acceptance model over token x expectation space', REF + 'The very second a limit is reached is not judged unless clock readings bracket it.'),
P('C04', 'Unsigned tokens and unexpected algorithms pass only if explicitly allowed',
  'A token without a signature (algorithm none, in any spelling) is refused unless the caller explicitly allowed it. When the caller states which signing algorithm or encryption algorithms are expected, a token made with others is refused, and one made with these is accepted.',
  'inputs configurations', 'every token algorithm x caller policy x consuming message',
  'The tests have two cases of a wrong algorithm, for one message.',
  ['algorithm check @ message.py:Message.from_jwt', 'policy hand-over @ oidc/__init__.py:verify_id_token', 'logout token policy @ oidc/session.py:BackChannelLogoutRequest.verify', 'hint policy @ oidc/session.py:EndSessionRequest.verify'],
  'runtime monitoring: algorithm-policy matrix with acceptance oracle', REF + 'Explicitly allowing none while demanding an algorithm is contradictory and not judged.'),
P('C05', 'A front-channel access token or code is bound to its ID Token',
  'In an authorization response that carries an ID Token, the access token and the code are accepted only when the token carries a hash of each that equals the left half of the digest of that very value, computed with the hash of the signing algorithm. A response with the right hashes is accepted.',
  'inputs', 'every access token, code, signing algorithm and state of either hash (absent, wrong, swapped, of another algorithm, truncated, extended)',
  'The tests have one right and one absent hash for RS256.',
  ['hash checks @ oidc/__init__.py:verify_id_token', 'response types @ oidc/__init__.py:AuthorizationResponse.verify', 'hash production @ oidc/__init__.py:IdToken.pack'],
  'runtime monitoring: independent recomputation of the hashes on each execution', REF + 'Algorithms with a digest (RS/PS/ES/HS 256-512).'),
P('C06', 'What is presented as verified is exactly what was verified',
  'After a successful verification, the place where a message presents the verified content of a token it carried holds exactly what that token said, and nothing if it carried none. Nothing the sender put into the message, and nothing an earlier verification left there, can be found in that place. When verification fails, nothing unverified is presented as verified.',
  'inputs histories', 'every message that carries tokens, every content injected by the sender, every earlier verification of the same object',
  'No test sends a message that already claims verified content, or verifies one object twice.',
  ['clearing of verified content @ oidc/__init__.py:clear_verified_claims', 'naming @ __init__.py:verified_claim_name', 'session messages @ oidc/session.py:EndSessionRequest.verify', 'oauth2 requests @ oauth2/__init__.py:JWTSecuredAuthorizationRequest.verify'],
  'runtime monitoring: injected-slot workload, slot content compared with the signed content', REF),
P('C07', 'A signed request object is authoritative and its outcome obeys the rules',
  'When an authorization request carries a signed request object, each parameter of the object takes effect with the value in the object, and parameters outside it survive only as the chosen merge policy (strict, lax, whitelist) says. The outcome is held to the same rules as a plain request, so an object can not smuggle in what the plain request could not contain.',
  'inputs configurations', 'every plain request x request object x merge policy x delivery (OpenID request, JWT secured request, pushed request)',
  'The tests merge three fixed pairs of requests and never look at rules after merging.',
  ['merge @ oauth2/__init__.py:AuthorizationRequest.merge', 'request object handling @ oidc/__init__.py:AuthorizationRequest.verify', 'JAR @ oauth2/__init__.py:JWTSecuredAuthorizationRequest.verify', 'PAR @ oauth2/__init__.py:PushedAuthorizationRequest.verify'],
  'runtime monitoring: key-by-key comparison with a reference merge', REF + 'Whether the object\'s signer is the client is the caller\'s business and not judged.'),
P('C08', 'OpenID Connect authentication requests obey the rules of the specification',
  'An authentication request is accepted exactly when it asks for the openid scope, has a nonce where an ID Token comes through the front channel, asks for consent when it asks for offline access, does not combine prompt none with others, carries values from the specified sets, and carries every required parameter.',
  'inputs', 'every combination of response type, scope, prompt, display, nonce and max age, over every delivery',
  'The tests have one example of a handful of the rules; the rules interact.',
  ['request rules @ oidc/__init__.py:AuthorizationRequest.verify', 'enumerated values @ message.py:Message.verify'],
  'runtime monitoring: rule-table oracle over generated requests', REF),
P('C09', 'An authorization response from or for somebody else is refused',
  'When the receiver states the client it is and the issuer it expects, a response that names another client, issuer or audience is refused, however similar the names. One that names these, or does not name any, is accepted.',
  'inputs', 'every client id, issuer and audience, absent, equal, similar or different, with and without an ID Token',
  'The tests try one wrong client id and one wrong issuer.',
  ['mix-up checks @ oauth2/__init__.py:AuthorizationResponse.verify', 'OIDC responses @ oidc/__init__.py:AuthorizationResponse.verify'],
  'runtime monitoring: confusable-identity workload with equality oracle', REF),
P('C10', 'Only proper logout tokens log anybody out',
  'A logout token is accepted exactly when it is signed by the expected issuer, meant for this client, names a subject or a session, carries the logout event and nothing else as event, carries no nonce and has not been issued in the future. An end-session request that asks for a redirect needs an ID Token hint, and a hint is held to the rules for signed tokens.',
  'inputs', 'every set of claims, events, time stamps and signatures of a logout token, in a back-channel request or bare; every end-session request',
  'The tests have single bad tokens; combination, signature and clock are not covered.',
  ['logout token rules @ oidc/session.py:LogoutToken.verify', 'back-channel request @ oidc/session.py:BackChannelLogoutRequest.verify', 'end session request @ oidc/session.py:EndSessionRequest.verify'],
  'runtime monitoring: reference acceptance model over logout tokens and requests', REF),
P('C11', 'JWT time windows, audience and issuer are judged right, in any time zone',
  'A JSON Web Token such as a client assertion is accepted exactly when the current time is not past its expiry, not before its not-before and issue times, with clock skew only ever making the checks more tolerant, and the expected issuer and audience are the ones in the token. The time zone of the process has no influence.',
  'inputs configurations', 'every combination of time claims, skew, audience, issuer, expectation and time zone',
  'The tests check one past and one future moment in the zone of the test machine.',
  ['windows and audience @ oidc/__init__.py:JsonWebToken.verify', 'client assertions @ oidc/__init__.py:AuthnToken', 'current time @ time_util.py:utc_time_sans_frac'],
  'runtime monitoring: bracketed-clock acceptance model', REF),
P('C12', 'The JSON and dictionary forms of a message lose and change nothing',
  'A message of any class with any content that conforms to its class, written as JSON or as a dictionary and read back, holds the same parameters with the same values. Parameters the class does not know survive as well, writing changes nothing in the message, and the order of the members makes no difference to the message or to whether it is accepted, and asking again gives the same answer.',
  'inputs programs', 'every message class x every conforming content, unknown and language tagged parameters included',
  'The tests do single messages of some thirty of the classes.',
  ['dict form @ message.py:Message.to_dict', 'reading @ message.py:Message.from_dict', 'value conversion @ message.py:Message._add_value', 'JSON @ message.py:Message.from_json'],
  'runtime monitoring: round-trip workload against a schema-independent model of the content', REF + 'The content generator works from a schema table of its own (rv/schema.json).'),
P('C13', 'The URL-encoded form and request URLs carry exactly the message',
  'The form-encoded representation of a message decodes, with any standard decoder, to exactly the parameters of the message, and reading such a representation yields the message again. A repeated parameter that is not a list, or a missing required one when writing, is refused; a repeated list parameter has all its values. The order of the parameters makes no difference to the message or to whether it is accepted. A request URL keeps the location it was given, its query included, and adds exactly the message.',
  'inputs', 'every class and content with a faithful form-encoded representation; every location',
  'The tests encode a few plain ASCII messages for locations without a query.',
  ['writing @ message.py:Message.to_urlencoded', 'reading @ message.py:Message.from_urlencoded', 'URLs @ message.py:Message.request'],
  'runtime monitoring: wire form decoded by an independent parser', REF + 'List items contain no space; lists of objects have no faithful form.'),
P('C14', 'A message that lacks a required parameter never verifies',
  'A message that lacks a parameter its specification requires, or has it with an empty value, is refused on verification, for each message class. With all of them present, and values that conform, it is accepted.',
  'inputs programs', 'every message class x every subset of required parameters missing or empty, over every delivery',
  'The tests drop one parameter of a few classes.',
  ['required parameters @ message.py:Message.verify', 'writing @ message.py:Message.to_urlencoded', 'class tables @ oauth2/__init__.py:AuthorizationRequest', 'class tables @ oidc/__init__.py:IdToken'],
  'runtime monitoring: every class and parameter against a specification table', REF + 'The table (rv/schema.json) was derived once and reviewed against the specifications.'),
P('C15', 'A parameter never holds a value of the wrong type',
  'A received value is either of the type the class declares for the parameter, converted to it in a documented way without changing its meaning, or refused. No delivery (JSON, dictionary, form, construction) lets a value of another type through, nested messages included.',
  'inputs programs', 'every class x parameter x value of any JSON type x delivery',
  'The tests try the wrong type for under ten parameters.',
  ['type checks @ message.py:Message._add_value', 'nested messages @ message.py:msg_deser', 'lists @ message.py:list_deserializer', 'item lists @ message.py:msg_list_deser'],
  'runtime monitoring: type-confusion workload, held values audited against a type table', REF + 'Form-encoded input is text: only strings, lists and JSON objects are judged there.'),
P('C16', 'Enumerated parameters take only the listed values',
  'Where a specification lists the values a parameter can have, a message with another value, alone or among listed ones, does not verify, and each listed value verifies. The lists of one class have no influence on another class.',
  'inputs programs', 'every enumerated parameter x listed, similar and foreign values x delivery',
  'The tests try a wrong value for three parameters.',
  ['allowed values @ message.py:Message._type_check', 'application @ message.py:Message.verify', 'code table @ oauth2/__init__.py:AuthorizationErrorResponse'],
  'runtime monitoring: value tables per class and confusable-value workload', REF),
P('C17', 'What happens to one message never shows in another',
  'Messages share no state: changing a message, its values or its defaults, copying, verifying or serializing it never changes another message or what a later message of any class starts out with, requires or allows.',
  'histories programs', 'every history of creating, changing, copying, merging, verifying and serializing messages of any classes',
  'Sharing shows only across two objects and in a certain order; the tests look at objects one at a time.',
  ['instance state @ message.py:Message.__init__', 'defaults @ message.py:Message.set_defaults', 'copies @ message.py:Message.copy', 'class tables @ oidc/__init__.py:AuthorizationErrorResponse'],
  'runtime monitoring: bystander objects and class tables audited after each step of a history', REF),
P('C18', 'A message behaves as a mapping',
  'Getting, setting, deleting, testing, listing, counting, updating and comparing parameters behave as on a dictionary of the parameters set, in any order of operations. The helpers that name extra, blank, required or uninteresting parameters agree with the content.',
  'histories', 'every history of mapping operations on messages of every class',
  'The tests do single operations.',
  ['mapping operations @ message.py:Message.__getitem__', 'comparison @ message.py:Message.__eq__', 'helpers @ message.py:Message.extra', 'update @ message.py:Message.update'],
  'runtime monitoring: model-based histories against a plain dictionary', REF),
P('C19', 'Client registration messages obey the registration rules',
  'A client registration request is accepted exactly when its encryption methods come with algorithms, its login URI is secure, no signing algorithm is none where that is forbidden, and its values have the specified types. A registration response that names a configuration endpoint must name the access token for it, and the other way around. Defaults the specification gives are filled in and nothing that was sent is replaced.',
  'inputs', 'every set of registration metadata over every delivery',
  'The tests check two of the rules, once each.',
  ['request rules @ oidc/__init__.py:RegistrationRequest.verify', 'response rules @ oidc/__init__.py:RegistrationResponse.verify'],
  'runtime monitoring: rule-table oracle over generated metadata', REF),
P('C20', 'Provider configurations that break the discovery rules are refused',
  'A provider configuration is accepted exactly when every mandatory item is there, the issuer is an https URL without query or fragment, RS256 is among the ID Token algorithms, a token endpoint is there unless only the implicit flow is offered, and every scope consists of allowed characters and includes openid. The only relaxation is the one the caller explicitly asks for.',
  'inputs configurations', 'every set of provider metadata, issuer URL and caller option',
  'The tests break four of the rules, once each.',
  ['provider rules @ oidc/__init__.py:ProviderConfigurationResponse.verify', 'scope characters @ oidc/__init__.py:check_char_set'],
  'runtime monitoring: rule-table oracle over generated metadata', REF),
P('C21', 'Error responses are well formed, recognised and per endpoint',
  'An error description with a character OAuth2 does not allow is refused and one without is accepted, for each kind of response. Each endpoint accepts the error codes specified for it and refuses those of others, and a message is taken for an error exactly when it says so.',
  'inputs programs', 'every description text, every error code x response class, every message',
  'The tests try one bad character and a handful of codes.',
  ['character check @ oauth2/__init__.py:ResponseMessage.verify', 'recognition @ oauth2/__init__.py:is_error_message', 'codes @ oidc/__init__.py:AuthorizationErrorResponse'],
  'runtime monitoring: character- and code-table oracles', REF),
P('C22', 'Userinfo values and claims requests are judged by the specification',
  'A userinfo response is accepted only with a birthdate in a specified form and without empty-valued claims. A claim value matches a requested value or list of values exactly when they are equal or it is among them; a request without such a restriction matches every value.',
  'inputs', 'every birthdate text, every claim set with null values, every value x claims request',
  'The tests try five birthdates and four matches.',
  ['birthdate and nulls @ oidc/__init__.py:OpenIDSchema.verify', 'matching @ oidc/__init__.py:claims_match'],
  'runtime monitoring: reference predicates over generated values', REF),
P('C23', 'Identity assurance data keeps its kind and requests keep their rules',
  'Evidence in verified claims is read as the kind its type names and is refused when it lacks what this kind requires. A claims request for identity assurance is refused when it restricts a claim in a way the claim can not have, or exceeds specified sizes, and a request built piece by piece contains exactly what was put in.',
  'inputs', 'every evidence of each kind, every verified claims request, every sequence of construction steps',
  'The tests follow the examples of the specification; nothing is tried that is wrong.',
  ['evidence dispatch @ oidc/identity_assurance.py:Evidence.verify', 'request rules @ oidc/identity_assurance.py:verify_claims_request', 'construction @ oidc/identity_assurance.py:ClaimsConstructor', 'place in claims @ oidc/identity_assurance.py:VerifiedClaims'],
  'runtime monitoring: reference models of evidence dispatch, request rules and construction', REF),
P('C24', 'A time stamp denotes the same instant before and after conversion',
  'A time converted to an identity assurance time stamp and back, or received, stored and sent on, denotes the same instant or date, whatever the time zone of the process, the offset used in the text, or daylight saving around that instant. A text that is no time stamp is refused.',
  'inputs configurations', 'every instant x time zone of the process x offset and form of the text',
  'The tests run in one time zone, with one or two instants.',
  ['writing @ oidc/identity_assurance.py:to_iso8601_2004', 'reading @ oidc/identity_assurance.py:from_iso8601_2004', 'in messages @ oidc/identity_assurance.py:time_stamp_ser'],
  'runtime monitoring: instants compared with an independent calendar under changing TZ', REF + 'Uses the zone database of the machine.'),
P('C25', 'The file store is a durable map, whatever the history',
  'For any history of storing, reading, replacing, deleting, listing, counting and clearing, through any number of store objects over one directory opened at any time, each read gives what was last stored under exactly that key. Keys and values can be any text the conversion supports, and an operation that fails leaves everything as it was: a failed write the old value, a failed read nothing outdated.',
  'histories inputs fault_sequences', 'every history over several instances, hostile keys and values, value converters, failing writes and edits from outside',
  'The tests use one instance for most of what they do, with plain keys.',
  ['reading @ storage/abfile.py:AbstractFileSystem.__getitem__', 'writing @ storage/abfile.py:AbstractFileSystem.__setitem__', 'change detection @ storage/abfile.py:AbstractFileSystem.is_changed', 'synchronisation @ storage/abfile.py:AbstractFileSystem.synch'],
  'runtime monitoring: model-based histories on real directories with fault injection', REF + 'Two listed findings (lock suffix, white space) are recognised by mechanism. Instances are used one operation at a time.'),
P('C26', 'Processes and threads sharing a file store see a linearizable, crash-proof map',
  'When several processes use stores over one directory, or threads share a store object, their operations on each key appear to take effect one at a time, between call and return. A process killed at any point leaves every other key as it was and its own key as before or after the interrupted operation, and blocks nobody.',
  'schedules crash_points histories', 'every interleaving of operations of two processes or threads at the granularity of the storage code, every kill point inside an operation, and stress histories of up to eight processes',
  'The tests have a single process; races and crashes can not show.',
  ['locking and writing @ storage/abfile.py:AbstractFileSystem.__setitem__', 'removal @ storage/abfile.py:AbstractFileSystem._delete', 'reading @ storage/abfile.py:AbstractFileSystem._read_info', 'synchronisation @ storage/abfile.py:AbstractFileSystem.synch'],
  'runtime monitoring: stop/kill points by trace hook, recorded histories checked for linearizability',
  'Held on the interleavings and kill points the evidence file counts: each is one process stopped or killed (SIGKILL) at a line of the storage code while others run, plus unconstrained multi-process stress with an offline per-key linearizability checker. Power loss is not simulated.'),
P('C27', 'Labelled stores and issuers sharing storage never mix',
  'Stores with different labels over one directory, and data of different issuers in one store, behave as separate maps, however similar or odd the labels and names, for any interleaving of operations. The configuration selects the documented kind of store.',
  'histories configurations inputs', 'every interleaved history over any set of labels and issuers, every documented configuration',
  'The tests use two plain labels, and one operation after another.',
  ['labels in file names @ storage/abfile.py:LabeledAbstractFileSystem', 'issuer partition @ context.py:add_issuer', 'selection @ storage/init.py:storage_factory'],
  'runtime monitoring: model-based histories with one dictionary per label', REF + 'Labels containing "__" or ending in "_" are outside (separator).'),
P('C28', 'The SQL store is a durable map, whatever the history',
  'For any history of setting, updating, deleting and looking up, through any number of connections and restarts, each look-up gives what was last stored under exactly that key. A failed or interrupted operation leaves the stored data as before or, for an interrupted one, after it, and the database usable.',
  'histories inputs crash_points fault_sequences', 'every history over several connections with hostile keys and values, failing writes, and kills inside operations',
  'The tests run five operations on one in-memory connection.',
  ['operations @ storage/absqlalchemy.py:AbstractStorageSQLAlchemy'],
  'runtime monitoring: model-based histories on real database files, SIGKILL at trace-chosen points', REF + 'SQLite through SQLAlchemy 1.4; other databases are not tried.'),
P('C29', 'A context returns what was put in and holds exactly the configured keys',
  'What is stored in a context is what is read from it, with any configured storage, after a restart as well when the storage is durable, and without influence on other contexts. Its key jar holds exactly the keys of the configuration, for the right owners, however often it is restarted, and building it does not change the configuration.',
  'configurations histories', 'every storage and key configuration, entity id, and history of storing and restarting',
  'The tests build three contexts, none of them twice.',
  ['construction @ context.py:OidcContext', 'key jar @ context.py:OidcContext._keyjar', 'key import @ context.py:import_new_keys'],
  'runtime monitoring: model-based histories, key sets compared by thumbprint', REF),
P('C30', 'Time comparisons agree with UTC, whatever the zone and the notation',
  'Whether a point in time is before or after now, later than another, or a given span from now is decided right for every notation the library takes, to the second, in any time zone and on either side of a daylight saving change.',
  'inputs configurations', 'every point in time x notation (number, text, struct) x time zone',
  'The tests run in one zone with points far from now.',
  ['comparison @ time_util.py:before', 'order @ time_util.py:later_than', 'reading @ time_util.py:str_to_time', 'now @ time_util.py:utc_time_sans_frac'],
  'runtime monitoring: bracketed clock readings and an independent calendar under changing TZ', REF),
P('C31', 'Durations are parsed and added as XML Schema says',
  'A duration text is read as the years, months, days, hours, minutes, seconds and sign it consists of, and any other text is refused. Adding a duration to a point in time gives the point XML Schema defines, whatever the time zone.',
  'inputs', 'every duration text, well formed or not, and every starting point from 1970 on',
  'The tests add four durations to one point.',
  ['parsing @ time_util.py:parse_duration', 'adding @ time_util.py:add_duration', 'month lengths @ time_util.py:maximum_day_in_month_for'],
  'runtime monitoring: reference implementation of the XML Schema algorithm', REF + 'One listed finding (what the tests want for days) is modelled exactly, so other deviations are still reported.'),
P('C32', 'Language tags, defaults and factories give exactly the message asked for',
  'A language tagged parameter is held to the type of the parameter it tags and is independent of it. Defaults fill what is missing and nothing else. A factory called with the name of a message builds that message with the values given and refuses names that are none.',
  'inputs programs', 'every class x parameter x language tag, every default, every message name and argument set',
  'The tests have a handful of tagged names and factory calls.',
  ['tagged values @ message.py:Message.from_dict', 'defaults @ message.py:Message.set_defaults', 'factories @ oauth2/__init__.py:factory', 'OIDC factory @ oidc/__init__.py:factory'],
  'runtime monitoring: reference models for tags, defaults and class selection', REF),
P('C33', 'Configured paths are normalised and moved exactly as asked',
  'Normalising a path gives a relative path in canonical form that names the same place below the base. Moving the paths of a configuration to a base directory changes exactly the named relative path items and makes them the same place below the base.',
  'inputs configurations', 'every path text; every nested configuration, item selection and base directory',
  'The tests normalise four paths and move none.',
  ['normalising @ __init__.py:proper_path', 'moving @ __init__.py:add_base_path'],
  'runtime monitoring: comparison with a path resolver', REF + 'Upward paths are not judged beyond what the code documents.'),
P('C34', 'What is issued is what was asked for',
  'An ID Token, signed message, encrypted message or request object that the library issues contains exactly the claims put in and those documented to be added, with right time stamps and hashes, is signed with the demanded algorithm and key, and is accepted by an independent verifier and by the library itself.',
  'inputs', 'every claim set, algorithm, key and life time; every message class for signed messages',
  'The tests issue single tokens and read them back with the same library.',
  ['ID Tokens @ oidc/__init__.py:IdToken.pack', 'signed messages @ message.py:Message.to_jwt', 'request objects @ oidc/__init__.py:make_openid_request', 'time stamps @ oidc/__init__.py:IdToken.pack_init'],
  'runtime monitoring: issued tokens read by an independent decoder and verifier', REF + 'Trusts the cryptography package for the primitives.'),
P('C35', 'Hostile sizes and shapes are dealt with in proportion',
  'Whatever the size, number, repetition or nesting of what a peer sends or a configuration holds, reading, verifying, converting, merging, matching and storing it takes processor time and memory in proportion to its size (no blow-up, no endless loop), ends in a result or an ordinary exception, never ends the process, and leaves the library working for the next message.',
  'inputs', 'long, repeated and deeply nested values, many members, many list items and adversarial texts for every message class, every function that takes text, and the stores',
  'No test uses anything large; blow-ups show only with the size and shape an attacker picks.',
  ['deserialization @ message.py:Message.from_dict', 'form decoding @ message.py:Message.from_urlencoded', 'durations and time stamps @ time_util.py:parse_duration', 'birth dates @ oidc/__init__.py:OpenIDSchema.verify',
   'scope characters @ oidc/__init__.py:check_char_set', 'claims requests @ oidc/identity_assurance.py:verify_claims_request', 'paths @ __init__.py:proper_path'],
  'runtime monitoring: processor time, memory and outcome of each operation, in limited child processes', REF + 'The limits are absolute (2.5 s of processor time for one operation, 8 s for a case, 700 MB) and several times what the largest inputs take; less than that is not noticed.'),
P('C36', 'Messages handled before or at the same time make no difference',
  'The outcome of building, reading, verifying or converting a message depends on its input, the arguments and the key jar only: not on which messages, valid or not, the process handled before, and not on what other threads are doing with other messages meanwhile.',
  'schedules histories', 'sequences and interleavings of the cases of all other checks, with turns passed at lines of the library',
  'Each test starts from fresh objects and runs alone; left-overs in shared tables, defaults and caches show only in company.',
  ['parameter tables @ message.py:Message.__init__', 'tables extended in subclasses @ oidc/__init__.py:AuthorizationRequest', 'ID Token verification @ oidc/__init__.py:verify_id_token',
   'logout tokens @ oidc/session.py:LogoutToken', 'assurance claims requests @ oidc/identity_assurance.py:verify_claims_request', 'time helpers @ time_util.py:utc_time_sans_frac'],
  'runtime monitoring: the oracles of the other checks under histories and thread schedules; failing cases redone alone', REF + 'Turns are passed at lines of the library, not inside one line or inside third-party code.'),
P('C37', 'The way the interpreter is run makes no difference',
  'Verdicts, contents and stored values are the same whatever the optimization level (-O, -OO), hash seed, locale, logging configuration, garbage collection, umask, current directory or thread, and what one interpreter stores another one with a different locale reads back unchanged.',
  'inputs schedules', 'interpreter settings x the cases of the other checks; stores shared by interpreters with different locales',
  'The tests run in one interpreter with one set of settings; checks that vanish with -O, or text written in the encoding of the locale, pass them.',
  ['token verification @ oidc/__init__.py:verify_id_token', 'claim checks @ oidc/__init__.py:JsonWebToken.verify', 'files @ storage/abfile.py:AbstractFileSystem.__setitem__', 'logging @ message.py:Message.from_jwt'],
  'runtime monitoring: the oracles of the other checks in interpreters with drawn settings; failing cases redone under ordinary ones', REF + 'Only the locales that exist here (C, POSIX, C.utf8).'),
P('C38', 'Whole protocol runs: understood when honest, refused when mixed up',
  'Through discovery, registration, authorization request, response, token request and response, user info and logout, both sides read what the other one said; an ID Token, code, access token, request object, client assertion, logout token or parameter that belongs to another run, client, provider or purpose, or was made by the attacker, is refused by the side that relies on it, and honest runs going on meanwhile are not disturbed.',
  'inputs schedules histories', 'interleaved runs of several clients and providers, every response type, signed and plain requests, one message replaced at any step',
  'The tests look at single messages; substitution attacks need two runs and a step in which one is taken for the other.',
  ['requests @ oidc/__init__.py:AuthorizationRequest.verify', 'responses @ oidc/__init__.py:AuthorizationResponse.verify', 'token responses @ oidc/__init__.py:AccessTokenResponse', 'ID Tokens @ oidc/__init__.py:IdToken.verify',
   'mix-up @ oauth2/__init__.py:AuthorizationResponse.verify', 'logout @ oidc/session.py:BackChannelLogoutRequest.verify', 'request objects @ oidc/__init__.py:make_openid_request'],
  'runtime monitoring: simulated provider, client and attacker exchanging texts, with a reference of what was said', REF + 'The caller states key jar, issuer, client id and nonce.'),
]

FIXED = [
 ('C33', '3e35344', 'add_base_path failed on any relative path: the os module was not imported'),
 ('C17', '86ba41d', 'messages shared mutable default values with their class and each other'),
 ('C21', '610a208', 'OIDC authorization error codes were accepted by the OAuth2 class too (shared table)'),
 ('C06', 'cd31ea1', 'verified slots supplied by the sender survived verification'),
 ('C10', '178daeb', 'a back-channel logout request with an unsigned logout token was accepted'),
 ('C04', '1367129', 'an unsigned id_token_hint was accepted'),
 ('C07', '713728f', 'the rules for requests were not applied to what a request object brought in'),
 ('C25', 'a92b41e', 'the file store deleted another file than the one it had written (converted keys)'),
 ('C26', 'c77ea4d', 'clearing a file store removed or multiplied lock files'),
 ('C26', '01cd188', 'a cached value was paired with the time stamp of another writer: a stale read for ever'),
 ('C25', 'eeafd8b', 'storing a value that can not be stored destroyed the stored one'),
 ('C25', '1ab8839', 'keys added or removed by another instance went unnoticed'),
 ('C27', 'bd2883e', 'update and iteration of labelled stores failed or ignored the label'),
 ('C28', 'cf4ba3f', 'the SQL store did not commit deletions, replaced in two steps and looked for keys in values'),
 ('C28', '68ce290', 'a deletion the database refused left it locked'),
 ('C27', '4d6df17', 'length of a labelled file store was 0 when the label is escaped in file names'),
 ('C24', '4ed1676', 'ISO 8601 time stamps had the current, not their own, UTC offset'),
 ('C24', '5744170', 'a received ISO 8601 time stamp could not be serialized (also C12, C23)'),
 ('C33', '0e0decc', 'proper_path returned paths without "./" for some inputs'),
 ('C21', 'ea412d1', 'error descriptions with characters RFC 6749 allows were refused'),
 ('C20', 'd8247b0', '"!" in a scope was refused'),
 ('C11', '1729f15', 'clock skew made the not-before check less tolerant'),
 ('C09', '9f19a61', 'the audience of an authorization response was compared as substring'),
 ('C07', 'e431844', 'merging with an empty whitelist kept every request parameter'),
 ('C15', 'ce0b0cb', 'a JSON object was accepted as list of strings'),
 ('C20', '1005857', 'allow_http=False allowed an http issuer'),
 ('C23', '1ac80b0', 'evidence of a named type could not be verified'),
 ('C15', '6044f74', 'a single value for a list parameter without deserializer was set as an attribute of the object and lost'),
 ('C14', 'f985017', 'device access token requests (RFC 8628) were refused unless they had an authorization code and redirect URI'),
 ('C23', '952b8b5', 'restrictions that are empty or of the wrong kind in identity assurance claims requests'),
 ('C23', 'def114d', 'ClaimsConstructor failed on the claim requests it documents'),
 ('C21', '8833c4e', 'an error from the AS configuration endpoint was not treated as response message'),
 ('C24', 'be407e0', 'time stamp 0 was written as the current time'),
 ('C25', '458f2ca', 'a file replaced by one with an older modification time was taken for unchanged'),
 ('C25', 'c6c3242', 'line endings inside stored texts were changed'),
 ('C25', '09080ea', 'a failed or interrupted write destroyed the stored value (also C26)'),
 ('C26', '31d7e23', 'a key removed by another process in the middle of a read gave an OS error'),
 ('C26', '0ef8cfa', 'two changes within the resolution of the modification time were not told apart (also C25)'),
 ('C26', '0513ed6', 'a listing showed an outdated value of a key that was removed meanwhile'),
 ('C26', '4bdefaa', 'a listing gave an outdated value of a key that others removed and wrote again meanwhile, or whose reading had failed before'),
 ('C29', 'ec0884d', 'each restart with a stored key jar added every key again'),
 ('C28', 'fb4cb84', 'a failed update left the database locked'),
 ('C29', '6f9489c', 'building a context changed the configured JWKS'),
 ('C31', '3901dae', 'durations with minutes but no months were misread or refused'),
 ('C31', '2a8fc53', 'days were taken modulo 60 hours when adding a duration'),
 ('C04', '8a6484d', 'tokens without a signature were accepted by from_jwt although a signing algorithm was demanded'),
 ('C31', '2026122', 'durations with text after them, or with numbers in odd notations, were accepted'),
 ('C31', '706260d', 'durations were added in local time; fractional seconds failed'),
 ('C22', '7f91de1', 'a claims request without value or values did not match if it had other members, or none at all'),
 ('C22', 'c144735', 'birthdates with white space, missing zeros or digits other than 0-9 were accepted'),
 ('C14', '5931768', 'a required boolean that is null, or empty, was not seen as missing'),
 ('C25', 'b6d807a', 'calling a file store listed what the store object saw last, not what other store objects had stored or deleted since'),
 ('C25', 'b7b5310', 'reading, adding or deleting a key while going through keys() or items() made the file store raise RuntimeError'),
 ('C06', '29ea76c', 'verified content supplied by the sender was left in place when the basic verification of the message failed'),
 ('C37', '1613c1d', 'texts outside the encoding of the locale could not be stored, or were read back changed by interpreters with another locale'),
 ('C25', '44edf6d', 'after a read that failed (no file descriptors left, bad content) the outdated value was given out from then on; threads sharing a store object saw outdated or no values (C26)'),
 ('C15', 'cc2f96e', 'JSON text that is not an object was accepted for parameters that are objects'),
 ('C13', '3c5e577', 'all but the first of the values of a repeated list parameter were lost'),
 ('C13', 'd6c440f', 'a nested message in form-encoded input was refused, or torn apart at the first = or & inside'),
 ('C15', 'df296dc', 'a list starting with null was dropped, together with the values after it'),
 ('C12', '0748a3d', 'members of nested objects named set_defaults were lost, and those named self refused (also C23)'),
]
