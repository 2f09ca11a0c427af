"""Single source for properties.jsonl, MANIFEST.json (see gen.py) and check.py."""

BOUNDS_COMMON = [
    "build configuration: the feature set of /opt/vp/env.sh (dynamic, sqlitedb, nssdb, ecdsa, ecdh, ec_montgomery, ffdh, hash_all, kdf_all, rsa, hotp, rfc9580, log); release profile, x86_64",
    "single thread; one module instance",
]
ASSUMPTIONS_COMMON = [
    "libcrypto is replaced by the deterministic stand-in in harness/src/ossl_stub.rs (lengths, buffering, padding, tag checks and error returns follow the documented contracts; keyed functions are toys or, in oracle mode, injective random oracles)",
    "the raw record store below the storage trait is the in-memory mock in harness/inlib.rs (except where a property says otherwise)",
    "PBKDF2 work factor of the token storage is 1 instead of 1000",
    "the IR interpreter in /verif/engine models LLVM IR faithfully; spot-checked on every run by replaying completed paths on the native build",
    "randomness is a fixed deterministic stream unless the property makes it symbolic",
]
PROPS = {}
NA = []


def P(id, **k):
    assert id not in PROPS
    PROPS[id] = k


def na(id, **k):
    NA.append((id, k))


def R(entry, opt=None, **params):
    """one engine run; parameters p0=..,p1=.. become vf_param keys"""
    return (entry, {int(k[1:]): v for k, v in params.items()}, opt or {})


P("C05",
  title="Session and login state machine",
  statement="For every sequence of session opens, closes, logins and logouts, C_GetSessionInfo of every open session reports exactly the state implied by who is logged in and the session's access mode, handles of closed sessions are invalid and never reused, the PKCS#11 exclusion rules between SO logins, user logins and read-only sessions hold, and closing the last session logs out. Login succeeds exactly with the right PIN of a known user type.",
  over=["histories", "inputs"],
  qtext="all sequences of up to 4 (thorough: 5) operations from each initial login state; open flags, user type and the 8-byte PIN are symbolic in every step",
  why="tests walk a handful of fixed login sequences; the state of sessions opened before/after each transition with every flag and user-type value is never enumerated",
  files=["src/session.rs", "src/slot.rs", "src/lib.rs", "src/fns/sessmgmt.rs", "src/token.rs"],
  mechanism=[("Session::new / Session::change_session_state", "src/session.rs"), ("State::drop_session, drop_all_sessions_slot, change_session_states", "src/lib.rs"), ("Token::login/logout", "src/token.rs")],
  runs=[R("h_sess", {"cost": 30}, p0=4, p1=0), R("h_sess", {"cost": 12}, p0=4, p1=1), R("h_sess", {"cost": 9}, p0=4, p1=2)],
  thorough=[R("h_sess", {"timeout": 3000}, p0=5, p1=0), R("h_sess", {"timeout": 3000}, p0=5, p1=1), R("h_sess", {"timeout": 3000}, p0=5, p1=2)],
  bounds=["4 (thorough 5) symbolic operations after one open read-write session; in each, the operation targets the oldest or newest session", "PINs of 8 bytes, all values; flags and user type all 2^64 values"],
)

P("C06",
  title="PIN attempt counter locks a user after ten consecutive failures",
  statement="Every presentation of a wrong PIN, through login, PIN change or token re-initialisation, consumes one attempt of that user; the tenth consecutive failure locks the user for good, across module restarts, even for the right PIN. Only presenting the right PIN before lockout, or the SO setting the user PIN, restores the attempts, and the token flags always tell the truth about the attempts left.",
  over=["histories", "inputs"],
  qtext="all sequences of 3 (thorough: 4) operations out of login, logout, PIN change, PIN initialisation, restart and token re-initialisation with symbolic 8-byte PINs, after 0 to 10 earlier failures of either user",
  why="tests count one fixed sequence of failures on one path; interleavings of the two users, restarts and the other PIN-checking entry points are not covered",
  files=["src/storage/aci.rs", "src/storage/format.rs", "src/token.rs", "src/fns/stmgmt.rs"],
  mechanism=[("StorageACI::authenticate, StorageAuthInfo::locked", "src/storage/aci.rs"), ("StdStorageFormat::auth_user, user_flags", "src/storage/format.rs"), ("Token::auth_user, update_auth_flags", "src/token.rs")],
  runs=[R("h_pin", p0=3, p1=9), R("h_pin", p0=3, p2=9), R("h_pin", p0=3, p1=8), R("h_pin", p0=3, p1=10, p4=2), R("h_pin", p0=3, p1=7, p2=8), R("h_pin", p0=3, p2=10), R("h_pin", p0=2, p1=9, p9=1), R("h_pin", p0=2, p2=8, p9=1)],
  thorough=[R("h_pin", {"timeout": 3000}, p0=4, p1=a, p2=b, p4=c) for (a, b, c) in [(9, 0, 0), (0, 9, 0), (9, 9, 0), (10, 0, 2), (8, 8, 0), (7, 7, 0), (0, 9, 1), (6, 6, 0)]],
  bounds=["up to 10 concrete wrong attempts followed by 3 (thorough 4) symbolic operations", "symbolic PINs have 8 bytes"],
)

P("C07",
  title="PINs change only through their owner's PIN or the SO",
  statement="C_SetPIN succeeds exactly when the current PIN of the acting user is presented on a read-write session, C_InitPIN exactly when the SO is logged in, and token re-initialisation exactly with the SO PIN and no open session. After a successful change only the new PIN authenticates; after any refused call every PIN is unchanged, also across restarts.",
  over=["histories", "inputs"],
  qtext="all sequences of 3 (thorough: 4) PIN operations with symbolic old and new PINs, from every login state",
  why="tests change PINs between fixed values; that no other byte string is accepted afterwards is a statement over all PIN values",
  files=["src/fns/stmgmt.rs", "src/token.rs", "src/storage/aci.rs", "src/storage/format.rs"],
  mechanism=[("set_pin / init_pin / init_token", "src/fns/stmgmt.rs"), ("Token::set_pin, Token::initialize", "src/token.rs"), ("StorageACI::key_to_user_data, encrypt_key, decrypt_key", "src/storage/aci.rs")],
  runs=[R("h_pin", p0=3), R("h_pin", p0=3, p4=1), R("h_pin", p0=3, p4=2), R("h_pin", p0=2, p3=5, p4=1), R("h_pin", p0=2, p3=13, p4=2), R("h_pin_ro"), R("h_pin_ro", p0=1)],
  thorough=[R("h_pin", {"timeout": 3000}, p0=4, p4=c) for c in (0, 1, 2)],
  bounds=["PIN lengths 5, 8 and 13 bytes; all values; PINs that differ only in trailing NUL bytes count as equal (inherent to PBKDF2-HMAC)", "3 (thorough 4) symbolic operations"],
)

P("C01",
  title="Secret key material is never disclosed",
  statement="While a key is sensitive or unextractable, no attribute read, search, copy, attribute change or wrap returns its secret components or their length, and no history of accepted calls turns it into one whose components can be read. The components of every other key stay readable with exactly the value they were given.",
  over=["histories", "inputs"],
  qtext="for every kind of secret or private key (AES, generic, HKDF, HOTP, RSA, EC, DH, X25519; created, generated or unwrapped; session and token), all combinations of five initial flags and one (thorough: two) attribute change or copy with a fully symbolic 64-bit attribute type, length class and value",
  why="tests read back a few attributes of a few keys; that no attribute type, value and call order leaks is a statement over all of them",
  files=["src/object/factory.rs", "src/object/key.rs", "src/token.rs", "src/storage/format.rs", "src/attribute.rs"],
  mechanism=[("ObjectFactories::get_object_attributes, check_sensitive", "src/object/factory.rs"), ("OAFlags::Sensitive on CKA_VALUE and private components", "src/object/key.rs, src/rsa.rs, src/ec, src/ffdh.rs, src/hotp.rs")],
  runs=[R("h_attr", {"cost": 22 if k == 3 else 10}, p0=k, p6=1) for k in (0, 1, 2, 3, 4, 5, 6, 7)] + [R("h_attr", p0=0, p5=o, p6=1) for o in (1, 2)] + [R("h_attr", {"cost": 25}, p0=0, p2=1, p4=1, p6=1), R("h_attr", {"cost": 25}, p0=5, p2=1, p4=1, p6=1)]
  + [R("h_find_secret", p0=k, p1=t) for k in (0, 1, 2, 3, 4, 5, 6, 7) for t in (0, 1)],
  thorough=[R("h_attr", {"timeout": 3000}, p0=k, p2=1, p6=1) for k in (0, 3, 4, 5)] + [R("h_attr", {"timeout": 3000}, p0=k, p1=2, p4=1, p6=1) for k in (0, 1, 4, 5, 6, 7)],
  bounds=["1 (thorough 2) symbolic C_SetAttributeValue/C_CopyObject per history, template of a label and one symbolic attribute of 0, 1 or 8 bytes", "token runs: attribute type out of 16 security-relevant ones (thorough: all)"],
)

P("C02",
  title="Attribute policy: one-way and read-only attributes",
  statement="CKA_SENSITIVE and CKA_WRAP_WITH_TRUSTED only ever become true, CKA_EXTRACTABLE and CKA_COPYABLE only false; class, type, token, private, unique id, trust, origin (CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, generation mechanism) are fixed and truthful. CKA_MODIFIABLE, CKA_COPYABLE and CKA_DESTROYABLE are obeyed, an accepted change takes effect on the named attributes alone, and a refused one changes nothing.",
  over=["histories", "inputs"],
  qtext="for every storable kind of object and origin (created, generated, unwrapped; session and token), all combinations of five initial flags and one (thorough: two) attribute change or copy with a fully symbolic 64-bit attribute type, length class and value",
  why="tests try a handful of forbidden changes; the policy is a table over all attribute types and every way of changing them",
  files=["src/object/factory.rs", "src/object/key.rs", "src/object/certs.rs", "src/object/mod.rs", "src/token.rs", "src/attribute.rs"],
  mechanism=[("ObjectFactory::check_set_attributes, set_object_attributes, default_copy", "src/object/factory.rs"), ("Token::set_object_attrs, copy_object, destroy_object", "src/token.rs")],
  runs=[R("h_attr", {"cost": 22 if k == 3 else 10}, p0=k, p6=2) for k in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11)] + [R("h_attr", p0=0, p5=o, p6=2) for o in (1, 2)] + [R("h_attr", p0=0, p3=1, p6=2), R("h_attr", {"cost": 25}, p0=0, p2=1, p4=1, p6=2), R("h_attr", p0=9, p2=1, p4=1, p6=2)],
  thorough=[R("h_attr", {"timeout": 3000}, p0=k, p2=1, p6=2) for k in (0, 4, 9, 10, 11)] + [R("h_attr", {"timeout": 3000}, p0=k, p1=2, p4=1, p6=2) for k in (0, 1, 4, 5, 9, 10, 11)],
  bounds=["1 (thorough 2) symbolic C_SetAttributeValue/C_CopyObject per history, template of a label and one symbolic attribute of 0, 1 or 8 bytes, in either order", "token runs: attribute type out of 16 security-relevant ones (thorough: all)"],
)

P("C03",
  title="Private objects need a user login",
  statement="While no user is logged in, no private token object is found by any search and no call taking its handle reads, sizes, copies, changes, destroys or uses it; private session objects do not outlive the logout. After the next user login the token objects are back unchanged, and the user can use them in every way.",
  over=["histories", "inputs"],
  qtext="six kinds of object, session and token, in the states logged out, module restarted, all sessions closed, SO logged in and user logged in, through 7 object functions (attribute type symbolic over 64 bits) and 14 key uses, searched with 3 templates",
  why="tests cover single functions on single objects; the guarantee is over every function that accepts a handle and every way of losing the login",
  files=["src/token.rs", "src/fns/objmgmt.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/keymgmt.rs", "src/fns/digest.rs", "src/storage/format.rs", "src/lib.rs"],
  mechanism=[("Token::get_object_by_handle, get_object_attrs, copy_object, get_object_size, search_objects, logout", "src/token.rs")],
  runs=[R("h_private", p0=s, p2=u) for s in (0, 1, 2, 3, 4) for u in (0, 1)] + [R("h_private", p0=s, p1=k) for s in (0, 4) for k in (3, 4, 9, 10, 11)] + [R("h_private", p0=1, p1=k) for k in (3, 9, 10)],
  thorough=[R("h_private", p0=s, p1=k) for s in (0, 1, 2, 3, 4) for k in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11)],
  bounds=["one private and one public object; one call after the change of login state, from a read-write or read-only session"],
  note="the SO case is a known finding: a logged in SO can find and use private objects",
)

P("C04",
  title="Read-only sessions leave the token alone",
  statement="No call made through a read-only session creates, changes or destroys a token object or writes token storage: object creation, copy, key and key-pair generation, unwrapping and derivation (all templates of the call) with a true CKA_TOKEN, attribute changes, destruction and PIN initialisation are refused without effect. Session objects can still be created.",
  over=["inputs"],
  qtext="11 object-creating calls with symbolic CKA_TOKEN bytes in each template, and 6 calls on an existing token object (attribute type and value symbolic), logged in or not",
  why="tests try a true CKA_TOKEN on a few functions; templates inherited by copies or nested in mechanism parameters are not covered",
  files=["src/fns/mod.rs", "src/fns/objmgmt.rs", "src/fns/keymgmt.rs", "src/fns/stmgmt.rs", "src/session.rs", "src/token.rs"],
  mechanism=[("fail_if_cka_token_true", "src/fns/mod.rs"), ("Session::is_writable", "src/session.rs")],
  runs=[R("h_readonly", p0=a, p1=b) for a in (0, 1) for b in (0, 1)],
  thorough=[R("h_readonly", p0=a, p1=b) for a in (0, 1) for b in (0, 1)],
  bounds=["one call per history; every value byte of CKA_TOKEN"],
)

P("C08",
  title="Lifetime of objects and handles",
  statement="A handle refers to one object until that object is destroyed, its session is closed (session objects) or the user logs out (private session objects), and is invalid ever after: it is never reused for another object. Searches return exactly the live visible objects, and no call on one object or session affects another one.",
  over=["histories"],
  qtext="all sequences of 2 (thorough: 3) operations out of create, destroy, copy, close, close-all, logout, login and attribute change over two sessions and four initial objects of every sort, all handles re-checked after each step",
  why="tests check single transitions; stale or reused handles show up only in specific sequences of closes, logouts and creations",
  files=["src/storage/format.rs", "src/token.rs", "src/lib.rs", "src/session.rs", "src/storage/mod.rs"],
  mechanism=[("Handles::next/insert/remove", "src/object/mod.rs, src/token.rs"), ("Token::drop_session_objects, clear_private_session_objects, destroy_object", "src/token.rs"), ("State::drop_session", "src/lib.rs")],
  runs=[R("h_life", p0=2), R("h_life", p0=1, p9=1)],
  thorough=[R("h_life", {"timeout": 3000}, p0=3, p1=k) for k in range(1, 7)],
  bounds=["2 (thorough 3) symbolic operations; data objects; two sessions"],
)

P("C18",
  title="Protection of derived keys",
  statement="A key derived by concatenation, exclusive or or extraction is sensitive if any key it is made from is, and extractable only if all of them are; keys of a TLS session are protected exactly like their master secret; otherwise the template decides. A derived key is never local, and is marked always sensitive or never extractable only if all the keys it is made from are and it is itself sensitive or not extractable. A refused derivation makes no key.",
  over=["inputs"],
  qtext="seventeen derivation mechanisms, results of type generic secret and AES; base keys brought in or generated, with symbolic sensitive and extractable bytes (of both keys for a concatenation of keys), and a template with symbolic sensitive and extractable bytes or without",
  why="tests derive from one non-sensitive key with one template; the rule is over the product of the flags and the histories of all the keys involved, for each mechanism",
  files=["src/fns/keymgmt.rs", "src/object/key.rs", "src/native/simplekdf.rs", "src/native/tlskdf.rs", "src/native/sp800_108.rs", "src/native/sshkdf.rs", "src/hash.rs", "src/ossl/hkdf.rs", "src/ossl/ecdh.rs", "src/ossl/ffdh.rs", "src/aes.rs"],
  mechanism=[("derive_key", "src/fns/keymgmt.rs"), ("KeyFactory::key_derive", "src/object/key.rs"), ("Derive::derive of each mechanism", "src/native, src/ossl, src/hash.rs, src/aes.rs")],
  runs=[R("h_derive_attrs", p0=i, p1=a) for i in range(17) for a in (0, 1)],
  bounds=["one derivation per history; other parameters of the mechanisms fixed"],
)
P("C20",
  title="One-time passwords are right and each counter is used once",
  statement="A HOTP value is the one RFC 4226 defines for the key, the counter and the number of digits; verification accepts exactly the values of the next five counters. Generating or accepting a value moves the key's counter just past it, persistently for a token key, and no value is generated or accepted again for a counter already used, whatever operations of other sessions are under way. A refused call, a length query or a failing storage releases no value and uses no counter; a counter given by the caller is used only if the key allows it.",
  over=["inputs", "schedules"],
  qtext="all digests and numbers of digits, boundary counters, every truncation offset, given counters of right and wrong length, single altered digits; every sequence of four steps (start, generate, verify) of two sessions sharing the key; every single storage failure",
  why="tests check the RFC vectors in one session; reuse needs two operations started before either is finished, or a failing write",
  files=["src/hotp.rs", "src/fns/signing.rs", "src/token.rs"],
  mechanism=[("HOTPOperation", "src/hotp.rs"), ("Token::replace_object_attrs", "src/token.rs")],
  runs=[R("h_otp", p0=h, p1=6 + h, p2=h % 2) for h in range(3)] + [R("h_otp_seq", p0=t, p1=4) for t in (0, 1)] + [R("h_otp_seq", p0=1, p1=2, p2=1)],
  thorough=[R("h_otp", {"timeout": 1200}, p0=h, p1=n, p2=k) for h in range(3) for n in (6, 7, 8) for k in (0, 1)] + [R("h_otp_seq", {"timeout": 3000}, p0=t, p1=n) for t in (0, 1) for n in (5, 6)] + [R("h_otp_seq", {"timeout": 3000}, p0=1, p1=n, p2=1) for n in (3, 4)],
  bounds=["four steps of two sessions (thorough six); the digest is a random oracle whose result is chosen so that the truncation takes the bytes wanted, one of them with 16 values; calls are atomic"],
)
P("C21",
  title="Derived keys have the value their mechanism defines",
  statement="The value of a derived key is the one its mechanism defines: concatenation, exclusive or, bit extraction, digest, HKDF, SP 800-108 counter and feedback mode with every format of counter and length, AES encryption of data, TLS 1.2 PRF outputs in the order of RFC 5246, ECDH with and without KDF, Diffie-Hellman, SSH KDF and PBKDF2. It has exactly the length asked for, or that of the key type; with too little material, or a length that does not suit the type, no key is made.",
  over=["inputs"],
  qtext="for each mechanism, base keys, data, salts, labels and IVs with symbolic bytes (all of them where the mechanism mixes bytes itself), all bit offsets, all counter and length formats, several requested lengths and key lengths, agreed secrets with and without leading zeroes",
  why="tests compare a few vectors; encodings of lengths and counters, truncation at either end, bit offsets and leading zeroes only matter for particular values",
  files=["src/native/simplekdf.rs", "src/native/tlskdf.rs", "src/native/sp800_108.rs", "src/sp800_108.rs", "src/native/sshkdf.rs", "src/native/hmac.rs", "src/hash.rs", "src/ossl/hkdf.rs", "src/pbkdf2.rs", "src/native/pbkdf2.rs", "src/ossl/ecdh.rs", "src/ossl/ffdh.rs", "ossl/src/derive.rs", "src/aes.rs"],
  mechanism=[("SimpleKDFOperation, Sp800Operation, TLSKDFOperation, SSHKDFOperation", "src/native"), ("HKDFOperation, ECDHOperation, FFDHOperation", "src/ossl"), ("HashKDFOperation", "src/hash.rs"), ("AesKDFOperation", "src/aes.rs")],
  runs=[R("h_derive_value", p0=i, p1=l, p2=b, p3=v, p4=a) for i in range(4) for l in (0, 16, 24) for (b, v, a) in ((16, 0, 0), (24, 1, 0), (16, 0, 1), (16, 1, 1))] + [R("h_derive_value", p0=i, p1=33, p2=16, p3=0, p4=0) for i in range(4)]
    + [R("h_derive_value", p0=4, p1=l, p2=b) for l in (0, 1, 3) for b in (1, 3)] + [R("h_derive_value", p0=4, p1=16, p2=16, p4=1)]
    + [R("h_derive_value", p0=5, p1=l, p4=a) for l in (0, 1, 32, 33) for a in (0, 1)]
    + [R("h_derive_value", p0=6, p1=l, p3=v) for l in (0, 40) for v in (0, 1, 2, 3, 5, 7, 9, 11, 18, 19, 22, 23, 27)] + [R("h_derive_value", p0=6, p1=l, p3=7, p4=1) for l in (16, 17)]
    + [R("h_derive_value", {"cost": 3}, p0=i, p1=l, p3=v) for (i, vs) in ((7, (0, 5)), (8, (0, 7, 9))) for l in (16, 33) for v in vs]
    + [R("h_derive_value", {"cost": 3}, p0=i, p1=l, p3=v) for (i, l, v) in ((7, 8160, 0), (7, 8161, 0), (7, 8160, 1), (8, 8161, 8))]
    + [R("h_derive_value", p0=i, p1=l, p2=16, p3=v, p4=a) for i in (9, 10) for l in (0, 16, 32) for v in (0, 1) for a in (0, 1)]
    + [R("h_derive_value", p0=11, p1=l, p2=48, p3=v) for l in (0, 47) for v in range(3)] + [R("h_derive_value", p0=12, p1=l, p2=48, p4=a) for l in (0, 17) for a in (0, 1)] + [R("h_derive_value", p0=13, p1=l, p2=48, p4=a) for l in (16, 40) for a in (0, 1)]
    + [R("h_derive_value", p0=14, p1=l, p3=v, p4=a) for l in (0, 16, 33) for v in range(8) for a in (0, 1)] + [R("h_derive_value", p0=15, p1=l, p3=v, p4=a) for l in (0, 16, 255, 256, 257) for v in (0, 1) for a in (0, 1)]
    + [R("h_derive_value", p0=16, p1=l, p3=v) for l in (16, 40) for v in range(4)] + [R("h_pbkdf2", p0=k, p1=a, p2=b) for k in range(5) for a in (0, 1) for b in (0, 1)],
  thorough=[R("h_derive_value", p0=4, p1=l, p2=b) for l in (2, 4, 5, 8) for b in (2, 4, 5, 8)] + [R("h_derive_value", p0=i, p1=l, p2=b, p3=v, p4=0) for i in range(4) for l in (1, 7, 8, 15, 17, 32, 40, 64, 65) for b in (8, 24, 32) for v in (0, 1)]
    + [R("h_derive_value", p0=6, p1=l, p3=v) for l in (5, 32, 64) for v in range(32) if (v >> 2) & 3 != 3] + [R("h_derive_value", {"timeout": 1200}, p0=i, p1=l, p3=v) for i in (7, 8) for l in (1, 32, 64, 65, 255) for v in range(16 if i == 8 else 8)],
  bounds=["primitives (digest, KDF, agreement) are random oracles: what is checked is what they are applied to and what is made of their result", "SHA-256 and HMAC-SHA-256 as underlying functions", "at most one additional key for SP 800-108"],
)
P("C19",
  title="Signatures, MACs and digests are as defined and only they verify",
  statement="A digest, MAC or signature is what its mechanism defines for the data, key and parameters given: the digest requested, the padding, salt length and mask function requested, the requested number of bytes, in the encoding PKCS#11 prescribes. It does not depend on how the data is split into parts nor on whether it is produced in one call. Verification accepts that value and refuses every other value and every other length.",
  over=["inputs"],
  qtext="symbolic keys and data of boundary lengths, every split into two parts, every requested MAC or salt length, every other value of a changed signature byte and all wrong lengths; all digests, RSA PKCS#1, PSS and X.509, ECDSA on three curves, HMAC, AES-CMAC, AES-MAC and TLS 1.2 MAC",
  why="tests verify a few vectors and one altered signature; a truncated comparison, an ignored parameter or state kept from the previous part only shows for particular lengths, splits and altered bytes",
  files=["src/native/hmac.rs", "src/ossl/hash.rs", "src/ossl/rsa.rs", "src/ossl/ecdsa.rs", "src/ossl/aes.rs", "src/native/tlskdf.rs", "src/fns/signing.rs", "src/fns/digest.rs", "ossl/src/signature.rs", "ossl/src/mac.rs"],
  mechanism=[("HMACOperation", "src/native/hmac.rs"), ("RsaPKCSOperation sign/verify", "src/ossl/rsa.rs"), ("EcdsaOperation", "src/ossl/ecdsa.rs"), ("AesMacOperation", "src/ossl/aes.rs"), ("HashOperation", "src/ossl/hash.rs")],
  runs=[R("h_sign", p0=f, p1=d) for f in (0, 1) for d in range(11)] + [R("h_sign", p0=f, p1=d) for f in (2, 3, 4) for d in (0, 1, 4)] + [R("h_sign", p0=4, p1=1, p2=2)]
    + [R("h_sign", p0=f, p2=k) for f in (5, 10) for k in (0, 2)] + [R("h_sign", p0=f) for f in (6, 7, 8, 11)] + [R("h_sign", p0=9, p2=c) for c in range(3)]
    + [R("h_digest", p0=d) for d in range(11)],
  thorough=[R("h_sign", {"timeout": 1200}, p0=f, p1=d, p3=1) for f in (0, 1) for d in range(11)] + [R("h_sign", {"timeout": 1200}, p0=f, p1=d, p2=c, p3=1) for f in (2, 3, 4) for d in range(9) for c in ((0, 1, 2) if f == 4 else (8,) if f == 3 else (0,))]
    + [R("h_sign", {"timeout": 1200}, p0=f, p2=k, p3=1) for f in (5, 9, 10) for k in range(3)] + [R("h_sign", {"timeout": 1200}, p0=f, p3=1) for f in (6, 7, 8, 11)],
  bounds=["the primitives (hash, block cipher, private and public key operation) are random oracles: what is checked is what they are applied to and what is made of their result", "two parts; data lengths around the block size; quick: RSA and ECDSA with three of nine digests, one altered byte per signature"],
)
P("C34",
  title="RSA encryption follows its mechanism's parameters",
  statement="RSA encryption applies the padding, digest, mask function and label its mechanism and parameters name, accepts every message up to the defined length and no longer one, and decryption with the same parameters returns the message. Decryption with a different label, digest or mask function, or of an altered ciphertext, does not return the message.",
  over=["inputs"],
  qtext="PKCS#1 and OAEP with each digest and mask function, labels absent, empty and present with symbolic bytes, symbolic messages of boundary lengths up to and beyond the maximum, altered ciphertext bytes and parameters",
  why="tests encrypt and decrypt with the same parameters, so a parameter dropped on both sides goes unnoticed; lengths at the boundary depend on the digest",
  files=["src/ossl/rsa.rs", "src/fns/encryption.rs", "ossl/src/asymcipher.rs"],
  mechanism=[("RsaPKCSOperation::encrypt/decrypt, max_message_len, rsa_enc_params", "src/ossl/rsa.rs"), ("OsslAsymcipher", "ossl/src/asymcipher.rs")],
  runs=[R("h_rsa_enc", p0=0)] + [R("h_rsa_enc", p0=1, p1=d) for d in range(9)],
  bounds=["the public key operation is a random oracle; one key size"],
)
P("C22",
  title="A search returns exactly the matching objects",
  statement="C_FindObjects returns every object visible to the session whose attributes equal all the template's, each exactly once, and no other, in whatever batch sizes the results are fetched, never writing more handles than asked for. An object that lacks an attribute of the template does not match.",
  over=["inputs"],
  qtext="three objects with symbolic label and key usage, templates of one or two attributes out of seven with symbolic values and lengths, batches of 1 to 3, for session, token and mixed objects, and secret components (readable or not) of nine kinds of token keys in encrypted and plain databases",
  why="tests search for a few fixed values; false matches and misses depend on the value, the length and the combination of template and object",
  files=["src/token.rs", "src/session.rs", "src/storage/format.rs", "src/object/mod.rs", "src/fns/objmgmt.rs"],
  mechanism=[("Token::search_objects", "src/token.rs"), ("Object::match_template", "src/object/mod.rs"), ("SessionSearch::next/results", "src/session.rs")],
  runs=[R("h_find", p0=m, p1=n) for m in (0, 1, 2) for n in (1, 2)] + [R("h_find_secret", p0=k, p1=1, p2=e) for k in range(0, 9) for e in (0, 1)] + [R("h_find", {"cost": 4}, p0=m, p1=2, p2=2) for m in (1, 2)] + [R("h_find_secret", p0=k, p1=1, p2=2) for k in (0, 3)],
  thorough=[R("h_find", p0=m, p1=3) for m in (0, 1, 2)],
  bounds=["three objects; templates of up to 2 (thorough 3) attributes; labels of 3 or 4 bytes", "over the sqlite back end a search for a value that it cannot hold (a number above 32 bits, a label that is not UTF-8) may be refused"],
)

P("C14",
  title="Output buffer conventions",
  statement="Every AES encryption or decryption call that is asked for its output length, or given too little space, leaves the operation as it was: it reports a length that is then enough, never writes beyond the space given, and the operation completed afterwards yields the same result as if it had been given enough space at once.",
  over=["inputs"],
  qtext="all AES modes, encrypting and decrypting, in one call, two pieces and message-based, with every data length up to 33 bytes, length queries and every insufficient space before each call, key, IV and data symbolic",
  why="tests query a length once and then succeed; a length off by a block, or state advanced by a refused call, shows only for particular splits and sizes",
  files=["src/ossl/aes.rs", "src/fns/encryption.rs"],
  mechanism=[("AesOperation::encryption_len, decryption_len, encrypt_update, encrypt_final, decrypt_update, decrypt_final", "src/ossl/aes.rs"), ("encrypt, encrypt_update, encrypt_final and the decrypt counterparts", "src/fns/encryption.rs")],
  runs=[R("h_aes_stream", p0=m, p1=d, p2=2, p3=0, p4=33) for m in range(0, 10) for d in (0, 1)] + [R("h_aes_stream", p0=m, p1=d, p2=2, p3=2, p4=17) for m in (0, 1, 2, 3, 5, 6, 9) for d in (0, 1)] + [R("h_msg", p0=m, p1=1) for m in (5, 6)],
  thorough=[R("h_aes_stream", {"timeout": 3000}, p0=m, p1=d, p2=2, p3=k, p4=n) for m in range(0, 10) if m != 4 for d in (0, 1) for (k, n) in ((2, 35), (3, 18))],
  bounds=["data of up to 33 bytes in one call, 17 in two pieces (thorough 35; 18 in three pieces), 12 byte tags", "too little space: up to 16 bytes or the needed length less one"],
)

P("C15",
  title="AES results do not depend on how the data is split",
  statement="Encrypting or decrypting with any AES mode in any sequence of updates gives exactly what processing the whole data in one call gives, which is what the block cipher mode of libcrypto makes of it; decryption returns the encrypted data. Data whose length the mode does not allow is refused, a counter never leaves its bits, and the operation is over after its final call.",
  over=["inputs"],
  qtext="every AES mode, every data length up to 35 bytes, every split into two pieces (thorough: three); key, IV, additional data and data symbolic; counter widths 1 to 12 with symbolic counter values",
  why="tests split their data at a few points; buffering of partial blocks, held-back padding blocks and tags go wrong at particular lengths and splits",
  files=["src/ossl/aes.rs", "src/fns/encryption.rs"],
  mechanism=[("AesOperation::encrypt_update, encrypt_final, decrypt_update, decrypt_final, init_params", "src/ossl/aes.rs")],
  runs=[R("h_aes_stream", p0=m, p1=d, p2=0, p3=k) for m in range(0, 10) for d in (0, 1) for k in (0, 2) if not (m == 4 and k)] + [R("h_aes_stream", p0=m, p1=d, p2=0, p3=2, p5=32, p6=15, p4=18) for m in (1, 2, 5) for d in (0, 1)] + [R("h_aes_ctr", p0=0), R("h_aes_ctr", p0=1)],
  thorough=[R("h_aes_stream", {"timeout": 3000}, p0=m, p1=d, p2=k // 9, p3=3, p4=(35 if k == 0 else 18)) for m in range(0, 10) if m != 4 for d in (0, 1) for k in (0, 9)] + [R("h_aes_stream", {"timeout": 3000}, p0=m, p1=d, p2=0, p3=2, p4=67) for m in range(0, 10) if m != 4 for d in (0, 1)],
  bounds=["up to 35 bytes in two pieces (thorough 67; 35 in three pieces)", "counters of up to 12 bits, three updates of 1 to 33 bytes", "CTS in one call only: the library does not process it in parts"],
)

P("C16",
  title="Modified ciphertext is refused",
  statement="Authenticated decryption (AES-GCM, AES-CCM) and unwrapping (AES-GCM, AES-CCM, key wrap with and without padding) succeed exactly on what was encrypted under the same key, IV and additional data; anything modified, shortened or extended is refused, whether processed in one call, in pieces or as messages, and no key object comes out of a refused unwrapping.",
  over=["inputs"],
  qtext="all modifications of body, tag, IV, additional data (fully symbolic), all truncations and one-byte extensions, every split into two pieces; key and data partly symbolic",
  why="tests flip one byte of one message in a single call; the guarantee is over all modifications and every way of feeding the ciphertext",
  files=["src/ossl/aes.rs", "src/fns/encryption.rs", "src/fns/keymgmt.rs"],
  mechanism=[("AesOperation::decrypt, decrypt_update, decrypt_final, msg_decrypt, msg_decrypt_final", "src/ossl/aes.rs"), ("AesMechanism::unwrap_key", "src/ossl/aes.rs")],
  runs=[R("h_aes_tamper", p0=m, p2=h, p3=n) for m in (5, 6) for h in (0, 1, 2) for n in (5, 17)] + [R("h_aes_tamper", p0=m, p1=16, p2=1, p3=16) for m in (5, 6)] + [R("h_aes_kw", p0=10), R("h_aes_kw", p0=11), R("h_aes_kw", p0=11, p1=13), R("h_msg", p0=5, p1=0), R("h_msg", p0=6, p1=0)],
  thorough=[R("h_aes_tamper", p0=m, p1=t, p2=h, p3=n) for m in (5, 6) for t in (4, 8, 12, 14, 16) if not (m == 5 and t == 14 or m == 5 and t == 4 and False) for h in (0, 1, 2) for n in (1, 16, 31, 33)] + [R("h_aes_kw", p0=11, p1=n) for n in (1, 7, 8, 9, 24)] + [R("h_aes_kw", p0=10, p1=24)],
  assumptions=["the authentication tag is an injective random oracle of key, IV, additional data and ciphertext: a body and tag forged together are outside (a guess of the tag)"],
  bounds=["data of 5 and 17 bytes, 12 or 16 byte tags (thorough: 1 to 33, 4 to 16)", "wrapped keys: every single-byte modification"],
)

P("C26",
  title="Token initialization needs the SO PIN and leaves nothing behind",
  statement="An initialized token is initialized again only without sessions and with its SO PIN; any other PIN is refused and counted like a failed SO login, and the token keeps its label, PINs and objects. After an initialization the token has the label given, no user PIN, no object of its former life in any session, search or in its storage, and accepts as SO the PIN given; this survives a restart.",
  over=["inputs", "histories"],
  qtext="PINs with any byte at three positions and of other lengths, labels absent, empty, short and full, up to ten failed logins of either user before, sessions open or not, module restarted before or after, storage encrypted or not",
  why="tests initialize fresh tokens; what an initialization must refuse, count, keep and remove depends on the token's history",
  files=["src/fns/stmgmt.rs", "src/token.rs", "src/storage/format.rs", "src/storage/aci.rs"],
  mechanism=[("Token::initialize", "src/token.rs"), ("init_token", "src/fns/stmgmt.rs"), ("StdStorageFormat::reinit", "src/storage/format.rs")],
  runs=[R("h_init", p0=a, p1=b, p2=c) for (a, b, c) in ((0, 0, 0), (0, 8, 3), (0, 9, 0), (0, 10, 3), (1, 0, 3), (1, 9, 0), (2, 0, 0))],
  thorough=[R("h_init", p0=a, p1=b, p2=c) for a in (0, 1) for b in range(12) for c in (0, 8, 9, 10)],
  bounds=["three objects; PINs of 7 and 8 bytes; key derivation and encryption of the storage are random oracles"],
)
P("C30",
  title="Slots do not affect each other",
  statement="Whatever is done on one slot (sessions, logins and logouts, PINs, token initialization, objects, operations) leaves the sessions, login state, objects, running operations, token information and storage of every other slot as they were. A token accepts its own PINs only, closing a slot's last session logs out of that slot and of no other, and a search finds objects of its own slot only.",
  over=["histories", "inputs"],
  qtext="two slots: every sequence of three session and login calls on either slot; one of 18 calls on a slot in each login state while the other has sessions, a login or none, token and session objects, a running encryption and a search",
  why="tests use one slot; bookkeeping shared by all slots (session map, handles, login of the last session) only shows with a second one",
  files=["src/lib.rs", "src/slot.rs", "src/fns/sessmgmt.rs", "src/fns/stmgmt.rs", "src/token.rs"],
  mechanism=[("State::new_session, drop_session, drop_all_sessions_slot", "src/lib.rs"), ("Slot", "src/slot.rs")],
  runs=[R("h_slots_seq", p0=3)] + [R("h_slots", p0=a, p1=b, p2=w) for a in (0, 1) for b in range(4) for w in (0, 1)],
  thorough=[R("h_slots_seq", {"timeout": 3000}, p0=4)],
  bounds=["two slots; three calls after one session was opened on each (thorough four); one call on the other slot in the detailed check"],
)
P("C31",
  title="In-place and dual-function processing",
  statement="Encryption and decryption, in one call, in parts or message-based, give the same result when the output replaces the input in memory as when the two are apart. C_DigestEncryptUpdate, C_DecryptDigestUpdate, C_SignEncryptUpdate and C_DecryptVerifyUpdate do exactly what the two single calls would do, in any mixture with them, and do nothing at all while one of the two operations is missing or the space does not suffice.",
  over=["inputs", "histories"],
  qtext="every AES mode, lengths up to 33 bytes in every split into two pieces with the output on top of the input (exactly or shifted), key, IV, additional data and data symbolic; all sequences of three steps out of dual call, cipher call, refused or queried dual call of five sizes for four ciphers and four dual functions",
  why="tests call each dual function once with separate buffers and whole blocks; where buffers coincide is invisible to the type system and only shows with partial blocks",
  files=["src/fns/dualcrypto.rs", "src/fns/encryption.rs", "src/misc.rs", "src/ossl/aes.rs"],
  mechanism=[("digest_encrypt_update, decrypt_digest_update, sign_encrypt_update, decrypt_verify_update", "src/fns/dualcrypto.rs"), ("internal_encrypt_update, internal_decrypt_update", "src/fns/encryption.rs"), ("AesOperation::encrypt_update, decrypt_update", "src/ossl/aes.rs")],
  runs=[R("h_dual", p0=k, p1=m, p2=i) for k in (0, 1, 2, 3) for m in (1, 2, 3, 5) for i in (0, 1, 6)] + [R("h_aes_stream", p0=m, p1=d, p2=0, p3=k, p4=33, p7=i) for m in range(0, 10) for d in (0, 1) for k in (0, 2) for i in (1, 4) if not (m == 4 and k)] + [R("h_msg", p0=m, p1=1, p2=1) for m in (5, 6)],
  thorough=[R("h_dual", {"timeout": 3000}, p0=k, p1=m, p2=i, p3=4) for k in (0, 1, 2, 3) for m in (1, 2, 3, 5) for i in (0, 1, 6)] + [R("h_aes_stream", {"timeout": 3000}, p0=m, p1=d, p2=0, p3=3, p4=35, p7=i) for m in range(0, 10) for d in (0, 1) for i in (1, 4) if m != 4],
  bounds=["32 bytes in three steps (thorough four) for the dual functions, SHA-256 and HMAC-SHA-256 as the other operation", "in place: up to 33 bytes in one call or two pieces (thorough 35 in three); the output starts at the input or 3 or 5 bytes before it", "an input that starts before the output is not claimed"],
)

P("C29",
  title="Random values are fresh output of the generator",
  statement="C_GenerateRandom, generated secret keys, the storage's master key, the initialization vectors and salts under which secrets and PINs are stored, and random IVs of message encryption are exactly output of the random generator drawn for that purpose, no part of which serves two of them. When the generator fails, the call fails, gives out nothing and leaves no object and no changed PIN behind. Seeds reach the generator completely.",
  over=["inputs", "histories", "fault_sequences"],
  qtext="all values the generator can give (its output bytes are symbolic); sequences of three calls with six lengths for random data, AES, generic and HOTP keys; sequences of two (thorough four) storage operations out of create, copy, generate, PIN change, modification and restart with a new PIN; failure of each single generator call of six operations",
  why="tests can only see that two random values differ; that a value is the generator's output in full and never reused cannot be observed from samples",
  files=["src/rng.rs", "src/lib.rs", "src/fns/mod.rs", "src/object/key.rs", "src/storage/aci.rs", "src/storage/format.rs", "src/encryption.rs", "src/ossl/aes.rs", "src/ossl/drbg.rs", "ossl/src/rand.rs"],
  mechanism=[("RNG::generate_random, get_random_data", "src/rng.rs"), ("default_secret_key_generate", "src/object/key.rs"), ("encrypt_key, encrypt_data, StorageACI::reset", "src/storage/aci.rs"), ("AesOperation::generate_iv", "src/ossl/aes.rs")],
  runs=[R("h_rng", p0=k, p1=3 if k != 2 else 2) for k in range(5)] + [R("h_rng_store", p0=k, p1=3) for k in (0, 1)] + [R("h_rng_fail", p0=k) for k in (0, 1)],
  thorough=[R("h_rng", {"timeout": 3000}, p0=k, p1=4) for k in range(5)] + [R("h_rng_store", {"timeout": 3000}, p0=k, p1=4) for k in (0, 1)] + [R("h_rng_fail", p0=k) for k in (0, 1)],
  bounds=["random data up to 33 bytes, keys up to 64", "one failing generator call per history", "asymmetric key generation draws inside libcrypto and is outside", "the quality of the generator itself (libcrypto's HMAC-DRBG) is outside"],
)

P("C33",
  title="Message-based AEAD encryption",
  statement="In a message-based operation every message, whether passed at once or in pieces, encrypts to what a single AEAD encryption with the returned IV gives, decrypts to its plaintext, and neither earlier nor refused messages influence later ones. Generated IVs keep the fixed bits of the given one and are never issued twice for the same fixed bits, and an IV given without a generator is used as given.",
  over=["histories", "inputs"],
  qtext="sequences of two messages (four for generated IVs) with symbolic key, IV, additional data and data, passed in one or two pieces at every split, after length queries and refused calls; all IV generators with seven fixed lengths chosen per message",
  why="tests send one message after another with one shape; state left behind by the previous message or a refused call needs particular sequences",
  files=["src/ossl/aes.rs", "src/fns/encryption.rs"],
  mechanism=[("AesOperation::msg_encrypt_init, msg_encrypt_begin, msg_encrypt_next, prep_iv", "src/ossl/aes.rs")],
  runs=[R("h_msg", p0=m, p1=1) for m in (5, 6)] + [R("h_msg", p0=5, p1=2), R("h_msg", p0=6, p1=2)] + [R("h_msg_iv", p0=5, p1=g) for g in (0, 1, 2, 3)] + [R("h_msg_iv", p0=6, p1=g) for g in (0, 1, 2, 3)],
  thorough=[R("h_msg", {"timeout": 3000}, p0=5, p1=3), R("h_msg", {"timeout": 3000}, p0=6, p1=3)] + [R("h_msg_iv", {"timeout": 3000}, p0=m, p1=g, p2=5) for m in (5, 6) for g in (0, 1, 2, 3)],
  bounds=["two messages of up to 18 bytes (thorough three); four (thorough five) generated IVs", "IVs of 12 bytes"],
)

P("C23",
  title="Objects are what their templates say",
  statement="A template with the attributes an object of its kind needs and any allowed ones, in any order, makes an object with exactly these values, defined defaults for the rest and, for keys, the origin attributes of the way they were made; copies have the same. A template that lacks a required attribute, gives one twice, gives one the kind does not have, that only the module sets or of the wrong size or value, or names another class or type, is refused and leaves no object.",
  over=["inputs"],
  qtext="17 kinds of object through C_CreateObject and C_CopyObject and 11 ways to generate, unwrap or derive keys and key pairs; a third of the boolean attributes at a time, or all others, with symbolic values, in both orders; every single defect of each of nine sorts for each kind, with symbolic bytes and lengths",
  why="tests use one good template per kind; the attribute tables of 17 kinds times the kinds of defect are a matrix no test samples, and a wrong entry shows only on the attribute concerned",
  files=["src/object/factory.rs", "src/object/key.rs", "src/object/certs.rs", "src/object/otp.rs", "src/object/mod.rs", "src/aes.rs", "src/rsa.rs", "src/ec", "src/ffdh.rs", "src/hotp.rs", "src/hmac.rs", "src/hkdf.rs", "src/misc.rs", "src/attribute.rs"],
  mechanism=[("ObjectFactory::internal_object_create, default_copy", "src/object/factory.rs"), ("KeyFactory::key_create, key_generate, key_unwrap, key_derive", "src/object/key.rs"), ("the attribute tables of the factories", "src")],
  runs=[R("h_tmpl", p0=k) for k in range(17)] + [R("h_tmpl_bad", p0=k) for k in range(17)] + [R("h_tmpl_gen", p0=i, p1=b) for i in range(11) for b in (0, 1)],
  bounds=["one defect per template", "boolean attributes vary in three groups; string attributes are concrete", "unwrapping with CKM_AES_CBC_PAD and derivation with CKM_CONCATENATE_BASE_AND_KEY stand for all", "EC keys on P-256, X25519 (import only) and DH on ffdhe2048"],
)

P("C24",
  title="No argument makes a call misbehave",
  statement="Whatever pointers are missing, whatever handles, mechanism numbers and mechanism parameter lengths and values a call is given, it returns: it never panics, aborts, reads or writes outside the given buffers or asks for absurd amounts of memory. A missing argument that the call needs and a handle that does not exist are refused. The session and the library stay usable afterwards.",
  over=["inputs"],
  qtext="73 functions of the API with each argument in turn missing, unknown or inconsistent; 35 mechanisms with each (pair of) parameter words missing, shortened or any 64-bit value, in every kind of operation they serve; key lengths of up to 64 or more than 2^32 bytes for everything that makes keys",
  why="tests pass well formed arguments and a few chosen wrong ones; the 64-bit parameter words and their combinations cannot be sampled",
  files=["src/fns", "src/misc.rs", "src/pkcs11/mod.rs", "src/ossl/aes.rs", "src/native/hmac.rs", "src/native/sp800_108.rs", "src/native/tlskdf.rs", "src/native/simplekdf.rs", "src/native/sshkdf.rs", "src/sp800_108.rs", "src/ossl/rsa.rs", "src/ossl/hkdf.rs", "src/ossl/ecdh.rs", "src/pbkdf2.rs", "src/hotp.rs"],
  mechanism=[("argument checks of the C_ functions", "src/fns"), ("CK_MECHANISM::get_parameters, CK_ATTRIBUTE::to_ulong and others", "src/pkcs11/mod.rs"), ("bytes_to_slice, bytes_to_vec, cast_params", "src/misc.rs"), ("AesOperation::init_params", "src/ossl/aes.rs")],
  runs=[R("h_args", p0=f, p1=13) for f in (0, 13, 26, 39, 52, 65)] + [R("h_params", p0=i) for i in (17, 27)] + [R("h_params", p0=i, p2=1) for i in range(36) if i not in (17, 22, 27)] + [R("h_params", p0=i, p1=1) for i in (0, 6, 7, 8, 9, 11, 12, 13, 15, 16, 28)],
  thorough=[R("h_args", p0=f, p1=13) for f in (0, 13, 26, 39, 52, 65)] + [R("h_params", {"timeout": 3000}, p0=i, p2=1) for i in range(36) if i != 22] + [R("h_params", p0=i, p1=1) for i in (0, 6, 7, 8, 9, 11, 12, 13, 15, 16, 28)],
  bounds=["one wrong argument, up to two wrong parameter words per call", "a NULL pointer or a short length stands for a bad pointer: pointers to memory the caller does not own are the caller's fault", "key lengths between 64 and 2^32 bytes are not explored (they are a matter of time and memory)", "NULL additional authenticated data with a length is taken as none by the message functions and is not required to be refused"],
)

P("C25",
  title="Only allowed mechanisms are offered and used",
  statement="With an allow list or a deny list of mechanisms in the configuration, a slot lists exactly the supported mechanisms the list leaves, gives information for those only, and starts no operation, key generation, wrapping or derivation with any other, while stored objects stay usable. A function whose flag is missing in a mechanism's information does not accept the mechanism. The list functions follow the two-call convention for every buffer size.",
  over=["configurations", "inputs"],
  qtext="allow and deny lists of zero to three mechanisms with the one used in any place or missing, for 14 functions that take a mechanism; every supported mechanism and symbolic unsupported numbers against the same functions, four kinds of key and two kinds of parameter",
  why="tests configure one list and use one mechanism; whether every function honours list and flags for every mechanism is a matrix",
  files=["src/config.rs", "src/slot.rs", "src/token.rs", "src/mechanism.rs", "src/fns/stmgmt.rs", "src/fns/keymgmt.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/digest.rs"],
  mechanism=[("Token::set_mech_allow_list, set_mech_deny_list, get_mechanisms", "src/token.rs"), ("Mechanisms::get, info, list", "src/mechanism.rs")],
  runs=[R("h_mech_list", p0=d) for d in (0, 1)] + [R("h_mech_flags", p0=c) for c in range(14)],
  bounds=["lists of up to three mechanisms"],
)

P("C13",
  title="A key does only what its attributes allow",
  statement="An operation starts with a key exactly if the key's class and type fit the mechanism, the usage flag for that operation is set on the key and its CKA_ALLOWED_MECHANISMS, if any, lists the mechanism; a refused call starts no operation, writes no output and creates no object. A key with CKA_ALWAYS_AUTHENTICATE is used only after a context specific login with the user PIN for that very operation, whatever else the session does in between.",
  over=["inputs", "histories"],
  qtext="45 combinations of function and mechanism against 11 kinds of key with symbolic usage flags and up to two fully symbolic allowed mechanisms; all sequences of 3 (thorough: 5) operations around a key that always needs authentication, with symbolic PIN bytes",
  why="tests use keys that fit; the refusals are a matrix of functions, mechanisms, key types and flags, and the login requirement can be lost by interleaved operations",
  files=["src/object/mod.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/keymgmt.rs", "src/lib.rs", "src/session.rs", "src/aes.rs", "src/rsa.rs", "src/hmac.rs", "src/ec", "src/ossl/ecdh.rs"],
  mechanism=[("Object::check_key_ops", "src/object/mod.rs"), ("check_allowed_mechs", "src/lib.rs"), ("Session::set_operation, needs_login", "src/session.rs"), ("encrypt_init, sign_init, verify_init, wrap_key, unwrap_key, derive_key", "src/fns")],
  runs=[R("h_usage", p0=9 * i, p1=9, p2=l) for i in range(5) for l in (0, 1)] + [R("h_always", p0=3)],
  thorough=[R("h_usage", p0=9 * i, p1=9, p2=l) for i in range(5) for l in (0, 1)] + [R("h_always", {"timeout": 3000}, p0=5)],
  bounds=["AES wrapping takes secret keys of any type if flag and mechanism allow it (tests of the project rely on it)", "one call per key; allowed mechanism lists of up to 2 entries (an empty list is not claimed)", "3 (thorough 5) operations on one session with one key that needs authentication and one that does not"],
)

_KIND = "Find Dig Enc Dec Sign Ver VerSig MEnc MDec Sign Ver VerSig Sign Ver VerSig Sign Ver VerSig Enc Dec Sign Ver VerSig Sign Ver VerSig Enc Dec Enc Dec Sign Ver Dig".split()
P("C09",
  title="Token objects survive restarts unchanged",
  statement="After C_Finalize and C_Initialize the token holds exactly the token objects it held before, each with the same attributes and values, copies and changed attributes included, whatever login, PIN change and reopening came between. Destroyed objects and session objects are gone, refused changes left no trace, and private objects stay hidden until the user has logged in again.",
  over=["histories", "inputs"],
  qtext="all sequences of 2 (thorough: 3) steps out of label change, attribute change, copy, destruction, PIN change, refused change and re-login on an object of each of twelve kinds, with symbolic private byte, label, id and PIN bytes, in encrypted and plain databases",
  why="tests reload a few objects written by one call; what is written back depends on the kind of object, the attributes that changed and the key under which the database was encrypted at the time",
  files=["src/storage/format.rs", "src/storage/mod.rs", "src/storage/aci.rs", "src/token.rs", "src/object/factory.rs", "src/object/mod.rs", "src/attribute.rs"],
  mechanism=[("StdStorageFormat::store, update, fetch, load", "src/storage/format.rs"), ("Token::insert_object, set_object_attrs, save", "src/token.rs"), ("ObjectFactory::copy, set_attributes", "src/object/factory.rs")],
  runs=[R("h_persist", {"cost": 12}, p0=k, p1=e, p2=2) for k in range(12) for e in (0, 1)] + [R("h_persist", p0=k, p1=d, p2=1) for k in range(12) for d in (2, 3)],
  thorough=[R("h_persist", {"timeout": 3000}, p0=k, p1=e, p2=3) for k in range(12) for e in (0, 1)],
  bounds=["2 (thorough 3) steps between creation and restart; one object under test and one control object", "the raw store below StorageRaw is a model in memory with 2 steps, the sqlite back end over a small SQL engine with 1 step"],
)
P("C11",
  title="A failing storage never leaves half-done work",
  statement="When the storage fails during a call, the call either succeeds completely or reports an error and leaves the token objects, PINs, logins and flags as they were, at once and after a restart; a keypair is made whole or not at all, and logging out always takes the private objects away. An interrupted token initialisation can be done again, and then only the new SO can log in.",
  over=["fault_sequences"],
  qtext="eighteen calls (create, copy, change, destroy, generate, generate pair, login, logout, set PINs, search, read, unwrap, derive, use, close, wrap, size), the failure at each of the first eight storage operations (twelve for C_InitToken), once or from then on, private or public objects, encrypted and plain databases",
  why="tests never see the storage fail; a statement about every failure point of every call",
  files=["src/storage/format.rs", "src/storage/aci.rs", "src/token.rs", "src/fns/keymgmt.rs", "src/fns/sessmgmt.rs", "src/fns/objmgmt.rs"],
  mechanism=[("StdStorageFormat::store, update, remove, reinit, init_pin_flags", "src/storage/format.rs"), ("Token::insert_object, destroy_object, initialize, set_pin", "src/token.rs"), ("generate_keypair, logout", "src/fns/keymgmt.rs, src/fns/sessmgmt.rs")],
  runs=[R("h_fault", {"cost": 3}, p0=o, p1=k, p2=e) for o in range(18) for k in (0, 9) for e in (0, 1)] + [R("h_fault_init", {"cost": 3}, p0=a, p2=e) for a in (0, 1) for e in (0, 1)] + [R("h_fault", {"cost": 5}, p0=o, p1=0, p2=2, p3=24) for o in (0, 1, 2, 3, 8, 9, 10)] + [R("h_fault_init", {"cost": 5}, p0=1, p2=2, p3=64)],
  thorough=[R("h_fault", {"timeout": 1800}, p0=o, p1=k, p2=e, p3=24) for o in range(18) for k in range(12) for e in (0, 1)],
  bounds=["one point of failure, or every operation from it on (keypair generation: one only), among the first 8 (thorough 24) storage operations of the call", "a failed operation has no effect on the in-memory store; with the sqlite back end single SQL statements fail (of a long row of insertions the 1st, 2nd, 6th and 15th)", "not claimed: a wrong PIN whose count cannot be stored; closing the last session reports no storage error"],
)
P("C10",
  title="Secrets at rest are encrypted and bound to their object",
  statement="In an encrypted token database nothing depends on a PIN or on a secret key component but through authenticated encryption, no storage key is ever written, and no nonce is used twice with one key, however the key came onto the token. A stored secret that is altered or shortened is never taken for a different value and one moved to another object is refused; an altered user record never unlocks a different key, and the record of one user does not log in another.",
  over=["inputs", "histories"],
  qtext="all values of the secret components and of the SO and user PINs (two copies of one token history compared byte for byte), eight kinds of key created, copied or unwrapped, generated and derived; every byte position of a stored secret and of the user record xored with every value, every truncation, and exchange between objects or users",
  why="tests check that a login decrypts what was stored; that the database shows nothing of any secret and rejects every alteration is a statement over all values and positions",
  files=["src/storage/aci.rs", "src/storage/format.rs", "src/encryption.rs", "src/object/factory.rs"],
  mechanism=[("encrypt_key, decrypt_key, encrypt_data, decrypt_data", "src/storage/aci.rs"), ("StdStorageFormat::store, update, fetch", "src/storage/format.rs"), ("aes_gcm_encrypt, aes_gcm_decrypt", "src/encryption.rs")],
  runs=[R("h_rest", {"cost": 4}, p0=k, p1=o) for k in (0, 1, 2, 3, 4, 5, 6, 7) for o in (0, 1)] + [R("h_rest", {"cost": 4}, p0=k, p1=2) for k in (0, 1, 3, 4)]
  + [R("h_rest_gen", p0=k) for k in (0, 1, 2, 3)]
  + [R("h_rest_tamper", {"cost": 15}, p0=0, p1=0, p2=a, p3=a + 20) for a in range(0, 160, 20)]
  + [R("h_rest_tamper", {"cost": 20}, p0=0, p1=3, p2=a, p3=b) for a, b in ((0, 7), (7, 26), (26, 36), (70, 74), (74, 90), (125, 145), (145, 180))]
  + [R("h_rest_tamper", p0=k, p1=1, p4=c) for k in range(8) for c in ((0, 1, 5) if k == 3 else (0,))] + [R("h_rest_tamper", p0=0, p1=4), R("h_rest_tamper", {"cost": 20}, p0=0, p1=2)],
  thorough=[R("h_rest_tamper", {"timeout": 3000}, p0=k, p1=0, p2=a, p3=a + 20, p4=c) for k, c in ((0, 0), (3, 1), (5, 0)) for a in range(0, 240, 20)]
  + [R("h_rest_tamper", {"timeout": 3000}, p0=0, p1=3, p2=a, p3=a + 10) for a in range(0, 180, 10)]
  + [R("h_rest_tamper", {"timeout": 3000}, p0=k, p1=2, p4=c) for k in range(8) for c in ((0, 1, 5) if k == 3 else (0,))],
  bounds=["AES-GCM is an ideal box, PBKDF2 and HKDF are injective random oracles", "PINs of 8 bytes; one key and a copy of it per token", "one altered byte at a time; in the user record the length byte of the work factor is left out (a huge work factor only takes time) and the quick tier leaves out most salt and ciphertext bytes"],
  note="attributes that are not secret components are stored in the clear and without integrity protection; the components of one object could be exchanged with each other",
)

P("C12",
  title="Life cycle of cryptographic operations",
  statement="A session runs one operation per function at a time: starting a second one is refused and leaves the first alone, every other call without a running operation reports exactly that, and a call that finishes, fails or cancels ends it and it alone. Length queries, too small buffers and calls of other functions or sessions never change the outcome, and what a completed operation yields is what a fresh one would.",
  over=["histories"],
  qtext="all sequences of 3 (thorough: 4) calls out of 20 on two operations of 33 kinds (search, digest, AES, CMAC, HMAC, RSA, ECDSA; encryption, decryption, signature, verification, pre-set signature, messages), from idle, started or half-way",
  why="tests run each operation through its normal course; a state machine is a statement about every order of calls, including failed, repeated and interleaved ones",
  files=["src/session.rs", "src/fns/encryption.rs", "src/fns/signing.rs", "src/fns/digest.rs", "src/fns/objmgmt.rs", "src/fns/sessmgmt.rs", "src/mechanism.rs", "src/hmac.rs", "src/ossl"],
  mechanism=[("Session::set_operation, get_operation, cancel_operation, check_op", "src/session.rs"), ("MgrOperation / per-mechanism finalized and in_use flags", "src/mechanism.rs, src/ossl/*.rs, src/hmac.rs"), ("session_cancel", "src/fns/sessmgmt.rs")],
  runs=[R("h_ops", {"cost": 5}, p0=i, p1=-1, p2=3, p3=2 if i % 2 else 0) for i in range(33)] + [R("h_ops", p0=a, p1=b, p2=2, p3=2) for (a, b) in ((2, 3), (4, 5), (7, 2), (12, 14), (1, 20), (0, 30))],
  thorough=[R("h_ops", {"timeout": 3000}, p0=i, p1=-1, p2=4, p3=(i + 1) % 2 * 2) for i in range(33)] + [R("h_ops", p0=a, p1=b, p2=3, p3=2) for a in range(33) for b in range(a) if _KIND[a] != _KIND[b] and (a + b) % 5 == 0],
  bounds=["3 (thorough 4) calls; fixed data of one block per part", "not claimed: C_*Final without any data, one-shot calls of AES after an update, cancelling a pre-set signature verification with C_SessionCancel"],
)

P("C17",
  title="Wrapping and unwrapping of keys",
  statement="C_WrapKey hands out a key, or the length it would take, exactly if the key is extractable, the wrapping key has CKA_WRAP and, where the key asks for CKA_WRAP_WITH_TRUSTED, is trusted; the result is the key's value or encoding under the wrapping key. Unwrapping it gives the very same key with the attributes of the template, never marked as local, always sensitive or never extractable, and a blob that does not fit the template yields no key.",
  over=["inputs"],
  qtext="nine wrapping mechanisms (AES ECB, CBC, CBC-PAD, KW, KWP, GCM, CCM, RSA PKCS#1 and OAEP) with nine kinds of key; the extractable, sensitive, wrap-with-trusted and wrap bytes, trust, parts of the key value, buffer sizes and the shape of the unwrapping template symbolic",
  why="tests wrap a few permitted keys and compare; the gate is a product of flags on two keys, and encodings and paddings depend on key bytes and lengths",
  files=["src/fns/keymgmt.rs", "src/object/key.rs", "src/aes.rs", "src/ossl/aes.rs", "src/rsa.rs", "src/ossl/rsa.rs", "src/ec/mod.rs", "src/kasn1"],
  mechanism=[("wrap_key, unwrap_key", "src/fns/keymgmt.rs"), ("export_for_wrapping, import_from_wrapped", "src/object/key.rs, src/rsa.rs, src/ec/mod.rs, src/hotp.rs"), ("AesOperation::wrap, unwrap; RsaPKCSOperation::wrap, unwrap", "src/ossl")],
  runs=[R("h_wrap", p0=i, p1=k, p3=1) for i in range(9) for k in (0, 2, 3, 4, 6, 9, 11)] + [R("h_wrap", {"cost": 8 if k == 4 else 1}, p0=i, p1=k, p2=n) for i in range(9) for (k, n) in ((0, 0), (0, 24), (1, 0), (1, 5), (2, 0), (7, 0), (8, 0), (3, 0), (6, 0)) + (((4, 0),) if i in (0, 4, 5) else ())],
  thorough=[R("h_wrap", {"timeout": 3000}, p0=i, p1=k, p2=n) for i in range(9) for (k, n) in ((0, 32), (1, 1), (1, 7), (1, 8), (1, 15), (1, 17), (1, 31), (1, 33), (1, 40), (4, 0))] + [R("h_wrap", p0=i, p1=k, p3=1) for i in range(9) for k in range(12)],
  bounds=["symbolic first and last byte of the secret components, the rest fixed; one wrap and one unwrap per history", "a zero-length output buffer counts as a length query"],
)

P("C27",
  title="The sqlite back end returns exactly what was stored",
  statement="An attribute value kept in an sqlite database, of whatever type and length, is read back and searched for as exactly that value, at once and after a restart: a search finds the objects with the value and no others. A value the database cannot represent is refused and never stored changed.",
  over=["inputs", "histories"],
  qtext="booleans, numbers (all 2^64), strings, byte strings, dates, lists of numbers and encrypted values of up to four lengths each with symbolic contents, two objects and a search for a third value, in encrypted and plain databases, with and without a restart; objects of twelve kinds, histories of PIN failures and searches as in C06, C09 and C22",
  why="tests store a few values; conversion to and from SQL types, empty values and the composition of search statements depend on the value",
  files=["src/storage/sqlite.rs", "src/storage/sqlite_common.rs", "src/storage/format.rs"],
  mechanism=[("SqliteStorage::store_object, rows_to_objects, search, num_to_val", "src/storage/sqlite.rs"), ("fetch_user, store_user, fetch_token_info, store_token_info", "src/storage/sqlite.rs"), ("StdStorageFormat", "src/storage/format.rs")],
  runs=[R("h_sql_vals", {"cost": 4}, p0=w, p1=d) for w in range(8) for d in (2, 3)] + [R("h_persist", p0=k, p1=2, p2=1) for k in range(12)] + [R("h_find", {"cost": 4}, p0=1, p1=2, p2=d) for d in (2, 3)] + [R("h_pin", p0=1, p1=9, p9=1)],
  thorough=[R("h_persist", {"timeout": 3000}, p0=k, p1=d, p2=2) for k in range(12) for d in (2, 3)] + [R("h_find", {"timeout": 3000}, p0=m, p1=3, p2=2) for m in (1, 2)],
  assumptions=["libsqlite3 is replaced by a small SQL engine behind its C interface (harness/src/sql_stub.rs) that implements what its documentation says of the statements used: typed values, UNIQUE with replacement, sub-selects, set operations, aggregates and transactions; the crate's SQL text, conversions and rusqlite are the real code"],
  bounds=["values of up to 20 bytes, lists of up to 3 numbers; two objects", "PBKDF2 with one iteration instead of 1000"],
)
P("C36",
  title="A crash leaves the token with the old or the new state",
  statement="If the process dies at any point of a call that changes a token kept in an sqlite database, the next start finds every object whole, as it was before the call or as it is after it, and exactly one of the old and the new PIN in force. What a call had reported as done is there, and the token can be used as ever.",
  over=["crash_points"],
  qtext="ten calls (create, copy, change, destroy, generate, generate pair, set PIN, init PIN, SO PIN change, failed login) on a token with two objects, the process ending before each of the SQL statements of the call, for private and public objects, encrypted and plain databases",
  why="tests never kill the module",
  files=["src/storage/sqlite.rs", "src/storage/format.rs", "src/storage/aci.rs", "src/token.rs"],
  mechanism=[("transactions of store_obj, remove_by_uid, store_user, store_token_info, db_reset", "src/storage/sqlite.rs"), ("StdStorageFormat::store, update, set_user_pin", "src/storage/format.rs")],
  runs=[R("h_crash", {"cost": 4}, p0=o, p1=k, p2=d, p4=24) for o in range(10) for (k, d) in ((0, 2), (9, 2), (0, 3))] + [R("h_fault_init", {"cost": 4}, p0=a, p2=d, p3=64) for a in (0, 1) for d in (2, 3)],
  thorough=[R("h_crash", {"timeout": 3000}, p0=o, p1=k, p2=d, p4=24) for o in range(10) for k in range(12) for d in (2, 3)],
  assumptions=["a transaction of sqlite is atomic and durable: what was committed is there after the crash and nothing else is (libsqlite3 is replaced by the engine of C27)"],
  bounds=["one call, ended before a statement that reads, begins, changes or commits; of a long row of insertions the 1st, 2nd, 6th and 15th", "a keypair may be left with one of its halves: the two are separate objects"],
)

# ---------------------------------------------------------------- not applicable
na("C32",
  title="A saved operation state continues the operation",
  statement="After C_SetOperationState with the result of C_GetOperationState, an operation continues as if it had not been interrupted, and a state never yields key material or works with another key.",
  over=["histories"],
  qtext="all points of saving and restoring, all operations",
  why="tests save one digest once",
  files=["src/fns/sessmgmt.rs", "src/session.rs", "src/ossl/hash.rs"],
  mechanism=[("get_operation_state, set_operation_state", "src/fns/sessmgmt.rs")],
  reason="serialization of digest states needs OpenSSL 3.5 or later; with the OpenSSL 3.0 here every save is refused, so there is no behaviour of the real code to decide (the refusals themselves are part of C24).",
)
na("C35",
  title="Concurrent calls behave as if made one after another",
  statement="Calls made by several threads on sessions of the same or of different slots have the effects of some sequence of these calls, without deadlock.",
  over=["schedules"],
  qtext="all interleavings of two or more threads",
  why="tests run a few threads with whatever schedule the machine gives",
  files=["src/lib.rs", "src/fns/mod.rs", "src/token.rs"],
  mechanism=[("STATE, the RwLock around State and around each Token", "src/lib.rs")],
  reason="the executor interprets one thread: std's futex-based RwLock and thread-local storage would have to be replaced by models, and every path of a call (10^6 instructions) interleaved with those of another; the interleaving space is out of reach even for two calls. Rust's borrow rules exclude data races on this state; a self-deadlock of a single call is reported by every check (violation kind deadlock).",
)
na("C37",
  title="Post-quantum, EdDSA and FIPS-mode functions",
  statement="ML-DSA, ML-KEM, SLH-DSA and EdDSA keys and signatures, and the FIPS indicators, are what their specifications say.",
  over=["inputs"],
  qtext="all keys, messages and parameters",
  why="their tests need the library versions that have them",
  files=["src/mldsa.rs", "src/mlkem.rs", "src/slhdsa.rs", "src/ec/eddsa.rs", "src/fips"],
  mechanism=[("feature-gated modules", "src")],
  reason="these features need OpenSSL 3.2 to 3.5 or its sources and do not build here, so there is no compiled code to encode.",
)
na("C38",
  title="The cryptographic primitives are correct",
  statement="AES, SHA-2, SHA-3, HMAC, RSA, ECDSA, ECDH and the DRBG compute the functions their standards define.",
  over=["inputs"],
  qtext="all inputs",
  why="known answer tests are samples",
  files=["ossl/src"],
  mechanism=[("libcrypto", "ossl/src")],
  reason="the primitives are in libcrypto, not in this repository; the checks replace it by a stand-in with the same contracts and decide how kryoptic uses it.",
)
