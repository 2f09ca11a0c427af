//! C03 private objects need a login, C04 read-only sessions leave the token alone
use crate::keys;
use crate::ops::*;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

fn writes() -> u64 { verif::RAW.get()[0].writes }

/// p0: who is logged in when the object is accessed: 0 nobody (logged out), 1 user, 2 SO, 3 nobody (module restarted), 4 nobody (all sessions closed)
/// p1: kind of object (keys::kind; 0 = AES key with every use), p2: 1 = key uses instead of object functions
#[unsafe(no_mangle)]
pub extern "C" fn h_private() {
    boot("enc0");
    let st = vf::param(0, 0);
    let kn = vf::param(1, 0) as u64;
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let token = vf::bool_z(z!("token"));
    // an object with the same label that stays accessible
    let mut pt = aes_key(true, false, 0x5a);
    let mut o: H = 0;
    let rv = create(s, &mut pt, &mut o);
    check!(rv == CKR_OK, "create public");
    let mut t = if kn == 0 { aes_key(token, true, 0x5a) } else { keys::kind(kn).t.b(CKA_TOKEN, token).b(CKA_PRIVATE, true) };
    let secret = kn < keys::DATA;
    if secret && kn != 0 { t.add(CKA_SENSITIVE, &[0]); t.add(CKA_EXTRACTABLE, &[1]); }
    t.add(CKA_ID, b"hidden");
    let idk = kn != keys::DATA;
    if !idk { t.a.pop(); t.add(CKA_APPLICATION, b"hidden"); }
    let mut h: H = 0;
    let rv = create(s, &mut t, &mut h);
    check!(rv == CKR_OK, "create private");
    // a second session keeps the login state apart from the first one
    let mut s2 = if vf::bool_z(z!("rw")) || st == 2 { open(true) } else { open(false) };
    match st {
        0 => assert!(logout(s) == CKR_OK),
        1 => (),
        2 => { assert!(logout(s) == CKR_OK); assert!(login(s, CKU_SO, SO_PIN) == CKR_OK); }
        3 => { restart(0, "enc0"); s2 = open(true); }
        _ => {
            assert!(call!(C_CloseAllSessions(SLOT)) == CKR_OK);
            s2 = open(true);
        }
    }
    // finding it
    let mut l = [0 as H; 8];
    let mode = vf::choose_z(3, z!("find"));
    let mut ft = T::new();
    if mode == 0 { ft.add(CKA_CLASS, t.val(0)); }
    if mode == 1 { ft.add(if idk { CKA_ID } else { CKA_APPLICATION }, b"hidden"); }
    if mode == 2 { ft.add(CKA_PRIVATE, &[1]); }
    let (rv, n) = find(s2, &mut ft, &mut l);
    check!(rv == CKR_OK, "find");
    let mut seen = false;
    for i in 0..n {
        let mut b = [0u8; 16];
        let (rv, len) = get_attr(s2, l[i], if idk { CKA_ID } else { CKA_APPLICATION }, &mut b);
        if rv == CKR_OK && len == 6 && &b[..6] == b"hidden" { seen = true; }
        if get_bool(s2, l[i], CKA_PRIVATE) == Some(true) { seen = true; }
        if st != 3 && l[i] == h { seen = true; }
    }
    if st == 1 {
        check!(seen, "the logged in user finds private objects");
        check!((mode != 2) | (n >= 1), "find by CKA_PRIVATE");
    } else if st == 2 {
        check!(!seen | (mode != 1), "the SO does not find private objects");
    } else {
        check!(!seen, "private objects are not found without a login");
        check!((mode == 0) | (n == 0), "a search for private objects has no results without a login");
    }
    // a key anybody may use
    let mut pt = aes_key(false, false, 0x5a);
    let rv = create(s2, &mut pt, &mut o);
    check!(rv == CKR_OK, "create a public session key");
    // using the handle
    if st == 3 { h += 64; }
    let w0 = writes();
    let rv = if vf::param(2, 0) == 1 {
        let i = vf::choose_z(NUSE, z!("use"));
        let rv = use_op(i, s2, h, o);
        if st == 1 {
            check!(rv == CKR_OK, "the user can use the key");
        }
        rv
    } else {
        match vf::choose_z(7, z!("fn")) {
            0 => {
                let mut b = [0xEEu8; 160];
                let ty = vf::u64_z(z!("type"));
                let (rv, len) = get_attr(s2, h, ty, &mut b);
                if rv != CKR_OK && st != 1 {
                    let mut d = 0u8;
                    for x in &b { d |= x ^ 0xEE; }
                    check!(d == 0, "a refused read returns nothing");
                    check!((len == 160) | (len == CK_UNAVAILABLE_INFORMATION), "a refused read returns no length");
                }
                if st == 1 { if rv == CKR_OK { cover!("read"); } CKR_OK } else { rv }
            }
            1 => { let mut n: CK_ULONG = 0x1234; let rv = call!(C_GetObjectSize(s2, h, &mut n)); check!((rv == CKR_OK) | (n == 0x1234), "no size is returned"); rv }
            2 => { let mut t = T::new().bytes(CKA_LABEL, b"new"); let rv = set_attrs(s2, h, &mut t); if st == 1 { CKR_OK } else { rv } }
            3 => { let mut t = T::new().b(CKA_TOKEN, false); let mut c = 0; copy(s2, h, &mut t, &mut c) }
            4 => { let mut t = T::new().b(CKA_PRIVATE, false).b(CKA_TOKEN, false); let mut c = 0; let rv = copy(s2, h, &mut t, &mut c); if st == 1 { CKR_OK } else { rv } }
            5 => { let rv = destroy(s2, h); if st == 1 { CKR_OK } else { rv } }
            _ => { let rv = call!(C_GetAttributeValue(s2, h, std::ptr::null_mut(), 0)); rv }
        }
    };
    if st == 1 {
        check!(rv == CKR_OK, "the user can use private objects");
        cover!("used");
    } else if st == 2 && token {
        check!(rv != CKR_OK, "the SO cannot use private objects");
    } else {
        check!(rv != CKR_OK, "private objects cannot be used without a login");
        check!(writes() == w0, "nothing is written");
        cover!("refused");
    }
    cover!("end");
    if st == 1 { expect!("end", "used"); } else { expect!("end", "refused"); }
    if st == 1 { return; }
    // still there, unchanged, for the user
    if st == 2 { assert!(logout(s) == CKR_OK); }
    assert!(login(s2, CKU_USER, USER_PIN) == CKR_OK);
    let mut ft = T::new().b(CKA_PRIVATE, true);
    let (rv, n) = find(s2, &mut ft, &mut l);
    check!((rv == CKR_OK) & (n == token as usize), "private token objects survive, private session objects do not");
    if token {
        let mut b = [0u8; 8];
        let (rv, len) = get_attr(s2, l[0], if idk { CKA_ID } else { CKA_APPLICATION }, &mut b);
        check!((rv == CKR_OK) & (len == 6) & (&b[..6] == b"hidden"), "the object is unchanged");
    }
}

/// p0: 0 nobody logged in, 1 user; p1: 0 creating calls 1 calls on existing objects
#[unsafe(no_mangle)]
pub extern "C" fn h_readonly() {
    boot("enc0");
    let user = vf::param(0, 1) == 1;
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let mut t = aes_key(true, false, 0x5a);
    let mut k: H = 0;
    assert!(create(s, &mut t, &mut k) == CKR_OK);
    let mut t = aes_key(false, false, 0x5a);
    let mut ks: H = 0;
    assert!(create(s, &mut t, &mut ks) == CKR_OK);
    let mut iv = [3u8; 16];
    let mut out = [0u8; 64];
    let mut n: CK_ULONG = 64;
    let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv);
    assert!(call!(C_WrapKey(s, &mut m, ks, ks, out.as_mut_ptr(), &mut n)) == CKR_OK);
    let r = open(false);
    if !user { assert!(logout(s) == CKR_OK); }
    let w0 = writes();
    let tok = vf::u8_z(z!("token"));
    let tok2 = vf::u8_z(z!("token2"));
    let mut h: H = 0;
    let mut h2: H = 0;
    let sk = |ty: CK_ULONG| T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, ty).b(CKA_PRIVATE, false);
    let mut made = true;
    let mut asked = tok != 0;
    let rv = if vf::param(1, 0) == 0 {
        match vf::choose_z(11, z!("fn")) {
            0 => { let mut t = keys::kind(vf::choose_z(12, z!("kind"))).t.bb(CKA_TOKEN, tok); if t.a[1].type_ != CKA_VALUE && !user { t.add(CKA_PRIVATE, &[0]); } create(r, &mut t, &mut h); CKR_OK }
            1 => { let mut t = sk(CKK_AES).ul(CKA_VALUE_LEN, 16).bb(CKA_TOKEN, tok); let mut m = mech(CKM_AES_KEY_GEN); call!(C_GenerateKey(r, &mut m, t.p(), t.n(), &mut h)) }
            2 => {
                asked = (tok != 0) | (tok2 != 0);
                let mut a = T::new().ul(CKA_MODULUS_BITS, 1024).b(CKA_VERIFY, true).bb(CKA_TOKEN, tok);
                let mut b = T::new().b(CKA_SIGN, true).b(CKA_PRIVATE, false).bb(CKA_TOKEN, tok2);
                let mut m = mech(CKM_RSA_PKCS_KEY_PAIR_GEN);
                call!(C_GenerateKeyPair(r, &mut m, a.p(), a.n(), b.p(), b.n(), &mut h, &mut h2))
            }
            3 => {
                asked = (tok != 0) | (tok2 != 0);
                let mut a = T::new().bytes(CKA_EC_PARAMS, keys::P256).bb(CKA_TOKEN, tok);
                let mut b = T::new().b(CKA_SIGN, true).b(CKA_PRIVATE, false).bb(CKA_TOKEN, tok2);
                let mut m = mech(CKM_EC_KEY_PAIR_GEN);
                call!(C_GenerateKeyPair(r, &mut m, a.p(), a.n(), b.p(), b.n(), &mut h, &mut h2))
            }
            4 => { let mut t = sk(CKK_AES).bb(CKA_TOKEN, tok); call!(C_UnwrapKey(r, &mut m, ks, out.as_mut_ptr(), n, t.p(), t.n(), &mut h)) }
            5 => {
                let mut d = [7u8; 16];
                let mut p = CK_KEY_DERIVATION_STRING_DATA { pData: d.as_mut_ptr(), ulLen: 16 };
                let mut m = mech_p(CKM_XOR_BASE_AND_DATA, &mut p);
                let mut t = sk(CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16).bb(CKA_TOKEN, tok);
                call!(C_DeriveKey(r, &mut m, ks, t.p(), t.n(), &mut h))
            }
            6 => {
                asked = (tok != 0) | (tok2 != 0);
                let mut t2 = sk(CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16).bb(CKA_TOKEN, tok2);
                let mut adk = CK_DERIVED_KEY { pTemplate: t2.p(), ulAttributeCount: t2.n(), phKey: &mut h2 };
                let mut cf = CK_SP800_108_COUNTER_FORMAT { bLittleEndian: 0, ulWidthInBits: 16 };
                let mut lab = *b"label";
                let mut pr = [
                    CK_PRF_DATA_PARAM { type_: CK_SP800_108_ITERATION_VARIABLE, pValue: &mut cf as *mut _ as *mut _, ulValueLen: std::mem::size_of::<CK_SP800_108_COUNTER_FORMAT>() as CK_ULONG },
                    CK_PRF_DATA_PARAM { type_: CK_SP800_108_BYTE_ARRAY, pValue: lab.as_mut_ptr() as *mut _, ulValueLen: 5 },
                ];
                let mut p = CK_SP800_108_KDF_PARAMS { prfType: CKM_AES_CMAC, ulNumberOfDataParams: 2, pDataParams: pr.as_mut_ptr(), ulAdditionalDerivedKeys: 1, pAdditionalDerivedKeys: &mut adk };
                let mut m = mech_p(CKM_SP800_108_COUNTER_KDF, &mut p);
                let mut t = sk(CKK_GENERIC_SECRET).ul(CKA_VALUE_LEN, 16).bb(CKA_TOKEN, tok);
                call!(C_DeriveKey(r, &mut m, ks, t.p(), t.n(), &mut h))
            }
            7 => { let mut t = T::new().bb(CKA_TOKEN, tok); copy(r, ks, &mut t, &mut h) }
            8 => { let mut t = T::new().bb(CKA_TOKEN, tok); copy(r, k, &mut t, &mut h); CKR_OK }
            9 => { asked = false; let mut t = T::new(); copy(r, ks, &mut t, &mut h); CKR_OK }
            _ => { asked = true; let mut t = T::new().bytes(CKA_LABEL, b"x"); copy(r, k, &mut t, &mut h); CKR_OK }
        }
    } else {
        made = false;
        match vf::choose_z(6, z!("fn")) {
            0 => { let mut t = T::new().bytes(CKA_LABEL, b"new"); set_attrs(r, k, &mut t) }
            1 => { let mut t = T::new().b(CKA_ENCRYPT, false); set_attrs(r, k, &mut t) }
            2 => { let mut t = T::new(); set_attrs(r, k, &mut t) }
            3 => destroy(r, k),
            4 => { let ty = vf::u64_z(z!("type")); let mut v = [0u8; 8]; v[0] = vf::u8_z(z!("val")); let mut t = T::new().bytes(ty, &v[..[1usize, 8][vf::choose_z(2, z!("len")) as usize]]); set_attrs(r, k, &mut t) }
            _ => init_pin(r, b"87654321"),
        }
    };
    check!(writes() == w0, "a read-only session writes nothing to the token");
    if made {
        if asked { check!((rv != CKR_OK) | (h == 0), "no token object is created in a read-only session"); cover!("asked"); }
        else { check!(rv == CKR_OK, "session objects can be created in a read-only session"); cover!("made"); }
        expect!("asked", "made");
    } else {
        check!(rv != CKR_OK, "token objects cannot be changed in a read-only session");
        cover!("refused");
        expect!("refused");
    }
    // the existing token object is untouched and alone
    let mut l = [0 as H; 8];
    let mut ft = T::new().b(CKA_TOKEN, true);
    let (rv, n) = find(s, &mut ft, &mut l);
    check!((rv == CKR_OK) & (n == 1) & (l[0] == k), "the token has the same objects as before");
}
