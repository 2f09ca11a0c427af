//! C25 mechanism lists and flags
use crate::keys;
use crate::ops::*;
use crate::p11::*;
use crate::*;

/// (mechanism, name) used by call i when nothing is restricted
const USE: [(CK_MECHANISM_TYPE, &str); 14] = [
    (CKM_AES_ECB, "CKM_AES_ECB"), (CKM_AES_CBC, "CKM_AES_CBC"), (CKM_AES_CMAC, "CKM_AES_CMAC"), (CKM_SHA256_HMAC, "CKM_SHA256_HMAC"), (CKM_SHA256, "CKM_SHA256"),
    (CKM_AES_GCM, "CKM_AES_GCM"), (CKM_AES_CCM, "CKM_AES_CCM"), (CKM_SHA512_HMAC, "CKM_SHA512_HMAC"), (CKM_AES_KEY_GEN, "CKM_AES_KEY_GEN"), (CKM_EC_KEY_PAIR_GEN, "CKM_EC_KEY_PAIR_GEN"),
    (CKM_AES_KEY_WRAP, "CKM_AES_KEY_WRAP"), (CKM_AES_CBC_PAD, "CKM_AES_CBC_PAD"), (CKM_XOR_BASE_AND_DATA, "CKM_XOR_BASE_AND_DATA"), (CKM_SHA224, "CKM_SHA224"),
];
const FLAG: [CK_FLAGS; 14] = [
    CKF_ENCRYPT, CKF_DECRYPT, CKF_SIGN, CKF_VERIFY, CKF_DIGEST, CKF_MESSAGE_ENCRYPT, CKF_MESSAGE_DECRYPT, CKF_VERIFY, CKF_GENERATE, CKF_GENERATE_KEY_PAIR, CKF_WRAP, CKF_UNWRAP, CKF_DERIVE, CKF_DIGEST,
];
fn boot_mechs(args: &str, list: Option<&[&str]>) {
    load();
    match list { Some(l) => cfg_mechs(SLOT as u32, args, l), None => cfg(SLOT as u32, args) }
    assert!(initialize() == CKR_OK);
    assert!(init_token(SO_PIN, b"label                           ") == CKR_OK);
    let h = open(true);
    assert!(login(h, CKU_SO, SO_PIN) == CKR_OK);
    assert!(init_pin(h, USER_PIN) == CKR_OK);
    assert!(close(h) == CKR_OK);
}
/// makes call i with the mechanism and one of the keys; the handle of what it creates
fn attempt(i: usize, m: &mut CK_MECHANISM, s: H, k: H, out: &mut [u8; 64], o: &mut H) -> CK_RV {
    let mut n: CK_ULONG = 64;
    let mut w = keys::pat(24, 0x17);
    let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET);
    match i {
        0 => call!(C_EncryptInit(s, m, k)),
        1 => call!(C_DecryptInit(s, m, k)),
        2 => call!(C_SignInit(s, m, k)),
        3 => call!(C_VerifyInit(s, m, k)),
        5 => call!(C_MessageEncryptInit(s, m, k)),
        6 => call!(C_MessageDecryptInit(s, m, k)),
        7 => call!(C_VerifySignatureInit(s, m, k, out.as_mut_ptr(), 64)),
        8 => { let mut t = T::new().ul(CKA_VALUE_LEN, 16); call!(C_GenerateKey(s, m, t.p(), t.n(), o)) }
        9 => {
            let (mut t, mut u, mut h) = (T::new().bytes(CKA_EC_PARAMS, keys::P256), T::new(), 0);
            call!(C_GenerateKeyPair(s, m, t.p(), t.n(), u.p(), u.n(), o, &mut h))
        }
        10 => call!(C_WrapKey(s, m, k, k, out.as_mut_ptr(), &mut n)),
        11 => { let mut w = if m.mechanism == CKM_AES_CBC_PAD { *WRAPPED.get() } else { [0; 32] }; call!(C_UnwrapKey(s, m, k, w.as_mut_ptr(), 32, t.p(), t.n(), o)) }
        12 => { let mut t = t.ul(CKA_VALUE_LEN, 16); let _ = &mut w; call!(C_DeriveKey(s, m, k, t.p(), t.n(), o)) }
        _ => call!(C_DigestInit(s, m)),
    }
}
static WRAPPED: kryoptic_lib::verif::Cell<[u8; 32]> = kryoptic_lib::verif::Cell::new([0; 32]);
fn mechs(l: &mut [CK_MECHANISM_TYPE]) -> usize {
    let mut n: CK_ULONG = 0;
    let rv = call!(C_GetMechanismList(SLOT, std::ptr::null_mut(), &mut n));
    check!(rv == CKR_OK && n as usize <= l.len(), "the number of mechanisms");
    let mut k = l.len() as CK_ULONG;
    let rv = call!(C_GetMechanismList(SLOT, l.as_mut_ptr(), &mut k));
    check!(rv == CKR_OK && k == n, "the list of mechanisms");
    if n > 0 {
        let mut few = n - 1;
        let mut l2 = [0 as CK_MECHANISM_TYPE; 1];
        if few > 1 { few = 0; }
        let rv = call!(C_GetMechanismList(SLOT, l2.as_mut_ptr(), &mut few));
        check!(rv == CKR_BUFFER_TOO_SMALL && few == n, "too little space for the list");
    }
    n as usize
}
fn info(m: CK_MECHANISM_TYPE) -> Option<CK_MECHANISM_INFO> {
    let mut i: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() };
    let rv = call!(C_GetMechanismInfo(SLOT, m, &mut i));
    check!(rv == CKR_OK || rv == CKR_MECHANISM_INVALID, "mechanism info");
    if rv == CKR_OK { Some(i) } else { None }
}
fn ready(s: H) -> [H; 4] {
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut k: [H; 4] = [0; 4];
    let rv = create(s, &mut aes_key(false, false, 0x31), &mut k[0]);
    check!(rv == CKR_OK, "create");
    for (i, kd) in [(1, 1), (2, 3), (3, 5)] {
        let mut t = keys::kind(kd).t;
        t.put(CKA_TOKEN, &[0]);
        if i == 1 { t.put(CKA_SIGN, &[1]); t.put(CKA_VERIFY, &[1]); }
        let rv = create(s, &mut t, &mut k[i]);
        check!(rv == CKR_OK, "create");
    }
    k
}

/// what C_GetMechanismInfo says. p0: call, p1: remainder modulo 4 of the mechanisms' numbers in the list
#[unsafe(no_mangle)]
pub extern "C" fn h_mech_flags() {
    boot_mechs("plain0", None);
    let i = vf::param(0, 0) as usize;
    let s = open(true);
    let k = ready(s);
    let mut l = [0 as CK_MECHANISM_TYPE; 256];
    let n = mechs(&mut l);
    for a in 0..n { for b in 0..a { check!(l[a] != l[b], "every mechanism is listed once"); } }
    let x = vf::choose_z(n as u64 + 1, z!("mechanism")) as usize;
    // any number that is not in the list, too
    let m = if x < n { l[x] } else { let y = vf::u8_z(z!("number")) as CK_MECHANISM_TYPE | 0x8765_0000; vf::conc(y) };
    let f = match info(m) { Some(f) => { check!(x < n, "mechanisms not listed have no information"); f.flags } None => { check!(x == n, "a listed mechanism has information"); 0 } };
    if f & FLAG[i] != 0 { cover!("flag"); return; }
    let kk = k[vf::choose_z(4, z!("key")) as usize];
    let mut iv = [3u8; 16];
    let mut mm = if vf::bool_z(z!("parameter")) { mech_b(m, &mut iv) } else { mech(m) };
    let mut out = [0u8; 64];
    let mut o: H = 0;
    let rv = attempt(i, &mut mm, s, kk, &mut out, &mut o);
    check!(rv != CKR_OK, "a mechanism does nothing its flags do not mention");
    untouched(&out);
    cover!("refused");
    expect!("refused");
}

/// a list in the configuration. p0: 1 = DENY
#[unsafe(no_mangle)]
pub extern "C" fn h_mech_list() {
    let deny = vf::param(0, 0) == 1;
    let i = vf::choose_z(14, z!("call")) as usize;
    let pos = vf::choose_z(4, z!("position")) as usize;
    let mut l: Vec<&str> = vec![];
    if deny { l.push("DENY"); }
    // two other mechanisms, the one used at any place or not at all
    let mut others = vec!["CKM_RSA_PKCS_OAEP", "CKM_SHA384"];
    if pos < 3 { others.insert(pos, USE[i].1); }
    if pos == 3 && vf::bool_z(z!("empty")) { others.clear(); }
    l.extend(others.iter());
    boot_mechs("enc0", Some(&l));
    let s = open(true);
    let k = ready(s);
    // the storage is independent of what callers may use
    let mut tk: H = 0;
    let rv = create(s, &mut aes_key(true, true, 0x44), &mut tk);
    check!(rv == CKR_OK, "token objects do not need a mechanism");
    let mut ml = [0 as CK_MECHANISM_TYPE; 256];
    let n = mechs(&mut ml);
    let ok = (pos < 3) != deny;
    let has = ml[..n].contains(&USE[i].0);
    check!(has == ok && info(USE[i].0).is_some() == ok, "the list of mechanisms follows the configuration");
    if !deny { check!(n == others.len(), "no other mechanism is allowed"); }
    if deny { for (m, nm) in USE { check!(others.contains(&nm) || ml[..n].contains(&m), "every other mechanism is allowed"); } }
    if i == 11 && ok {
        // something to unwrap: made by the AES key itself
        let mut iv = [3u8; 16];
        let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv);
        let mut n: CK_ULONG = 32;
        let rv = call!(C_WrapKey(s, &mut m, k[0], k[0], WRAPPED.get().as_mut_ptr(), &mut n));
        check!(rv == CKR_OK && n == 32, "wrap");
    }
    let mut iv = [3u8; 16];
    let mut d = [7u8; 16];
    let mut p = CK_KEY_DERIVATION_STRING_DATA { pData: d.as_mut_ptr(), ulLen: 16 };
    let mut m = match i { 1 | 11 => mech_b(USE[i].0, &mut iv), 12 => mech_p(USE[i].0, &mut p), _ => mech(USE[i].0) };
    let kk = if i == 3 || i == 7 { k[1] } else { k[0] };
    let mut out = [0u8; 64];
    let mut o: H = 0;
    let rv = attempt(i, &mut m, s, kk, &mut out, &mut o);
    log!("call", i as u64); log!("rv", rv);
    check!((rv == CKR_OK) == ok, "exactly the mechanisms of the list are usable");
    if ok { cover!("allowed"); } else {
        untouched(&out);
        check!(rv == CKR_MECHANISM_INVALID && o == 0, "others are invalid");
        cover!("refused");
    }
    // and the stored object is still there after a restart
    assert!(finalize() == CKR_OK);
    cfg_mechs(SLOT as u32, "enc0", &l);
    assert!(initialize() == CKR_OK);
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut hs = [0 as H; 4];
    let (rv, n) = find(s, &mut T::new().ul(CKA_KEY_TYPE, CKK_AES).b(CKA_TOKEN, true), &mut hs);
    check!(rv == CKR_OK && n == 1, "stored objects do not depend on the list");
    expect!("allowed", "refused");
}
