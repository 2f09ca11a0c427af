//! C23 objects are what their templates say
use crate::h_store;
use crate::keys;
use crate::p11::*;
use crate::*;
use std::ptr::null_mut;

const ECPUB: u64 = 12;
const MONTPUB: u64 = 13;
const DHPUB: u64 = 14;
const TRUST: u64 = 15;
const NSSTRUST: u64 = 16;
pub const NK: u64 = 17;
/// NSS numbers
const NSS: CK_ULONG = 0xCE534350;

fn base(k: u64) -> T {
    let p65 = { let mut v = vec![4u8, 65, 4]; v.extend_from_slice(&keys::pat(64, 0x71)); v };
    let p32 = keys::pat(32, 0x72);
    match k {
        ECPUB => T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_EC).bytes(CKA_EC_PARAMS, keys::P256).bytes(CKA_EC_POINT, &p65),
        MONTPUB => T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_EC_MONTGOMERY).bytes(CKA_EC_PARAMS, keys::X25519).bytes(CKA_EC_POINT, &p32),
        DHPUB => T::new().ul(CKA_CLASS, CKO_PUBLIC_KEY).ul(CKA_KEY_TYPE, CKK_DH).bytes(CKA_PRIME, &keys::FFDHE2048_P).bytes(CKA_BASE, &[2]).bytes(CKA_VALUE, &keys::pat(256, 0x73)),
        TRUST => T::new().ul(CKA_CLASS, CKO_TRUST).bytes(CKA_ISSUER, b"issuer").bytes(CKA_SERIAL_NUMBER, &[2, 1, 7]),
        NSSTRUST => T::new().ul(CKA_CLASS, 0x80000000 | NSS + 3).bytes(CKA_ISSUER, b"issuer").bytes(CKA_SERIAL_NUMBER, &[2, 1, 7]).bytes(0x80000000 | NSS + 0x2000 + 100, &keys::pat(20, 1)).bytes(0x80000000 | NSS + 0x2000 + 101, &keys::pat(16, 2)),
        _ => keys::kind(k).t,
    }
}
const SECRET: u8 = 1;
const PRIV: u8 = 2;
const PUB: u8 = 3;
const CERTI: u8 = 4;
const OTHER: u8 = 5;
fn group(k: u64) -> u8 {
    match k {
        keys::RSA | keys::EC | keys::DH | keys::MONT => PRIV,
        keys::RSAPUB | ECPUB | MONTPUB | DHPUB => PUB,
        keys::CERT => CERTI,
        keys::DATA | TRUST | NSSTRUST => OTHER,
        _ => SECRET,
    }
}
/// booleans a template may set, with their defaults
fn bools(g: u8) -> Vec<(CK_ATTRIBUTE_TYPE, bool)> {
    let mut v = vec![(CKA_TOKEN, false), (CKA_PRIVATE, g == SECRET || g == PRIV), (CKA_MODIFIABLE, true), (CKA_COPYABLE, true), (CKA_DESTROYABLE, true)];
    if g <= PUB { v.push((CKA_DERIVE, false)); }
    match g {
        SECRET => for a in [CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_SIGN, CKA_VERIFY] { v.push((a, false)); },
        PRIV => for a in [CKA_DECRYPT, CKA_SIGN, CKA_SIGN_RECOVER, CKA_UNWRAP, CKA_ALWAYS_AUTHENTICATE] { v.push((a, false)); },
        PUB => for a in [CKA_ENCRYPT, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_WRAP] { v.push((a, false)); },
        _ => (),
    }
    if g == SECRET || g == PRIV { v.push((CKA_SENSITIVE, true)); v.push((CKA_EXTRACTABLE, false)); v.push((CKA_WRAP_WITH_TRUSTED, false)); }
    v
}
fn defval(k: u64, a: CK_ATTRIBUTE_TYPE, d: bool) -> bool { d || k == keys::HOTP && (a == CKA_SIGN || a == CKA_VERIFY) }
/// other attributes a template may set
fn opts(k: u64, g: u8) -> Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> {
    let mut v: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> = vec![(CKA_LABEL, b"a label".to_vec())];
    let ul = |x: CK_ULONG| x.to_ne_bytes().to_vec();
    if g <= CERTI {
        let mut id = vec![0u8; 3];
        vf::bytes_z(&mut id, z!("id"));
        v.push((CKA_ID, id));
        v.push((CKA_START_DATE, b"20240229".to_vec()));
        v.push((CKA_END_DATE, b"20991231".to_vec()));
    }
    if g <= PUB { let mut a = ul(if k == keys::HOTP { CKM_HOTP } else { CKM_SHA256_HMAC }); if k != keys::HOTP { a.extend_from_slice(&ul(CKM_AES_CBC)); } v.push((CKA_ALLOWED_MECHANISMS, a)); }
    if g == PRIV || g == PUB { v.push((CKA_SUBJECT, b"a subject".to_vec())); }
    match k {
        keys::DATA => { v.push((CKA_APPLICATION, b"app".to_vec())); v.push((CKA_OBJECT_ID, vec![6, 3, 1, 2, 3])); }
        keys::CERT => { v.push((CKA_CERTIFICATE_CATEGORY, ul(2))); v.push((CKA_ISSUER, b"iss".to_vec())); v.push((CKA_SERIAL_NUMBER, vec![2, 1, 9])); v.push((CKA_PUBLIC_KEY_INFO, keys::pat(10, 9))); }
        TRUST => { v.push((CKA_HASH_OF_CERTIFICATE, keys::pat(32, 5))); v.push((CKA_NAME_HASH_ALGORITHM, ul(CKM_SHA256))); v.push((CKA_TRUST_SERVER_AUTH, ul(CKT_TRUSTED))); }
        NSSTRUST => v.push((0x80000000 | NSS + 0x2000 + 8, ul(3))),
        keys::HOTP => { v.push((CKA_OTP_LENGTH, ul(8))); v.push((CKA_OTP_COUNTER, vec![0, 0, 0, 0, 0, 0, 1, 2])); v.push((CKA_OTP_SERVICE_IDENTIFIER, b"service".to_vec())); v.push((CKA_OTP_USER_IDENTIFIER, b"user".to_vec())); }
        _ => (),
    }
    v
}
fn secret_attrs(k: u64) -> Vec<CK_ATTRIBUTE_TYPE> { if k < keys::DATA { keys::kind(k).secrets.iter().map(|x| x.0).collect() } else { vec![] } }
/// the attributes of a template have the values given there
fn has_all(s: H, o: H, t: &T, skip: &[CK_ATTRIBUTE_TYPE], m: &'static str) {
    let mut buf = [0u8; 600];
    let mut ok = true;
    for i in 0..t.a.len() {
        let ty = t.a[i].type_;
        if skip.contains(&ty) { continue; }
        let v = t.val(i);
        let (rv, n) = get_attr(s, o, ty, &mut buf);
        let mut d = 0u8;
        if n == v.len() as CK_ULONG { for q in 0..v.len() { d |= v[q] ^ buf[q]; } } else { d = 1; }
        if rv != CKR_OK { log!("unreadable", ty); }
        if n != v.len() as CK_ULONG { log!("length", ty); log!("n", n); }
        ok = ok & (rv == CKR_OK) & (d == 0);
    }
    vf::assert_z(ok, m);
}
fn start() -> H {
    boot("plain0");
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    s
}
/// everything a template can set. p0: kind
#[unsafe(no_mangle)]
pub extern "C" fn h_tmpl() {
    let s = start();
    let k = vf::param(0, 0) as u64;
    let g = group(k);
    let mut t = base(k);
    let nbase = t.a.len();
    // one group of attributes at a time takes all values
    let which = vf::choose_z(4, z!("attributes"));
    let secrets = secret_attrs(k);
    let mut hidden = g == SECRET || g == PRIV;
    let mut destroyable = true;
    if which < 3 {
        let bs = bools(g);
        let mut sens = 1u8;
        let mut ext = 0u8;
        for (i, (a, d)) in bs.iter().enumerate() {
            if i as u64 % 3 != which && !(which == 0 && *a == CKA_EXTRACTABLE) { continue; }
            if k == NSSTRUST && *a == CKA_PRIVATE { continue; }
            if k == keys::HOTP && matches!(*a, CKA_ENCRYPT | CKA_DECRYPT | CKA_WRAP | CKA_UNWRAP) { continue; }
            let _ = d;
            let v = vf::u8_z(z!("flag"));
            vf::assume(v <= 1);
            if *a == CKA_SENSITIVE { sens = v; }
            if *a == CKA_EXTRACTABLE { ext = v; }
            if *a == CKA_DESTROYABLE { destroyable = v != 0; }
            t.add(*a, &[v]);
        }
        if hidden { hidden = (sens != 0) | (ext == 0); }
    } else {
        for (a, v) in opts(k, g) { t.add(a, &v); }
        if vf::bool_z(z!("token")) { t.put(CKA_TOKEN, &[1]); }
        if hidden && vf::bool_z(z!("readable")) { t.put(CKA_SENSITIVE, &[0]); t.put(CKA_EXTRACTABLE, &[1]); hidden = false; }
    }
    if vf::bool_z(z!("reversed")) { t = rev(t); }
    let mut o: H = 0;
    let rv = create(s, &mut t, &mut o);
    log!("rv", rv);
    check!(rv == CKR_OK, "a good template is accepted");
    let skip: &[CK_ATTRIBUTE_TYPE] = if hidden { &secrets } else { &[] };
    has_all(s, o, &t, skip, "an object has the attributes its template gives");
    // what the template does not give
    for (a, d) in bools(g) {
        if t.a.iter().any(|x| x.type_ == a) { continue; }
        let v = get_bool(s, o, a);
        if v != Some(defval(k, a, d)) { log!("default", a); }
        check!(v == Some(defval(k, a, d)), "an attribute the template does not give has its default value");
    }
    if g <= PUB {
        check!(get_bool(s, o, CKA_LOCAL) == Some(false), "an imported key is not local");
        check!(get_ul(s, o, CKA_KEY_GEN_MECHANISM) == Some(CK_UNAVAILABLE_INFORMATION), "an imported key has no generation mechanism");
        if g != PRIV { check!(get_bool(s, o, CKA_TRUSTED) == Some(false), "a key is not trusted"); }
    }
    if g == SECRET {
        let i = keys::kind(k).secrets[0].1.len() as CK_ULONG;
        check!(get_ul(s, o, CKA_VALUE_LEN) == Some(i) || k == keys::HOTP, "the length of the value");
    }
    // a copy has them all
    let copyable = get_bool(s, o, CKA_COPYABLE) == Some(true);
    let mut c: H = 0;
    let rv = copy(s, o, &mut T::new(), &mut c);
    check!((rv == CKR_OK) == copyable, "copied exactly if copyable");
    if rv == CKR_OK { has_all(s, c, &t, skip, "a copy has the attributes of the object"); cover!("copied"); }
    let rv = destroy(s, o);
    check!((rv == CKR_OK) == destroyable, "destroyed exactly if destroyable");
    let _ = nbase;
    cover!("created");
    expect!("created");
    expect!("copied");
}
fn rev(t: T) -> T {
    let mut r = T::new();
    for i in (0..t.a.len()).rev() { r.add(t.a[i].type_, t.val(i)); }
    r
}
/// the templates that are refused. p0: kind
#[unsafe(no_mangle)]
pub extern "C" fn h_tmpl_bad() {
    let s = start();
    let k = vf::param(0, 0) as u64;
    let g = group(k);
    let mut t = base(k);
    let nb = t.a.len();
    let token = vf::bool_z(z!("token"));
    if token { t.put(CKA_TOKEN, &[1]); }
    let before = h_store::snap(s);
    let what = vf::choose_z(9, z!("defect"));
    match what {
        0 => {
            // one that has to be there
            vf::assume(k != keys::DATA);
            let j = vf::choose_z(nb as u64, z!("missing")) as usize;
            let optional = (k == keys::RSA && t.a[j].type_ != CKA_MODULUS && t.a[j].type_ != CKA_PRIVATE_EXPONENT && t.a[j].type_ != CKA_CLASS && t.a[j].type_ != CKA_KEY_TYPE) || (k == keys::MONT && t.a[j].type_ == CKA_PUBLIC_KEY_INFO);
            vf::assume(!optional);
            let mut r = T::new();
            for i in 0..t.a.len() { if i != j { r.add(t.a[i].type_, t.val(i)); } }
            t = r;
        }
        1 => {
            // one given twice
            for (a, v) in opts(k, g) { t.add(a, &v); }
            for (a, d) in bools(g) { if !(k == NSSTRUST && a == CKA_PRIVATE) { t.put(a, &[d as u8]); } }
            if token { t.put(CKA_TOKEN, &[1]); }
            let j = vf::choose_z(t.a.len() as u64, z!("twice")) as usize;
            vf::assume(t.a[j].type_ != CKA_CLASS);
            let mut v = t.val(j).to_vec();
            if vf::bool_z(z!("other value")) { v[0] ^= 1; }
            let ty = t.a[j].type_;
            t.add(ty, &v);
        }
        2 => {
            // one that objects of this kind do not have
            let mut f = vec![(CKA_AC_ISSUER, 1usize), (0x8000_1234, 1), (0x7777_7777, 8), (CKA_PRIME_BITS, 8), (CKA_HW_FEATURE_TYPE, 8)];
            if k != keys::CERT { f.push((CKA_CERTIFICATE_CATEGORY, 8)); f.push((CKA_URL, 3)); }
            if g > PUB { f.push((CKA_SENSITIVE, 1)); f.push((CKA_KEY_TYPE, 8)); f.push((CKA_ENCRYPT, 1)); }
            if k != keys::DATA { f.push((CKA_APPLICATION, 3)); }
            if !matches!(k, keys::RSA | keys::RSAPUB) { f.push((CKA_MODULUS, 128)); f.push((CKA_PRIME_1, 8)); }
            if !matches!(k, keys::EC | keys::MONT | ECPUB | MONTPUB) { f.push((CKA_EC_PARAMS, 10)); }
            if !matches!(k, ECPUB | MONTPUB) { f.push((CKA_EC_POINT, 10)); }
            if !matches!(k, keys::DH | DHPUB) { f.push((CKA_PRIME, 10)); }
            if k != keys::HOTP { f.push((CKA_OTP_COUNTER, 8)); }
            if g == PUB { f.push((CKA_SENSITIVE, 1)); f.push((CKA_DECRYPT, 1)); f.push((CKA_SIGN, 1)); }
            if g == PRIV { f.push((CKA_ENCRYPT, 1)); f.push((CKA_VERIFY, 1)); f.push((CKA_WRAP, 1)); }
            let (a, n) = f[vf::choose_z(f.len() as u64, z!("foreign")) as usize];
            t.add(a, &vec![0x31u8; n]);
        }
        3 => {
            // one that only the module sets
            let mut f = vec![(CKA_UNIQUE_ID, 4usize)];
            if g <= PUB { f.push((CKA_LOCAL, 1)); f.push((CKA_KEY_GEN_MECHANISM, 8)); }
            if g == SECRET || g == PRIV { f.push((CKA_ALWAYS_SENSITIVE, 1)); f.push((CKA_NEVER_EXTRACTABLE, 1)); }
            if g == SECRET || g == PUB { f.push((CKA_TRUSTED, 1)); }
            let (a, n) = f[vf::choose_z(f.len() as u64, z!("read only")) as usize];
            let mut v = vec![0x31u8; n];
            if n == 1 { v[0] = vf::bool_z(z!("value")) as u8; }
            t.add(a, &v);
        }
        4 => {
            let bs = bools(g);
            let a = bs[vf::choose_z(bs.len() as u64, z!("flag")) as usize].0;
            t.put(a, &vec![1u8; [0, 2, 8][vf::choose_z(3, z!("length")) as usize]]);
        }
        5 => {
            let mut f = vec![CKA_CLASS];
            if g <= PUB { f.push(CKA_KEY_TYPE); }
            if g == CERTI { f.push(CKA_CERTIFICATE_TYPE); f.push(CKA_CERTIFICATE_CATEGORY); }
            if k == TRUST { f.push(CKA_TRUST_SERVER_AUTH); f.push(CKA_NAME_HASH_ALGORITHM); }
            let a = f[vf::choose_z(f.len() as u64, z!("number")) as usize];
            let n = [0usize, 4, 7, 9, 16][vf::choose_z(5, z!("length")) as usize];
            let mut v = vec![0u8; n];
            if let Some(i) = t.a.iter().position(|x| x.type_ == a) { for (q, b) in t.val(i).iter().enumerate() { if q < n { v[q] = *b; } } }
            t.put(a, &v);
        }
        6 => {
            // another class or type than the rest of the template is for
            let class = vf::bool_z(z!("class")) || g > PUB;
            if class {
                let c = [CKO_DATA, CKO_CERTIFICATE, CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_SECRET_KEY, CKO_HW_FEATURE, CKO_DOMAIN_PARAMETERS, CKO_MECHANISM, CKO_OTP_KEY, CKO_PROFILE, CKO_TRUST, 0x80000000 | NSS + 3, 0x8000_0001, 0xffff_ffff, u64::MAX][vf::choose_z(15, z!("new class")) as usize];
                vf::assume(t.val(t.a.iter().position(|x| x.type_ == CKA_CLASS).unwrap()) != c.to_ne_bytes());
                // both keys of a DH pair have the same components
                vf::assume(!(matches!(k, keys::DH | DHPUB) && matches!(c, CKO_PUBLIC_KEY | CKO_PRIVATE_KEY)));
                t.put(CKA_CLASS, &c.to_ne_bytes());
            } else {
                let c = [CKK_RSA, CKK_DSA, CKK_DH, CKK_EC, CKK_X9_42_DH, CKK_GENERIC_SECRET, CKK_DES3, CKK_AES, CKK_HOTP, CKK_SHA256_HMAC, CKK_HKDF, CKK_EC_MONTGOMERY, CKK_EC_EDWARDS, 0x8000_0001, u64::MAX][vf::choose_z(15, z!("new type")) as usize];
                vf::assume(t.val(t.a.iter().position(|x| x.type_ == CKA_KEY_TYPE).unwrap()) != c.to_ne_bytes());
                // secret keys differ by their type only
                vf::assume(!(g == SECRET && k != keys::HOTP && matches!(c, CKK_GENERIC_SECRET | CKK_SHA256_HMAC | CKK_HKDF | CKK_AES)));
                t.put(CKA_KEY_TYPE, &c.to_ne_bytes());
            }
        }
        7 => {
            // values no key of the kind has
            vf::assume(matches!(k, keys::AES | keys::GENERIC | keys::HMAC | keys::HKDF | keys::HOTP));
            if k == keys::HOTP {
                let n = vf::u64_z(z!("otp"));
                match vf::choose_z(4, z!("otp attribute")) {
                    0 => { vf::assume(n < 6 || n > 8); t.put(CKA_OTP_LENGTH, &n.to_ne_bytes()); }
                    1 => { vf::assume(n != CK_OTP_FORMAT_DECIMAL); t.put(CKA_OTP_FORMAT, &n.to_ne_bytes()); }
                    2 => t.put(CKA_OTP_COUNTER, &vec![0u8; [1, 4, 7, 9, 16][vf::choose_z(5, z!("length")) as usize]]),
                    _ => t.put([CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP][vf::choose_z(4, z!("flag")) as usize], &[1]),
                }
            } else if vf::bool_z(z!("length given")) {
                let n = vf::u64_z(z!("value length"));
                vf::assume(n != keys::kind(k).secrets[0].1.len() as u64);
                t.put(CKA_VALUE_LEN, &n.to_ne_bytes());
            } else {
                let n = if k == keys::AES { vf::choose_z(40, z!("length")) as usize } else { 0 };
                vf::assume(!matches!(n, 16 | 24 | 32));
                t.put(CKA_VALUE, &vec![0x5au8; n]);
            }
        }
        _ => {
            vf::assume(g <= CERTI);
            let a = if vf::bool_z(z!("start")) { CKA_START_DATE } else { CKA_END_DATE };
            let mut d = *b"202402291";
            match vf::choose_z(3, z!("date")) {
                0 => t.put(a, &d),
                1 => t.put(a, &d[..7]),
                _ => { let p = vf::choose_z(8, z!("digit")) as usize; d[p] = vf::u8_z(z!("character")); vf::assume(d[p] < b'0' || d[p] > b'9'); t.put(a, &d[..8]); }
            }
        }
    }
    let mut o: H = 0x5151;
    let rv = create(s, &mut t, &mut o);
    log!("what", what); log!("rv", rv);
    check!(rv != CKR_OK, "a bad template is refused");
    h_store::equal(&before, &h_store::snap(s), true, "a refused template leaves no object");
    let mut l = [0 as H; 16];
    let (rv, n) = find(s, &mut T::new().b(CKA_TOKEN, false), &mut l);
    check!(rv == CKR_OK && n == 0, "a refused template leaves no object");
    cover!("refused");
    expect!("refused");
}

const GAES: u64 = 0;
const GGEN: u64 = 1;
const GHKDF: u64 = 2;
const GHOTP: u64 = 3;
const GRSA: u64 = 4;
const GEC: u64 = 5;
const GDH: u64 = 6;
const UGEN: u64 = 7;
const UAES: u64 = 8;
const URSA: u64 = 9;
const DCAT: u64 = 10;
pub const NG: u64 = 11;
fn made_kind(i: u64) -> (u64, u64) {
    match i { GAES | UAES => (keys::AES, 0), GGEN | UGEN | DCAT => (keys::GENERIC, 0), GHKDF => (keys::HKDF, 0), GHOTP => (keys::HOTP, 0), GRSA => (keys::RSA, keys::RSAPUB), GEC => (keys::EC, ECPUB), GDH => (keys::DH, DHPUB), _ => (keys::RSA, 0) }
}
struct Made { rv: CK_RV, o: H, p: H }
/// makes a key (pair) with the attributes given; the templates say what has to be said
fn make(s: H, i: u64, t: &mut T, u: &mut T, w: H, blob: &mut [u8], n: CK_ULONG, base: [H; 2]) -> Made {
    let mut o: H = 0x5151;
    let mut p: H = 0x5151;
    let rv = match i {
        GAES | GGEN | GHKDF | GHOTP => {
            let mut m = mech([CKM_AES_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN, CKM_HKDF_KEY_GEN, CKM_HOTP_KEY_GEN][i as usize]);
            call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut o))
        }
        GRSA | GEC | GDH => {
            let mut m = mech([CKM_RSA_PKCS_KEY_PAIR_GEN, CKM_EC_KEY_PAIR_GEN, CKM_DH_PKCS_KEY_PAIR_GEN][(i - GRSA) as usize]);
            call!(C_GenerateKeyPair(s, &mut m, u.p(), u.n(), t.p(), t.n(), &mut p, &mut o))
        }
        DCAT => {
            let mut h = base[1];
            let mut m = mech_p(CKM_CONCATENATE_BASE_AND_KEY, &mut h);
            call!(C_DeriveKey(s, &mut m, base[0], t.p(), t.n(), &mut o))
        }
        _ => {
            let mut iv = [4u8; 16];
            let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv);
            call!(C_UnwrapKey(s, &mut m, w, blob.as_mut_ptr(), n, t.p(), t.n(), &mut o))
        }
    };
    Made { rv, o, p }
}
fn need(i: u64) -> (T, T) {
    let (k, kp) = made_kind(i);
    let mut t = T::new();
    let mut u = T::new();
    if i >= UGEN {
        let b = base(k);
        for j in 0..2 { t.add(b.a[j].type_, b.val(j)); }
    }
    match i {
        GAES | GGEN | GHKDF | GHOTP => t = t.ul(CKA_VALUE_LEN, if i == GHOTP { 20 } else { 16 }),
        GRSA => u = u.ul(CKA_MODULUS_BITS, 1024).bytes(CKA_PUBLIC_EXPONENT, &[1, 0, 1]),
        GEC => u = u.bytes(CKA_EC_PARAMS, keys::P256),
        GDH => u = u.bytes(CKA_PRIME, &keys::FFDHE2048_P).bytes(CKA_BASE, &[2]),
        _ => (),
    }
    let _ = kp;
    (t, u)
}
/// p0: way of making a key, p1: 0 = good templates, 1 = bad ones
#[unsafe(no_mangle)]
pub extern "C" fn h_tmpl_gen() {
    let s = start();
    let i = vf::param(0, 0) as u64;
    let (k, kp) = made_kind(i);
    let pair = kp != 0;
    let mut w: H = 0;
    let mut bases = [0 as H; 2];
    let mut blob = [0u8; 1200];
    let mut n: CK_ULONG = 0;
    if i >= UGEN && i < DCAT {
        let rv = create(s, &mut crate::ops::aes_key(false, false, 0x31).set(CKA_WRAP, true).set(CKA_UNWRAP, true), &mut w);
        check!(rv == CKR_OK, "create");
        let mut b = base(k).b(CKA_EXTRACTABLE, true);
        let mut o: H = 0;
        let rv = create(s, &mut b, &mut o);
        check!(rv == CKR_OK, "create");
        let mut iv = [4u8; 16];
        let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv);
        n = 1200;
        let rv = call!(C_WrapKey(s, &mut m, w, o, blob.as_mut_ptr(), &mut n));
        check!(rv == CKR_OK, "wrap");
        let rv = destroy(s, o);
        check!(rv == CKR_OK, "destroy");
    }
    if i == DCAT {
        for b in &mut bases {
            let rv = create(s, &mut base(keys::GENERIC).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true), b);
            check!(rv == CKR_OK, "create");
        }
    }
    let (mut t, mut u) = need(i);
    let count = |s: H| { let mut l = [0 as H; 16]; let (rv, n) = find(s, &mut T::new().b(CKA_TOKEN, false), &mut l); check!(rv == CKR_OK, "find"); n };
    if vf::param(1, 0) == 0 {
        let which = vf::choose_z(4, z!("attributes"));
        let only = if pair { vf::choose_z(2, z!("public")) } else { 0 };
        for (side, x, kk) in [(0, &mut t, k), (1, &mut u, kp)] {
            if side == 1 && !pair || side != only && which < 3 { continue; }
            let g = group(kk);
            if which < 3 {
                for (j, (a, _)) in bools(g).iter().enumerate() {
                    if j as u64 % 3 != which { continue; }
                    if kk == keys::HOTP && matches!(*a, CKA_ENCRYPT | CKA_DECRYPT | CKA_WRAP | CKA_UNWRAP) { continue; }
                    let v = vf::u8_z(z!("flag"));
                    vf::assume(v <= 1);
                    x.add(*a, &[v]);
                }
            } else {
                for (a, v) in opts(kk, g) { x.add(a, &v); }
                if vf::bool_z(z!("token")) { x.put(CKA_TOKEN, &[1]); }
            }
        }
        if vf::bool_z(z!("reversed")) { t = rev(t); u = rev(u); }
        if vf::bool_z(z!("named")) {
            // the kind may be named
            for (side, x, kk) in [(0, &mut t, k), (1, &mut u, kp)] {
                if side == 1 && !pair { continue; }
                let b = base(kk);
                for j in 0..2 { x.put(b.a[j].type_, b.val(j)); }
            }
        }
        let m = make(s, i, &mut t, &mut u, w, &mut blob, n, bases);
        log!("rv", m.rv);
        check!(m.rv == CKR_OK, "a good template is accepted");
        for (side, x, kk, o) in [(0, &t, k, m.o), (1, &u, kp, m.p)] {
            if side == 1 && !pair { continue; }
            let g = group(kk);
            has_all(s, o, x, &[], "a key has the attributes its template gives");
            let b = base(kk);
            check!(get_ul(s, o, CKA_CLASS) == Some(CK_ULONG::from_ne_bytes(b.val(0).try_into().unwrap())), "class");
            check!(get_ul(s, o, CKA_KEY_TYPE) == Some(CK_ULONG::from_ne_bytes(b.val(1).try_into().unwrap())), "key type");
            for (a, d) in bools(g) {
                if x.a.iter().any(|y| y.type_ == a) { continue; }
                // protection of a derived key follows its base key
                if i == DCAT && matches!(a, CKA_SENSITIVE | CKA_EXTRACTABLE) { continue; }
                let v = get_bool(s, o, a);
                if v != Some(defval(kk, a, d)) { log!("default", a); }
                check!(v == Some(defval(kk, a, d)), "an attribute the template does not give has its default value");
            }
            check!(get_bool(s, o, CKA_LOCAL) == Some(i < UGEN), "local exactly if generated");
            let gm = if i < UGEN { [CKM_AES_KEY_GEN, CKM_GENERIC_SECRET_KEY_GEN, CKM_HKDF_KEY_GEN, CKM_HOTP_KEY_GEN, CKM_RSA_PKCS_KEY_PAIR_GEN, CKM_EC_KEY_PAIR_GEN, CKM_DH_PKCS_KEY_PAIR_GEN][i as usize] } else { CK_UNAVAILABLE_INFORMATION };
            check!(get_ul(s, o, CKA_KEY_GEN_MECHANISM) == Some(gm), "generation mechanism");
            if g != PRIV { check!(get_bool(s, o, CKA_TRUSTED) == Some(false), "a key is not trusted"); }
            let shared: &[CK_ATTRIBUTE_TYPE] = match i { GRSA => &[CKA_PUBLIC_EXPONENT], GEC => &[CKA_EC_PARAMS], GDH => &[CKA_PRIME, CKA_BASE], _ => &[] };
            for a in shared {
                let j = u.a.iter().position(|y| y.type_ == *a).unwrap();
                let mut buf = [0u8; 300];
                let (rv, n) = get_attr(s, o, *a, &mut buf);
                check!(rv == CKR_OK && n as usize == u.val(j).len() && &buf[..n as usize] == u.val(j), "both keys of a pair have the parameters asked for");
            }
        }
        cover!("made");
        expect!("made");
        return;
    }
    let before = h_store::snap(s);
    let c0 = count(s);
    // a good template with one thing wrong, in one of the templates
    let second = pair && vf::bool_z(z!("public"));
    let kk = if second { kp } else { k };
    let g = group(kk);
    if vf::bool_z(z!("token")) { t.put(CKA_TOKEN, &[1]); if pair { u.put(CKA_TOKEN, &[1]); } }
    let x = if second { &mut u } else { &mut t };
    match vf::choose_z(6, z!("defect")) {
        0 => {
            // another class
            let b = base(kk);
            let c = [CKO_DATA, CKO_CERTIFICATE, CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_SECRET_KEY, CKO_OTP_KEY, CKO_DOMAIN_PARAMETERS, u64::MAX][vf::choose_z(8, z!("class")) as usize];
            vf::assume(b.val(0) != c.to_ne_bytes());
            // what is in a wrapping fits the class by chance or not
            vf::assume(!(i >= UGEN && i < DCAT && matches!(c, CKO_SECRET_KEY | CKO_PRIVATE_KEY)));
            x.put(CKA_CLASS, &c.to_ne_bytes());
        }
        1 => {
            vf::assume(i < UGEN);
            let b = base(kk);
            let c = [CKK_RSA, CKK_DSA, CKK_DH, CKK_EC, CKK_GENERIC_SECRET, CKK_AES, CKK_HOTP, CKK_HKDF, CKK_EC_MONTGOMERY, 0x8000_0001, u64::MAX][vf::choose_z(11, z!("type")) as usize];
            vf::assume(b.val(1) != c.to_ne_bytes());
            x.put(CKA_KEY_TYPE, &c.to_ne_bytes());
        }
        2 => {
            // the value is the module's business
            vf::assume(kk != keys::RSAPUB);
            let a = match kk { keys::RSA => CKA_PRIVATE_EXPONENT, ECPUB => CKA_EC_POINT, _ => CKA_VALUE };
            x.add(a, &keys::pat(16, 3));
        }
        3 => {
            let mut f = vec![(CKA_UNIQUE_ID, 4usize), (CKA_LOCAL, 1), (CKA_KEY_GEN_MECHANISM, 8)];
            if g != PUB { f.push((CKA_ALWAYS_SENSITIVE, 1)); f.push((CKA_NEVER_EXTRACTABLE, 1)); }
            if g != PRIV { f.push((CKA_TRUSTED, 1)); }
            let (a, n) = f[vf::choose_z(f.len() as u64, z!("read only")) as usize];
            x.add(a, &vec![1u8; n]);
        }
        4 => {
            let (a, n) = [(CKA_AC_ISSUER, 1usize), (0x8000_1234, 1), (CKA_PRIME_1, 8), (CKA_CERTIFICATE_CATEGORY, 8), (CKA_APPLICATION, 3)][vf::choose_z(5, z!("foreign")) as usize];
            vf::assume(!(kk == keys::RSA && a == CKA_PRIME_1));
            x.add(a, &vec![1u8; n]);
        }
        _ => {
            let bs = bools(g);
            let a = bs[vf::choose_z(bs.len() as u64, z!("flag")) as usize];
            match vf::choose_z(3, z!("how")) {
                0 => x.put(a.0, &[1u8; 8]),
                1 => x.put(a.0, &[]),
                _ => { x.put(a.0, &[defval(kk, a.0, a.1) as u8]); x.add(a.0, &[1]); }
            }
        }
    }
    let m = make(s, i, &mut t, &mut u, w, &mut blob, n, bases);
    log!("rv", m.rv);
    check!(m.rv != CKR_OK, "a bad template is refused");
    h_store::equal(&before, &h_store::snap(s), true, "a refused template leaves no object");
    check!(count(s) == c0, "a refused template leaves no object");
    cover!("refused");
    expect!("refused");
}
