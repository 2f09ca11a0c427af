//! C10 what the token database holds at rest
#![allow(static_mut_refs)]
use crate::keys;
use crate::ops;
use crate::ossl_stub as st;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

fn fresh() {
    unsafe {
        st::RNG_CTR = 0;
        st::SEAL = true;
        st::SEAL_CTR = 0;
        st::SEALS.clear();
        st::ORACLE = true;
    }
    verif::raw_reset(0);
}
fn has(hay: &[u8], needle: &[u8]) -> bool {
    let n = needle.len();
    if n == 0 || hay.len() < n { return false; }
    let mut hit = false;
    for i in 0..=hay.len() - n {
        let mut d = 0u8;
        for j in 0..n { d |= hay[i + j] ^ needle[j]; }
        hit |= d == 0;
    }
    hit
}
fn blank(hay: &mut [u8], needle: &[u8]) {
    let n = needle.len();
    if n < 8 || hay.len() < n { return; }
    for i in 0..=hay.len() - n {
        if &hay[i..i + n] == needle { hay[i..i + n].fill(b'#'); }
    }
}
fn nowhere(v: &[u8], m: &'static str) {
    for (_, b) in verif::raw_dump(0) {
        vf::assert_z(!has(&b, v), m);
    }
}
/// what must hold of every box made so far
fn boxes() {
    let all = unsafe { &st::SEALS };
    check!(all.len() > 0, "something is encrypted");
    for (i, x) in all.iter().enumerate() {
        for y in &all[..i] {
            if x.key.len() == y.key.len() && x.iv.len() == y.iv.len() {
                let mut d = 0u8;
                for j in 0..x.key.len() { d |= x.key[j] ^ y.key[j]; }
                for j in 0..x.iv.len() { d |= x.iv[j] ^ y.iv[j]; }
                check!(d != 0, "no nonce is used twice with one storage key");
            }
        }
    }
}
/// keys and contents of boxes never are in the database
fn sealed() {
    let all = unsafe { &st::SEALS };
    for x in all {
        nowhere(&x.key, z!("no storage key is in the database"));
        if x.pt.len() >= 16 { nowhere(&x.pt, z!("nothing encrypted is in the database in the clear as well")); }
    }
}

/// one life of a token with one key of kind `k`
fn life(k: u64, origin: i64, sub: &[u8], so: &[u8], pin: &[u8], pin2: &[u8]) -> Vec<(u64, Vec<u8>)> {
    fresh();
    cfg(SLOT as u32, "enc0");
    assert!(initialize() == CKR_OK);
    let rv = init_token(so, b"label                           ");
    check!(rv == CKR_OK, "init token");
    let s = open(true);
    let rv = login(s, CKU_SO, so);
    check!(rv == CKR_OK, "login SO");
    let rv = init_pin(s, pin);
    check!(rv == CKR_OK, "init pin");
    assert!(logout(s) == CKR_OK);
    let rv = login(s, CKU_USER, pin);
    check!(rv == CKR_OK, "login user");
    let mut kd = keys::kind(k);
    let sens = [1u8];
    let mut at = 0;
    let mut t = T::new();
    for i in 0..kd.t.a.len() {
        let ty = kd.t.a[i].type_;
        let v = kd.t.val(i).to_vec();
        if kd.secrets.iter().any(|x| x.0 == ty) {
            // the kinds of component that are numbers keep their top byte
            let mut w = v.clone();
            for j in 1..w.len() { w[j] = sub[at % sub.len()]; at += 1; }
            t.add(ty, &w);
        } else {
            t.add(ty, &v);
        }
    }
    kd.t = t;
    let mut t = kd.t.b(CKA_PRIVATE, true).bytes(CKA_SENSITIVE, &sens).b(CKA_EXTRACTABLE, true).bytes(CKA_LABEL, b"key");
    let mut h: H = 0;
    match origin {
        0 => {
            t.add(CKA_TOKEN, &[1]);
            let rv = create(s, &mut t, &mut h);
            check!(rv == CKR_OK, "create");
        }
        1 => {
            t.add(CKA_TOKEN, &[0]);
            let rv = create(s, &mut t, &mut h);
            check!(rv == CKR_OK, "create");
            let mut c = T::new().b(CKA_TOKEN, true);
            let mut g: H = 0;
            let rv = copy(s, h, &mut c, &mut g);
            check!(rv == CKR_OK, "copy");
            h = g;
        }
        _ => {
            // wrapped and unwrapped into the token
            t.add(CKA_TOKEN, &[0]);
            let rv = create(s, &mut t, &mut h);
            check!(rv == CKR_OK, "create");
            let mut o: H = 0;
            let rv = create(s, &mut ops::aes_key(false, true, 0x21), &mut o);
            check!(rv == CKR_OK, "create wrapping key");
            let mut buf = [0u8; 1024];
            let mut n: CK_ULONG = 1024;
            let mut m = mech(CKM_AES_KEY_WRAP_KWP);
            let rv = call!(C_WrapKey(s, &mut m, o, h, buf.as_mut_ptr(), &mut n));
            check!(rv == CKR_OK, "wrap");
            let cl = if k == keys::AES || k == keys::GENERIC { CKO_SECRET_KEY } else { CKO_PRIVATE_KEY };
            let kt = match k { keys::AES => CKK_AES, keys::GENERIC => CKK_GENERIC_SECRET, keys::RSA => CKK_RSA, keys::EC => CKK_EC, keys::MONT => CKK_EC_MONTGOMERY, _ => CKK_DH };
            let mut u = T::new().ul(CKA_CLASS, cl).ul(CKA_KEY_TYPE, kt).b(CKA_TOKEN, true).b(CKA_PRIVATE, true);
            let rv = call!(C_UnwrapKey(s, &mut m, o, buf.as_mut_ptr(), n, u.p(), u.n(), &mut h));
            check!(rv == CKR_OK, "unwrap");
        }
    }
    let mut l = T::new().bytes(CKA_LABEL, b"other");
    let rv = set_attrs(s, h, &mut l);
    check!(rv == CKR_OK, "set label");
    let mut c = T::new().bytes(CKA_LABEL, b"copy");
    let mut g: H = 0;
    let rv = copy(s, h, &mut c, &mut g);
    check!(rv == CKR_OK, "copy");
    let rv = set_pin(s, pin, pin2);
    check!(rv == CKR_OK, "set pin");
    boxes();
    let mut d = verif::raw_dump(0);
    // unique identifiers are random and may be part of other values
    let n = verif::raw_objects(0);
    for i in 0..n {
        let u = verif::raw_get(0, i, CKA_UNIQUE_ID).unwrap_or_default();
        for (_, b) in d.iter_mut() { blank(b, &u); }
    }
    assert!(finalize() == CKR_OK);
    d
}

/// p0: kind of key, p1: how it gets into the token (0 created, 1 copied, 2 unwrapped)
#[unsafe(no_mangle)]
pub extern "C" fn h_rest() {
    load();
    let k = vf::param(0, 0) as u64;
    let origin = vf::param(1, 0);
    let mut a = [0u8; 48];
    let mut b = [0u8; 48];
    vf::bytes_z(&mut a, z!("secret"));
    vf::bytes_z(&mut b, z!("other secret"));
    let mut p = [[0u8; 8]; 6];
    for x in p.iter_mut() { vf::bytes_z(x, z!("pin")); }
    // equal PINs are not of interest
    let x = life(k, origin, &a, &p[0], &p[1], &p[2]);
    let y = life(k, origin, &b, &p[3], &p[4], &p[5]);
    check!(x.len() == y.len(), "the database has the same entries whatever the secrets are");
    for i in 0..x.len() {
        check!(x[i].0 == y[i].0 && x[i].1.len() == y[i].1.len(), "the database has the same shape whatever the secrets are");
        let mut d = 0u8;
        for j in 0..x[i].1.len() { d |= x[i].1[j] ^ y[i].1[j]; }
        check!(d == 0, "nothing in the database depends on a PIN or a secret but through encryption");
    }
    vf::out(x.len() as u64);
    cover!("done");
    expect!("done");
}

/// p0: 0 AES key, 1 generic key, 2 EC pair, 3 derived key
#[unsafe(no_mangle)]
pub extern "C" fn h_rest_gen() {
    fresh();
    boot("enc0");
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let k = vf::param(0, 0);
    let private = vf::u8_z(z!("private"));
    let mut t = T::new().b(CKA_TOKEN, true).bb(CKA_PRIVATE, private).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let mut h: H = 0;
    match k {
        0 | 1 => {
            t.add(CKA_VALUE_LEN, &24u64.to_ne_bytes());
            let mut m = mech(if k == 0 { CKM_AES_KEY_GEN } else { CKM_GENERIC_SECRET_KEY_GEN });
            let rv = call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut h));
            check!(rv == CKR_OK, "generate");
        }
        2 => {
            let mut pt = T::new().bytes(CKA_EC_PARAMS, keys::P256).b(CKA_TOKEN, true);
            let mut m = mech(CKM_EC_KEY_PAIR_GEN);
            let mut ph: H = 0;
            let rv = call!(C_GenerateKeyPair(s, &mut m, pt.p(), pt.n(), t.p(), t.n(), &mut ph, &mut h));
            check!(rv == CKR_OK, "generate pair");
        }
        _ => {
            let mut g: H = 0;
            let mut b = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).bytes(CKA_VALUE, &keys::pat(24, 9)).b(CKA_PRIVATE, false).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
            let rv = create(s, &mut b, &mut g);
            check!(rv == CKR_OK, "create base");
            t.add(CKA_CLASS, &CKO_SECRET_KEY.to_ne_bytes());
            t.add(CKA_KEY_TYPE, &CKK_GENERIC_SECRET.to_ne_bytes());
            t.add(CKA_VALUE_LEN, &24u64.to_ne_bytes());
            let mut m = mech(CKM_SHA256_KEY_DERIVATION);
            let rv = call!(C_DeriveKey(s, &mut m, g, t.p(), t.n(), &mut h));
            check!(rv == CKR_OK, "derive");
        }
    }
    let mut v = [0u8; 80];
    let (rv, n) = get_attr(s, h, CKA_VALUE, &mut v);
    check!(rv == CKR_OK && n >= 16, "read the value");
    nowhere(&v[..n as usize], z!("the value of a key on the token is not in the database"));
    boxes();
    sealed();
    vf::out(n);
    cover!("done");
    expect!("done");
}

/// p0: kind of key, p1: what is altered: 0 one byte of a secret, positions p2..p3, 1 a secret replaced by
/// the one of another object, 2 shortened or lengthened, 3 one byte of the user's record, positions p2..p3,
/// 4 the user's record replaced by the SO's; p4: which secret component
#[unsafe(no_mangle)]
pub extern "C" fn h_rest_tamper() {
    fresh();
    boot("enc0");
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let k = vf::param(0, 0) as u64;
    let what = vf::param(1, 0);
    let (lo, hi) = (vf::param(2, 0) as usize, vf::param(3, 512) as usize);
    let comp = vf::param(4, 0) as usize;
    let kd = keys::kind(k);
    let (ty, val) = kd.secrets[comp].clone();
    let mut t = kd.t.b(CKA_TOKEN, true).b(CKA_PRIVATE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let mut h: H = 0;
    let rv = create(s, &mut t, &mut h);
    check!(rv == CKR_OK, "create");
    if what == 1 {
        let mut c = T::new().bytes(CKA_LABEL, b"copy");
        let mut g: H = 0;
        let rv = copy(s, h, &mut c, &mut g);
        check!(rv == CKR_OK, "copy");
    }
    assert!(close(s) == CKR_OK);
    let n = verif::raw_objects(0);
    let old = verif::raw_get(0, 0, ty).unwrap_or_default();
    check!(old.len() > val.len(), "the stored form is longer than the value");
    let uid = verif::raw_get(0, 0, CKA_UNIQUE_ID).unwrap_or_default();
    match what {
        0 | 3 => {
            let mut v = if what == 0 { old.clone() } else { verif::raw_user(0, 1).1 };
            if what == 3 { check!(verif::raw_user(0, 1).0 == "USER", "the second record is the user's"); }
            let hi = hi.min(v.len());
            if lo >= hi { vf::out(0); return; }
            let i = lo + vf::choose_z((hi - lo) as u64, z!("position")) as usize;
            let x = vf::u8_z(z!("xor"));
            // the length of the work factor (a huge one only takes longer)
            vf::assume(x != 0 && !(what == 3 && i == 72));
            // lengths of outer elements and of the work factor are cheaper one by one
            let x = if what == 3 && [6, 25, 72, 73].contains(&i) { vf::conc(x as u64) as u8 } else { x };
            v[i] ^= x;
            if what == 0 { verif::raw_set(0, 0, ty, &v) } else { verif::raw_set_user(0, 1, &v) }
        }
        1 => {
            check!(n == 2, "two objects");
            let o = verif::raw_get(0, 1, ty).unwrap_or_default();
            check!(o != old, "equal values of two objects are stored differently");
            verif::raw_set(0, 0, ty, &o);
        }
        2 => {
            let mut v = old.clone();
            if vf::bool_z(z!("longer")) {
                v.push(vf::u8_z(z!("extra")));
            } else {
                let c = vf::choose_z(v.len() as u64, z!("length")) as usize;
                v.truncate(c);
            }
            verif::raw_set(0, 0, ty, &v);
        }
        _ => {
            let o = verif::raw_user(0, 0).1;
            verif::raw_set_user(0, 1, &o);
        }
    }
    restart(0, "enc0");
    let s = open(true);
    let rv = login(s, CKU_USER, if what == 4 { SO_PIN } else { USER_PIN });
    if what < 3 { check!(rv == CKR_OK, "login"); }
    if what == 4 { check!(rv != CKR_OK, "the record of the SO does not log a user in"); }
    if rv == CKR_OK { cover!("login"); }
    let mut l = [0 as H; 4];
    let mut f = T::new().b(CKA_TOKEN, true);
    let (rv, c) = find(s, &mut f, &mut l);
    check!(rv == CKR_OK, "find");
    for i in 0..c {
        let mut b = [0u8; 256];
        let (rv, n) = get_attr(s, l[i], ty, &mut b);
        if rv == CKR_OK {
            let mut same = n as usize == val.len();
            if same { for j in 0..val.len() { same &= b[j] == val[j]; } }
            check!(same, "a stored secret that was altered is never taken for a value");
            if what == 1 {
                let mut u = [0u8; 64];
                let (rv, n) = get_attr(s, l[i], CKA_UNIQUE_ID, &mut u);
                check!(rv == CKR_OK && u[..n as usize] != uid[..], "a stored secret that was moved is refused");
            }
            cover!("read");
        } else {
            cover!("refused");
        }
    }
    vf::out(c as u64);
    if what < 3 { expect!("refused"); }
}
