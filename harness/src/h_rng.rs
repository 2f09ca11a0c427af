//! C29 random values
use crate::h_store::{equal, snap};
use crate::ops::*;
use crate::ossl_stub as st;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

fn log_len() -> usize { unsafe { (*std::ptr::addr_of!(st::RNG_LOG)).len() } }
fn log_tail(n: usize) -> &'static [u8] { unsafe { let v: &'static Vec<u8> = &*std::ptr::addr_of!(st::RNG_LOG); &v[v.len() - n..] } }
fn diff(a: &[u8], b: &[u8]) -> u8 { let mut d = 0; for i in 0..a.len() { d |= a[i] ^ b[i]; } d }
fn count(s: H, class: CK_ULONG) -> usize {
    let mut l = [0 as H; 16];
    let (rv, n) = find(s, &mut T::new().ul(CKA_CLASS, class), &mut l);
    check!(rv == CKR_OK && n < 16, "find");
    n
}

fn class_of(kind: i64) -> CK_ULONG { if kind == 3 { CKO_OTP_KEY } else { CKO_SECRET_KEY } }
fn gen_key(s: H, kind: i64, n: usize, token: bool, h: &mut H) -> CK_RV {
    let (m, kt) = match kind {
        1 => (CKM_AES_KEY_GEN, CKK_AES),
        2 => (CKM_GENERIC_SECRET_KEY_GEN, CKK_GENERIC_SECRET),
        _ => (CKM_HOTP_KEY_GEN, CKK_HOTP),
    };
    let mut t = T::new().ul(CKA_CLASS, class_of(kind)).ul(CKA_KEY_TYPE, kt).ul(CKA_VALUE_LEN, n as CK_ULONG).b(CKA_TOKEN, token).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    if kind == 3 { t = t.ul(CKA_OTP_LENGTH, 6); }
    let mut mm = mech(m);
    call!(C_GenerateKey(s, &mut mm, t.p(), t.n(), h))
}

/// p0: 0 C_GenerateRandom, 1.. key generation (AES, generic, HOTP), 4 C_SeedRandom; p1: steps
#[unsafe(no_mangle)]
pub extern "C" fn h_rng() {
    unsafe { st::ORACLE = true; st::SEAL = true; }
    let kind = vf::param(0, 0);
    boot("plain0");
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { st::RNG_WATCH = true; st::RNG_SYM = true; }
    for i in 0..vf::param(1, 2) {
        let fail = vf::bool_z(z!("fail"));
        unsafe { st::RNG_FAIL = fail; }
        let l0 = log_len();
        match kind {
            0 => {
                let n = [0usize, 1, 2, 15, 16, 33][vf::choose_z(6, z!("length")) as usize];
                let hs = vf::choose_z(3, z!("session"));
                let mut b = [0xA5u8; 40];
                let rv = call!(C_GenerateRandom(match hs { 0 => s, 1 => 0, _ => s + 77 }, b[3..].as_mut_ptr(), n as CK_ULONG));
                if hs != 0 {
                    check!(rv == CKR_SESSION_HANDLE_INVALID, "random data need a session");
                    check!(log_len() == l0, "nothing is drawn");
                } else if fail {
                    check!(rv != CKR_OK, "a failure of the generator is reported");
                } else {
                    check!(rv == CKR_OK, "random data");
                    check!(log_len() == l0 + n, "as many bytes as asked for are drawn");
                    check!(diff(&b[3..3 + n], log_tail(n)) == 0, "random data are what the generator gave");
                    cover!("drawn");
                }
                check!(b[..3] == [0xA5; 3] && b[3 + n..].iter().all(|x| *x == 0xA5), "no byte beyond the buffer");
                if rv != CKR_OK { check!(b.iter().all(|x| *x == 0xA5), "nothing is given out"); }
            }
            4 => {
                let n = [1usize, 2, 33][vf::choose_z(3, z!("length")) as usize];
                let mut b = [0u8; 33];
                vf::bytes_z(&mut b, z!("seed"));
                let rv = call!(C_SeedRandom(s, b.as_mut_ptr(), n as CK_ULONG));
                check!(rv == CKR_OK, "seed");
                let all: &'static Vec<u8> = unsafe { &*std::ptr::addr_of!(st::RNG_SEED) };
                check!(all.len() >= n && diff(&b[..n], &all[all.len() - n..]) == 0, "the generator gets the whole seed");
                cover!("drawn");
            }
            _ => {
                let n = match kind { 1 => [16usize, 24, 32][vf::choose_z(3, z!("length")) as usize], 3 => [20usize, 32, 64][vf::choose_z(3, z!("length")) as usize], _ => [1usize, 2, 20, 33][vf::choose_z(4, z!("length")) as usize] };
                let c0 = count(s, class_of(kind));
                let mut h: H = 0;
                let rv = gen_key(s, kind, n, vf::bool_z(z!("token")), &mut h);
                if fail {
                    check!(rv != CKR_OK, "a failure of the generator is reported");
                    check!(count(s, class_of(kind)) == c0, "no key without random data");
                    continue;
                }

                check!(rv == CKR_OK, "generate");
                check!(log_len() == l0 + n, "as many bytes as the key has are drawn");
                let mut v = [0u8; 64];
                let (rv, l) = get_attr(s, h, CKA_VALUE, &mut v);
                check!(rv == CKR_OK && l == n as CK_ULONG, "the value can be read");
                check!(diff(&v[..n], log_tail(n)) == 0, "a generated key is what the generator gave");
                check!(count(s, class_of(kind)) == c0 + 1, "one key");
                cover!("drawn");
            }
        }
        let _ = i;
    }
    expect!("drawn");
}

/// the salt drawn last is the one stored for this user
fn salted(user: &str) {
    let salt: &'static Vec<u8> = unsafe { &*std::ptr::addr_of!(st::RNG_SALT) };
    let d = (0..2).map(|i| verif::raw_user(0, i)).find(|u| u.0 == user).map(|u| u.1).unwrap_or_default();
    let at = d.windows(2).position(|w| w == [0x04, 0x20]).unwrap_or(usize::MAX - 64);
    check!(d.len() >= at + 34 && salt.len() == 32, "there is a salt");
    check!(diff(salt, &d[at + 2..at + 34]) == 0, "the salt is what the generator gave");
}
fn secret(token: bool, fill: u8) -> T { aes_key(token, true, fill) }

/// every initialization vector and salt the storage uses is drawn for it
/// p0: 1 = database without encryption, p1: steps
#[unsafe(no_mangle)]
pub extern "C" fn h_rng_store() {
    unsafe { st::ORACLE = true; st::SEAL = true; st::RNG_WATCH = true; }
    let cf = db(vf::param(0, 0));
    boot(cf);
    unsafe {
        check!(st::RNG_SALTS >= 3, "the PINs of the SO and of the user have been sealed");
        salted("USER");
        // the master key came first (or, without encryption, nothing)
        if vf::param(0, 0) == 0 {
            let all: &'static Vec<st::Sealed> = &*std::ptr::addr_of!(st::SEALS);
            let log: &'static Vec<u8> = &*std::ptr::addr_of!(st::RNG_LOG);
            for x in all.iter() { check!(x.pt.len() == 32 && diff(&x.pt, &log[..32]) == 0, "the master key is what the generator gave"); }
        }
        st::RNG_SYM = true;
    }
    let mut s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut k: Vec<H> = Vec::new();
    let mut h: H = 0;
    let rv = create(s, &mut secret(true, 1), &mut h);
    check!(rv == CKR_OK, "create");
    k.push(h);
    for i in 0..vf::param(1, 2) {
        let a0 = unsafe { st::RNG_SEALS };
        let u0 = unsafe { st::RNG_USED };
        let enc = (vf::param(0, 0) == 0) as u64;
        let n = match vf::choose_z(6, z!("step")) {
            0 => { let rv = create(s, &mut secret(true, i as u8 + 2), &mut h); check!(rv == CKR_OK, "create"); k.push(h); enc }
            1 => { let rv = copy(s, k[0], &mut T::new().bytes(CKA_ID, b"c"), &mut h); check!(rv == CKR_OK, "copy"); enc }
            2 => { let rv = gen_key(s, 1, 16, true, &mut h); check!(rv == CKR_OK, "generate"); enc }
            3 => { let rv = set_pin(s, USER_PIN, USER_PIN); check!(rv == CKR_OK, "PIN"); salted("USER"); 1 }
            4 => { let rv = set_attrs(s, k[0], &mut T::new().bytes(CKA_ID, &[i as u8])); check!(rv == CKR_OK, "modify"); 0 }
            _ => {
                // the SO sets the PIN again after a restart
                restart(0, cf);
                s = open(true);
                let rv = login(s, CKU_SO, SO_PIN);
                check!(rv == CKR_OK, "login");
                let rv = init_pin(s, USER_PIN);
                check!(rv == CKR_OK, "init PIN");
                salted("USER");
                let rv = logout(s);
                check!(rv == CKR_OK, "logout");
                let rv = login(s, CKU_USER, USER_PIN);
                check!(rv == CKR_OK, "login");
                let mut l = [0 as H; 16];
                let (rv, n) = find(s, &mut T::new().ul(CKA_CLASS, CKO_SECRET_KEY), &mut l);
                check!(rv == CKR_OK && n >= 1, "find");
                k = l[..n].to_vec();
                1
            }
        };
        unsafe { check!(st::RNG_SEALS >= a0 + n && (n == 0 || st::RNG_USED > u0), "what is stored is sealed"); }
        cover!("step");
    }
    expect!("step");
}

/// the generator fails once: p0: 1 = database without encryption
#[unsafe(no_mangle)]
pub extern "C" fn h_rng_fail() {
    unsafe { st::ORACLE = true; st::SEAL = true; }
    let cf = db(vf::param(0, 0));
    boot(cf);
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    let mut k: H = 0;
    let rv = create(s, &mut secret(true, 1), &mut k);
    check!(rv == CKR_OK, "create");
    let v0 = snap(s);
    let c0 = count(s, CKO_SECRET_KEY);
    let pin2: &[u8] = b"ABCDEFGH";
    let at = vf::choose_z(4, z!("call")) + 1;
    unsafe { st::RNG_CALLS = 0; st::RNG_FAIL_AT = at; }
    let what = vf::choose_z(6, z!("step"));
    let mut h: H = 0;
    let mut m = [0u8; 12];
    let mut tag = [0u8; 16];
    let mut ct = [0u8; 4];
    let rv = match what {
        0 => create(s, &mut secret(true, 2), &mut h),
        1 => copy(s, k, &mut T::new().bytes(CKA_ID, b"c"), &mut h),
        2 => gen_key(s, 1, 16, true, &mut h),
        3 => set_pin(s, USER_PIN, pin2),
        4 => {
            let mut p = CK_GCM_MESSAGE_PARAMS { pIv: m.as_mut_ptr(), ulIvLen: 12, ulIvFixedBits: 32, ivGenerator: CKG_GENERATE_RANDOM, pTag: tag.as_mut_ptr(), ulTagBits: 128 };
            let mut mm = mech(CKM_AES_GCM);
            let rv = call!(C_MessageEncryptInit(s, &mut mm, k));
            check!(rv == CKR_OK, "init");
            let mut n: CK_ULONG = 4;
            let rv = call!(C_EncryptMessage(s, &mut p as *mut _ as *mut _, std::mem::size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG, std::ptr::null_mut(), 0, [1u8, 2, 3, 4].as_mut_ptr(), 4, ct.as_mut_ptr(), &mut n));
            if rv != CKR_OK { check!(ct == [0; 4] && tag == [0; 16], "nothing is given out"); }
            rv
        }
        _ => {
            let rv = logout(s);
            check!(rv == CKR_OK, "logout");
            let rv = login(s, CKU_SO, SO_PIN);
            check!(rv == CKR_OK, "login");
            let rv = init_pin(s, pin2);
            let r2 = logout(s);
            check!(r2 == CKR_OK, "logout");
            rv
        }
    };
    let calls = unsafe { st::RNG_CALLS };
    unsafe { st::RNG_FAIL_AT = 0; }
    let failed = calls >= at;
    if failed { check!(rv != CKR_OK, "a failure of the generator is reported"); cover!("failed"); } else { check!(rv == CKR_OK, "without a failure it works"); cover!("worked"); }
    let pin = if !failed && (what == 3 || what == 5) { pin2 } else { USER_PIN };
    if what == 3 { let rv = logout(s); check!(rv == CKR_OK, "logout"); }
    if what == 3 || what == 5 {
        let rv = login(s, CKU_USER, pin);
        check!(rv == CKR_OK, "the PIN is the old one exactly if the change failed");
    }
    if failed || what >= 3 {
        check!(count(s, CKO_SECRET_KEY) == c0, "no object without random data");
        let v1 = snap(s);
        equal(&v0, &v1, false, z!("and the others stay"));
    } else {
        check!(count(s, CKO_SECRET_KEY) == c0 + 1, "one object more");
    }
    expect!("failed", "worked");
}
