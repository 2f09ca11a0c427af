//! C20 one-time passwords: RFC 4226 values, every counter used at most once
use crate::keys;
use crate::ossl_stub::*;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

const HASH: [(&[u8], usize, usize); 3] = [(b"SHA1", 20, 64), (b"SHA256", 32, 64), (b"SHA512", 64, 128)];
/// CK_OTP_SIGNATURE_INFO and one CK_OTP_PARAM come before the value
const HDR: usize = 40;

fn mac(h: usize, k: &[u8], c: u64) -> Vec<u8> { ref_hmac(HASH[h].0, HASH[h].2, k, &c.to_be_bytes()) }
/// RFC 4226 5.3
fn truncate(m: &[u8], digits: usize) -> Vec<u8> {
    let o = (m[m.len() - 1] & 15) as usize;
    let mut v = ((m[o] & 0x7f) as u32) << 24 | (m[o + 1] as u32) << 16 | (m[o + 2] as u32) << 8 | m[o + 3] as u32;
    let mut r = vec![0u8; digits];
    for i in (0..digits).rev() {
        r[i] = b'0' + (v % 10) as u8;
        v /= 10;
    }
    r
}
fn otp(h: usize, k: &[u8], c: u64, digits: usize) -> Vec<u8> { truncate(&mac(h, k, c), digits) }
fn counter(s: H, k: H) -> u64 {
    let mut b = [0x5Au8; 9];
    let (rv, l) = get_attr(s, k, CKA_OTP_COUNTER, &mut b[..8]);
    check!(rv == CKR_OK && l == 8, "the counter can be read");
    u64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])
}
fn key(s: H, token: bool, val: &[u8], digits: usize, c: u64, req: CK_ULONG) -> H {
    let mut t = T::new().ul(CKA_CLASS, CKO_OTP_KEY).ul(CKA_KEY_TYPE, CKK_HOTP).b(CKA_TOKEN, token).b(CKA_PRIVATE, false);
    t.add(CKA_VALUE, val);
    t.add(CKA_OTP_COUNTER, &c.to_be_bytes());
    let mut t = t.ul(CKA_OTP_LENGTH, digits as CK_ULONG).ul(CKA_OTP_COUNTER_REQUIREMENT, req).b(CKA_SIGN, true).b(CKA_VERIFY, true);
    let mut k: H = 0;
    let rv = create(s, &mut t, &mut k);
    check!(rv == CKR_OK, "create a HOTP key");
    k
}
/// the value in a CK_OTP_SIGNATURE_INFO
fn value(b: &[u8], digits: usize) -> Option<Vec<u8>> {
    let w = |i: usize| { let mut x = [0u8; 8]; x.copy_from_slice(&b[i..i + 8]); u64::from_ne_bytes(x) };
    let p = b.as_ptr() as u64;
    if w(0) != p + 16 || w(8) != 1 || w(16) != CK_OTP_VALUE as u64 || w(24) != p + HDR as u64 || w(32) != digits as u64 { return None; }
    Some(b[HDR..HDR + digits].to_vec())
}
const START: [u64; 4] = [0, 0xfe, 0xffff_fffe, u64::MAX - 2];

/// one value generated or verified. p0: digest, p1: digits, p2: 1 = by parts
#[unsafe(no_mangle)]
pub extern "C" fn h_otp() {
    boot("plain0");
    let h = vf::param(0, 0) as usize;
    let digits = vf::param(1, 6) as usize;
    let parts = vf::param(2, 0) == 1;
    let s = open(true);
    let rv = login(s, CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { ORACLE = true; }
    let val = keys::pat(HASH[h].1, 0x31);
    let start = START[vf::choose_z(4, z!("counter")) as usize];
    let pk = vf::choose_z(6, z!("counter parameter"));
    let req = [CK_OTP_PARAM_IGNORED, CK_OTP_PARAM_IGNORED, CK_OTP_PARAM_OPTIONAL, CK_OTP_PARAM_OPTIONAL, CK_OTP_PARAM_MANDATORY, CK_OTP_PARAM_MANDATORY][pk as usize];
    let token = vf::bool_z(z!("token"));
    let k = key(s, token, &val, digits, start, req);
    let given = 0x0102_0304_0506_07feu64;
    let mut gb = [0u8; 9];
    gb[..8].copy_from_slice(&given.to_be_bytes());
    let mut fl: CK_ULONG = CKF_USER_FRIENDLY_OTP;
    let gl = if pk == 3 || pk == 4 { [8, 7, 9, 0][vf::choose_z(4, z!("length of the counter")) as usize] } else { 8 };
    let mut pp = [
        CK_OTP_PARAM { type_: CK_OTP_FLAGS, pValue: &mut fl as *mut _ as *mut _, ulValueLen: 8 },
        CK_OTP_PARAM { type_: CK_OTP_COUNTER, pValue: gb.as_mut_ptr() as *mut _, ulValueLen: gl },
    ];
    let mut ps = CK_OTP_PARAMS { pParams: pp.as_mut_ptr(), ulCount: 2 };
    if pk == 4 { ps.pParams = &mut pp[1]; ps.ulCount = 1; }
    let mut m = mech(CKM_HOTP);
    if pk == 1 || pk == 3 || pk == 4 {
        m.pParameter = &mut ps as *mut _ as *mut _;
        m.ulParameterLen = std::mem::size_of_val(&ps) as CK_ULONG;
    }
    let own = !(pk == 3 || pk == 4);
    let base = if own { start } else { given };
    let sign = vf::bool_z(z!("sign"));
    let ahead = if sign { 0 } else { [0u64, 1, 4, 5, u64::MAX][vf::choose_z(5, z!("ahead")) as usize] };
    let cv = base.wrapping_add(ahead);
    // make the bytes chosen by the truncation those wanted
    let mut t = mac(h, &val, cv);
    let n = t.len();
    // every offset, and every value of a byte, where a value is generated under simple circumstances
    let deep = sign && pk == 0 && start == 0 && !token;
    let off = if deep { vf::choose_z(16, z!("offset")) as usize } else { 7 };
    let x = if deep && off == 6 { vf::u8_z(z!("bits")) } else { 0x9c };
    vf::assume(x & 0x78 == 0x18);
    let w: [u8; 4] = [[0, 0, 0, x], [x, 0x12, 0x34, 0x56], [0, 0, x, 0], [0xff, 0xff, x, 0xff], [0x80, x, 0, 0]][off % 5];
    let (mut a, b) = (t.clone(), mac(h, &val, cv));
    a[n - 1] = (a[n - 1] & 0xf0) | off as u8;
    a[off..off + 4].copy_from_slice(&w);
    if off + 4 >= n { a[n - 1] = (a[n - 1] & 0xf0) | off as u8; }
    unsafe {
        // the tag, the outer key and the inner digest
        MASK_LEN = 2 + HASH[h].2 + n;
        for i in 0..n { MASK[i] = a[i] ^ b[i]; }
    }
    t = a;
    let want = truncate(&t, digits);
    // values of other counters go through the same mask
    let rv = if sign { call!(C_SignInit(s, &mut m, k)) } else { call!(C_VerifyInit(s, &mut m, k)) };
    if pk == 5 || gl != 8 {
        check!(rv != CKR_OK, "a missing or malformed counter is refused");
        check!(counter(s, k) == start, "a refused operation leaves the counter alone");
        cover!("parameter");
        return;
    }
    check!(rv == CKR_OK, "init");
    let mut next = start;
    let mut buf = [0x5Au8; HDR + 8 + 1];
    if sign {
        let mut l: CK_ULONG = 0;
        let q = if deep { 0 } else { vf::choose_z(3, z!("query")) };
        if q > 0 {
            if q == 2 { l = (HDR + digits - 1) as CK_ULONG; }
            let p = if q == 2 { buf.as_mut_ptr() } else { std::ptr::null_mut() };
            let rv = if parts { call!(C_SignFinal(s, p, &mut l)) } else { call!(C_Sign(s, gb.as_mut_ptr(), 0, p, &mut l)) };
            check!(if q == 1 { rv == CKR_OK && l as usize == HDR + digits } else { rv == CKR_BUFFER_TOO_SMALL }, "the length of a value");
            check!(buf.iter().all(|x| *x == 0x5A) && counter(s, k) == start, "a query uses up no counter");
        }
        l = buf.len() as CK_ULONG;
        let rv = if parts { call!(C_SignFinal(s, buf.as_mut_ptr(), &mut l)) } else { call!(C_Sign(s, gb.as_mut_ptr(), 0, buf.as_mut_ptr(), &mut l)) };
        check!(rv == CKR_OK && l as usize == HDR + digits, "generate a value");
        check!(buf[HDR + digits..].iter().all(|x| *x == 0x5A), "exactly the value is written");
        match value(&buf, digits) {
            Some(v) => check!(v == want, "the value is that of RFC 4226 for the key and the counter"),
            None => check!(false, "the value is described as PKCS#11 prescribes"),
        }
        if own { next = start + 1; }
        cover!("generated");
    } else {
        let mut c = want.clone();
        let alter = vf::choose_z(3, z!("alter"));
        if alter == 1 {
            let y = vf::u8_z(z!("digit"));
            let i = [0, digits / 2, digits - 1][vf::choose_z(3, z!("position")) as usize];
            vf::assume(y != c[i]);
            c[i] = y;
        }
        if alter == 2 { c.pop(); }
        let rv = if parts { call!(C_VerifyFinal(s, c.as_mut_ptr(), c.len() as CK_ULONG)) } else { call!(C_Verify(s, gb.as_mut_ptr(), 0, c.as_mut_ptr(), c.len() as CK_ULONG)) };
        // the values acceptable are those of the next five counters
        let mut hit = None;
        for i in 0..5 {
            if base > u64::MAX - 1 - i { break; }
            if c.len() == digits && c == otp(h, &val, base + i, digits) && hit.is_none() { hit = Some(base + i); }
        }
        check!((rv == CKR_OK) == hit.is_some(), "exactly the values of the next five counters are accepted");
        if let Some(x) = hit {
            if own { next = x + 1; }
            cover!("accepted");
        } else { cover!("refused"); }
    }
    check!(counter(s, k) == next, "the counter follows the value used, unless it was given");
    let mut m = mech(CKM_HOTP);
    if pk != 4 {
        check!(call!(C_SignInit(s, &mut m, k)) == CKR_OK || next == u64::MAX, "the operation is over");
    }
    if token && (pk == 0 || pk == 3) && start < 255 {
        restart(0, "plain0");
        let s = open(true);
        let mut hs = [0 as H; 2];
        let (rv, n) = find(s, &mut T::new().ul(CKA_CLASS, CKO_OTP_KEY), &mut hs);
        check!(rv == CKR_OK && n == 1, "the key is found again");
        check!(counter(s, hs[0]) == next, "the counter of a token key persists");
        cover!("restart");
    }
    expect!("generated", "accepted", "refused", "restart", "parameter");
}

static mut COUNT: u32 = 0;
static mut FAIL_AT: u32 = 0;
static mut FAIL_ALL: bool = false;
fn fault(_op: u32) -> bool {
    unsafe {
        let n = COUNT;
        COUNT += 1;
        if FAIL_ALL { n >= FAIL_AT } else { n == FAIL_AT }
    }
}

/// two sessions use the same key. p0: 1 = token key, p1: steps, p2: 1 = storage failures during the last step
#[unsafe(no_mangle)]
pub extern "C" fn h_otp_seq() {
    boot("plain0");
    let token = vf::param(0, 0) == 1;
    let steps = vf::param(1, 4);
    let faults = vf::param(2, 0) == 1;
    let sess = [open(true), open(true)];
    let rv = login(sess[0], CKU_USER, USER_PIN);
    check!(rv == CKR_OK, "login");
    unsafe { ORACLE = true; }
    let val = keys::pat(20, 0x31);
    let start = if faults { 7 } else { START[vf::choose_z(4, z!("counter")) as usize] };
    let k = key(sess[0], token, &val, 6, start, CK_OTP_PARAM_IGNORED);
    let mut cnt = start;
    // (sign, counter when the operation was started)
    let mut op: [Option<(bool, u64)>; 2] = [None, None];
    let mut d = [0u8; 1];
    for step in 0..steps {
        let who = vf::choose_z(2, z!("session")) as usize;
        let s = sess[who];
        match op[who] {
            None => {
                let sign = vf::bool_z(z!("sign"));
                let mut m = mech(CKM_HOTP);
                let rv = if sign { call!(C_SignInit(s, &mut m, k)) } else { call!(C_VerifyInit(s, &mut m, k)) };
                check!(rv == CKR_OK, "init");
                op[who] = Some((sign, cnt));
            }
            Some((true, base)) => {
                let f = faults && step == steps - 1;
                if f {
                    unsafe { COUNT = 0; FAIL_AT = vf::choose_z(6, z!("fault")) as u32; FAIL_ALL = vf::bool_z(z!("all")); }
                    *verif::FAULT.get() = Some(fault);
                }
                let mut buf = [0x5Au8; HDR + 6];
                let mut l = buf.len() as CK_ULONG;
                let rv = call!(C_Sign(s, d.as_mut_ptr(), 0, buf.as_mut_ptr(), &mut l));
                *verif::FAULT.get() = None;
                op[who] = None;
                if rv == CKR_OK {
                    check!(base == cnt, "no value is generated for a counter used before");
                    check!(value(&buf, 6) == Some(otp(0, &val, base, 6)), "the value is that of the counter");
                    cnt = base + 1;
                    cover!("generated");
                } else {
                    check!(base != cnt || base == u64::MAX || f, "a value is generated for an unused counter");
                    check!(buf[HDR..] != otp(0, &val, base, 6)[..], "a failed operation releases no value");
                    cover!("not generated");
                }
            }
            Some((false, base)) => {
                let f = faults && step == steps - 1;
                if f {
                    unsafe { COUNT = 0; FAIL_AT = vf::choose_z(6, z!("fault")) as u32; FAIL_ALL = vf::bool_z(z!("all")); }
                    *verif::FAULT.get() = Some(fault);
                }
                // the value of one of the counters from the start on
                let v = start.wrapping_add([0u64, 1, 2, 4, 5, 8][vf::choose_z(6, z!("value")) as usize]);
                let mut c = otp(0, &val, v, 6);
                let rv = call!(C_Verify(s, d.as_mut_ptr(), 0, c.as_mut_ptr(), 6));
                *verif::FAULT.get() = None;
                op[who] = None;
                let fits = v >= base && v - base < 5 && v != u64::MAX;
                if rv == CKR_OK {
                    check!(fits && v >= cnt, "no value is accepted whose counter was used before");
                    cnt = v + 1;
                    cover!("accepted");
                } else {
                    check!(!fits || base != cnt || f, "the value of one of the next counters is accepted");
                    cover!("not accepted");
                }
            }
        }
        let now = counter(sess[0], k);
        check!(now == cnt, "the counter of the key follows the last one used");
    }
    if !faults { expect!("generated", "not generated", "accepted", "not accepted"); }
}
