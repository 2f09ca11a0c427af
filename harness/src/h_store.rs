//! C09 token objects survive a restart unchanged, C11 storage failures
#![allow(static_mut_refs)]
use crate::keys;
use crate::ops;
use crate::p11::*;
use crate::*;
use kryoptic_lib::verif;

const LABEL: &[u8; 32] = b"label                           ";
const BUF: usize = 520;
const ATTRS: [CK_ATTRIBUTE_TYPE; 66] = [
    CKA_UNIQUE_ID, CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_APPLICATION, CKA_VALUE, CKA_OBJECT_ID, CKA_CERTIFICATE_TYPE, CKA_ISSUER, CKA_SERIAL_NUMBER,
    CKA_TRUSTED, CKA_CERTIFICATE_CATEGORY, CKA_URL, CKA_CHECK_VALUE, CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID, CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP,
    CKA_SIGN, CKA_SIGN_RECOVER, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_START_DATE, CKA_END_DATE, CKA_MODULUS, CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT,
    CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1, CKA_EXPONENT_2, CKA_COEFFICIENT, CKA_PUBLIC_KEY_INFO, CKA_PRIME, CKA_SUBPRIME, CKA_BASE,
    CKA_VALUE_BITS, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL, CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_KEY_GEN_MECHANISM, CKA_MODIFIABLE, CKA_COPYABLE,
    CKA_DESTROYABLE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED, CKA_OTP_FORMAT, CKA_OTP_LENGTH, CKA_OTP_COUNTER,
    CKA_OTP_USER_FRIENDLY_MODE, CKA_OTP_SERVICE_IDENTIFIER, CKA_WRAP_TEMPLATE, CKA_ALLOWED_MECHANISMS, CKA_ENCAPSULATE, CKA_DECAPSULATE,
];

/// everything a client can read of one object
pub struct Obj { pub h: H, pub a: Vec<(CK_ULONG, Vec<u8>)> }
pub fn read_obj(s: H, h: H) -> Obj {
    let mut bufs = vec![[0u8; BUF]; ATTRS.len()];
    let mut t: Vec<CK_ATTRIBUTE> = Vec::with_capacity(ATTRS.len());
    for (i, b) in bufs.iter_mut().enumerate() {
        t.push(CK_ATTRIBUTE { type_: ATTRS[i], pValue: b.as_mut_ptr() as *mut _, ulValueLen: BUF as CK_ULONG });
    }
    let rv = call!(C_GetAttributeValue(s, h, t.as_mut_ptr(), t.len() as CK_ULONG));
    check!(rv == CKR_OK || rv == CKR_ATTRIBUTE_TYPE_INVALID || rv == CKR_ATTRIBUTE_SENSITIVE, "an object can be read");
    let mut a = Vec::new();
    for (i, b) in bufs.iter().enumerate() {
        let n = t[i].ulValueLen;
        let v = if n == CK_UNAVAILABLE_INFORMATION { Vec::new() } else { b[..vf::conc(n) as usize].to_vec() };
        a.push((n, v));
    }
    Obj { h, a }
}
pub fn same(x: &Obj, y: &Obj) -> bool {
    let mut d = false;
    for i in 0..x.a.len() {
        if x.a[i].0 != y.a[i].0 { return false; }
        for j in 0..x.a[i].1.len() { d |= x.a[i].1[j] != y.a[i].1[j]; }
    }
    !d
}
/// all token objects (class filter: the built-in mechanism objects are left out)
pub fn snap(s: H) -> Vec<Obj> {
    let mut l = [0 as H; 16];
    let mut t = T::new().b(CKA_TOKEN, true);
    let (rv, n) = find(s, &mut t, &mut l);
    check!(rv == CKR_OK, "find");
    l[..n].iter().map(|h| read_obj(s, *h)).collect()
}
/// is any private object visible?
fn hidden(s: H) -> bool {
    let mut l = [0 as H; 16];
    let mut t = T::new().b(CKA_TOKEN, true);
    let (rv, n) = find(s, &mut t, &mut l);
    check!(rv == CKR_OK, "find");
    l[..n].iter().any(|h| get_bool(s, *h, CKA_PRIVATE) != Some(false))
}
fn by_uid<'a>(v: &'a [Obj], u: &[u8]) -> Option<&'a Obj> { v.iter().find(|o| o.a[0].1 == u) }
/// same objects with the same contents; handles too if asked for
pub fn equal(x: &[Obj], y: &[Obj], handles: bool, m: &'static str) {
    vf::assert_z(x.len() == y.len(), m);
    for o in x {
        match by_uid(y, &o.a[0].1) {
            Some(p) => vf::assert_z(same(o, p) && (!handles || p.h == o.h), m),
            None => vf::assert_z(false, m),
        }
    }
}

fn secret_t(k: u64) -> (T, bool) {
    let kd = keys::kind(k);
    let secret = k < keys::DATA;
    let mut t = kd.t.b(CKA_TOKEN, true).bytes(CKA_LABEL, b"ab");
    if secret { t = t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true); }
    (t, secret)
}

/// p0: kind of object, p1: 1 = database without encryption, p2: steps
#[unsafe(no_mangle)]
pub extern "C" fn h_persist() {
    let k = vf::param(0, 0) as u64;
    let args = db(vf::param(1, 0));
    boot(args);
    let mut s = open(true);
    let mut pin: Vec<u8> = USER_PIN.to_vec();
    assert!(login(s, CKU_USER, &pin) == CKR_OK);
    let (t, _) = secret_t(k);
    let mut label = [b'a', b'b'];
    let private = vf::u8_z(z!("private"));
    let mut t = t.bb(CKA_PRIVATE, private);
    let mut h: H = 0;
    let rv = create(s, &mut t, &mut h);
    check!(rv == CKR_OK, "create");
    let mut t = T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, true).b(CKA_PRIVATE, false).bytes(CKA_LABEL, b"control").bytes(CKA_VALUE, &keys::pat(5, 1));
    let mut ctl: H = 0;
    let rv = create(s, &mut t, &mut ctl);
    check!(rv == CKR_OK, "create control object");
    let mut live = true;
    let mut copies: Vec<H> = Vec::new();
    let mut sess: H = 0;
    let rv = create(s, &mut T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, false).bytes(CKA_LABEL, b"session"), &mut sess);
    check!(rv == CKR_OK, "create session object");
    for _ in 0..vf::param(2, 2) {
        match vf::choose_z(7, z!("op")) {
            0 => {
                let l = [vf::u8_z(z!("label")), b'!'];
                vf::assume(l[0] < 0x80);
                let rv = set_attrs(s, h, &mut T::new().bytes(CKA_LABEL, &l));
                check!((rv == CKR_OK) == live, "a label can be changed while the object is there");
                if live { label = l; }
            }
            1 => {
                // a fresh attribute and a changed one
                let id = [vf::u8_z(z!("id")); 3];
                let at = match k { keys::DATA => CKA_OBJECT_ID, _ => CKA_ID };
                let rv = set_attrs(s, h, &mut T::new().bytes(at, &id));
                if rv == CKR_OK {
                    let mut b = [0u8; 3];
                    let (rv, n) = get_attr(s, h, at, &mut b);
                    check!(rv == CKR_OK && n == 3 && b == id, "the new value is there");
                    cover!("id");
                }
            }
            2 => {
                let mut c: H = 0;
                let rv = copy(s, h, &mut T::new().bytes(CKA_LABEL, b"copy"), &mut c);
                check!((rv == CKR_OK) == live, "an object can be copied while it is there");
                if rv == CKR_OK { copies.push(c); }
            }
            3 => {
                let rv = destroy(s, h);
                check!((rv == CKR_OK) == live, "an object can be destroyed once");
                live = false;
            }
            4 => {
                let p = [vf::u8_z(z!("pin")), b'1', b'2', b'3', b'4', b'5', b'6', b'7'];
                let rv = set_pin(s, &pin, &p);
                check!(rv == CKR_OK, "the PIN can be changed");
                pin = p.to_vec();
            }
            5 => {
                // refused changes
                let rv = set_attrs(s, h, &mut T::new().bytes(CKA_LABEL, b"no").ul(CKA_CLASS, 77));
                check!(rv != CKR_OK, "the class cannot be changed");
                let rv = copy(s, h, &mut T::new().ul(CKA_CLASS, 77), &mut sess);
                check!(rv != CKR_OK, "a copy cannot change the class");
            }
            _ => {
                assert!(close(s) == CKR_OK);
                s = open(true);
                let rv = login(s, CKU_USER, &pin);
                check!(rv == CKR_OK, "login again");
            }
        }
    }
    let before = snap(s);
    check!(before.len() == live as usize + 1 + copies.len(), "exactly the objects made are there");
    if live {
        let o = before.iter().find(|o| o.h == h);
        check!(o.is_some_and(|o| o.a[4].1 == label), "the object has its label");
    }
    let i0 = token_info().1;
    restart(0, args);
    let s = open(true);
    // nothing private without login
    check!(!hidden(s), "only public objects are visible before the login");
    let rv = login(s, CKU_USER, &pin);
    check!(rv == CKR_OK, "login after the restart");
    let after = snap(s);
    equal(&before, &after, false, z!("after a restart the token objects are the same"));
    let mut l = [0 as H; 4];
    let (rv, n) = find(s, &mut T::new().bytes(CKA_LABEL, b"session"), &mut l);
    check!(rv == CKR_OK && n == 0, "session objects are gone after a restart");
    let i1 = token_info().1;
    check!(i0.label == i1.label && i1.label == *LABEL && i0.serialNumber == i1.serialNumber && i0.model == i1.model && i0.manufacturerID == i1.manufacturerID, "the token keeps its identity");
    check!(i0.flags == i1.flags, "the token keeps its flags");
    vf::out(after.len() as u64);
    cover!("done");
    expect!("done");
}

// ---------------------------------------------------------------- failures
static mut COUNT: u64 = 0;
static mut FAIL_AT: u64 = u64::MAX;
static mut FAIL_ALL: bool = false;
static mut HIT: bool = false;
fn fault(_op: u32) -> bool {
    unsafe {
        let n = COUNT;
        COUNT += 1;
        let f = if FAIL_ALL { n >= FAIL_AT } else { n == FAIL_AT };
        HIT |= f;
        f
    }
}
/// failing SQL statements: in a long row of changes only some are tried
static mut RUN: u64 = 0;
fn sql_fault(kind: u32) -> bool {
    unsafe {
        if kind == 4 { return false; }
        if kind != 1 { RUN = 0; } else { RUN += 1; }
        if kind == 1 && ![1, 2, 6, 15].contains(&RUN) {
            if FAIL_ALL && COUNT > FAIL_AT { HIT = true; return true; }
            return false;
        }
        fault(kind)
    }
}
fn faults(on: bool) {
    *verif::FAULT.get() = if on { Some(fault) } else { None };
    unsafe { crate::sql_stub::SQL_FAULT = if on { Some(sql_fault) } else { None }; }
}
const PIN2: &[u8] = b"zyxwvuts";
fn state(s: H) -> CK_ULONG { session_info(s).1.state }

/// p0: call made while the storage fails once (or from some point on), p1: kind of the existing object, p2: 1 = database without encryption
#[unsafe(no_mangle)]
pub extern "C" fn h_fault() {
    let what = vf::param(0, 0);
    let k = vf::param(1, 0) as u64;
    let args = db(vf::param(2, 0));
    boot(args);
    let s = open(true);
    let other = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let (t, _) = secret_t(k);
    let mut t = t.b(CKA_PRIVATE, true);
    let mut h: H = 0;
    let rv = create(s, &mut t, &mut h);
    check!(rv == CKR_OK, "create");
    let mut g: H = 0;
    let mut gt = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).bytes(CKA_VALUE, &keys::pat(24, 9)).b(CKA_PRIVATE, false).b(CKA_TOKEN, true).b(CKA_DERIVE, true).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true);
    let rv = create(s, &mut gt, &mut g);
    check!(rv == CKR_OK, "create base key");
    let mut aes: H = 0;
    let rv = create(s, &mut ops::aes_key(true, true, 0x11), &mut aes);
    check!(rv == CKR_OK, "create AES key");
    let mut wrapped = [0u8; 64];
    let mut wn: CK_ULONG = 64;
    let mut kw = mech(CKM_AES_KEY_WRAP);
    let rv = call!(C_WrapKey(s, &mut kw, aes, g, wrapped.as_mut_ptr(), &mut wn));
    check!(rv == CKR_OK, "wrap");
    let before = snap(s);
    let info0 = token_info().1;
    // who is logged in when the call is made
    let who = match what {
        6 => 0,
        8 => 2,
        _ => 1,
    };
    if who != 1 { assert!(logout(s) == CKR_OK); }
    if who == 2 { assert!(login(s, CKU_SO, SO_PIN) == CKR_OK); }
    let mut tok = T::new().b(CKA_TOKEN, true).bytes(CKA_LABEL, b"new").b(CKA_PRIVATE, vf::bool_z(z!("private")));
    let mut nh: H = 0;
    let mut nh2: H = 0;
    unsafe {
        COUNT = 0;
        FAIL_AT = vf::choose_z(vf::param(3, 8) as u64, z!("point"));
        // a public key cannot be taken back when the storage stays broken
        FAIL_ALL = what != 5 && vf::bool_z(z!("all"));
        HIT = false;
    }
    faults(true);
    let mut made = 0;
    let mut found = 0;
    let mut val = [0u8; BUF];
    let rv = match what {
        0 => { made = 1; tok.add(CKA_CLASS, &CKO_DATA.to_ne_bytes()); create(s, &mut tok, &mut nh) }
        1 => { made = 1; copy(s, h, &mut tok, &mut nh) }
        2 => set_attrs(s, h, &mut T::new().bytes(CKA_LABEL, b"changed").bytes(if k == keys::DATA { CKA_APPLICATION } else { CKA_ID }, b"id")),
        3 => destroy(s, h),
        4 => {
            made = 1;
            tok.add(CKA_VALUE_LEN, &24u64.to_ne_bytes());
            let mut m = mech(CKM_AES_KEY_GEN);
            call!(C_GenerateKey(s, &mut m, tok.p(), tok.n(), &mut nh))
        }
        5 => {
            made = 2;
            let mut pt = T::new().bytes(CKA_EC_PARAMS, keys::P256).b(CKA_TOKEN, true).bytes(CKA_LABEL, b"new");
            let mut m = mech(CKM_EC_KEY_PAIR_GEN);
            call!(C_GenerateKeyPair(s, &mut m, pt.p(), pt.n(), tok.p(), tok.n(), &mut nh, &mut nh2))
        }
        6 => login(s, CKU_USER, USER_PIN),
        7 => logout(s),
        8 => init_pin(s, PIN2),
        9 => set_pin(s, USER_PIN, PIN2),
        10 => {
            let mut l = [0 as H; 16];
            let r = find(s, &mut T::new().b(CKA_TOKEN, true), &mut l);
            found = r.1;
            r.0
        }
        11 => { let (rv, n) = get_attr(s, g, CKA_VALUE, &mut val); found = n as usize; rv }
        12 => {
            made = 1;
            tok.add(CKA_CLASS, &CKO_SECRET_KEY.to_ne_bytes());
            tok.add(CKA_KEY_TYPE, &CKK_GENERIC_SECRET.to_ne_bytes());
            call!(C_UnwrapKey(s, &mut kw, aes, wrapped.as_mut_ptr(), wn, tok.p(), tok.n(), &mut nh))
        }
        13 => {
            made = 1;
            tok.add(CKA_CLASS, &CKO_SECRET_KEY.to_ne_bytes());
            tok.add(CKA_KEY_TYPE, &CKK_GENERIC_SECRET.to_ne_bytes());
            let mut m = mech(CKM_SHA256_KEY_DERIVATION);
            call!(C_DeriveKey(s, &mut m, g, tok.p(), tok.n(), &mut nh))
        }
        14 => { let mut m = mech(CKM_AES_ECB); call!(C_EncryptInit(s, &mut m, aes)) }
        15 => { let rv = close(s); if rv == CKR_OK { close(other) } else { rv } }
        16 => { let mut d = [0u8; 64]; let mut n = 64; call!(C_WrapKey(s, &mut kw, aes, g, d.as_mut_ptr(), &mut n)) }
        _ => { let mut n: CK_ULONG = 0; call!(C_GetObjectSize(s, g, &mut n)) }
    };
    faults(false);
    let hit = unsafe { HIT };
    vf::out(rv);
    if !hit {
        check!(rv == CKR_OK, "without a failure the call succeeds");
        cover!("no failure");
    } else if rv == CKR_OK {
        cover!("success despite the failure");
    } else {
        cover!("failure reported");
    }
    let ok = rv == CKR_OK;
    // the session is still there and its state is the truth
    let mut t = s;
    if what == 15 && ok { t = open(true); }
    let mut pin = USER_PIN;
    let st = state(t);
    let user = match what {
        6 => { check!((st == CKS_RW_USER_FUNCTIONS) == ok, "a failed login does not log in"); ok }
        7 => {
            if ok { check!(st == CKS_RW_PUBLIC_SESSION, "logged out"); }
            st == CKS_RW_USER_FUNCTIONS
        }
        8 => { check!(st == CKS_RW_SO_FUNCTIONS, "the SO stays logged in"); false }
        15 => { if ok { check!(st == CKS_RW_PUBLIC_SESSION, "closing the last session logs out"); } st == CKS_RW_USER_FUNCTIONS }
        _ => { check!(st == CKS_RW_USER_FUNCTIONS, "the user stays logged in"); true }
    };
    check!(st != CKS_RW_USER_FUNCTIONS || user, "the session state is the truth");
    if (what == 8 || what == 9) && ok { pin = PIN2; }
    if what == 10 && ok { check!(found == before.len(), "a search that succeeds finds everything"); }
    if what == 11 && ok { check!(found == 24 && val[..24] == keys::pat(24, 9)[..], "a value that is read is the right one"); }
    // private objects are there for a user only
    if what != 8 {
        let p = hidden(t);
        check!(p == user || what == 3, "private objects are visible exactly while the user is logged in");
    } else {
        assert!(logout(t) == CKR_OK);
    }
    if !user {
        let r = login(t, CKU_USER, pin);
        check!(r == CKR_OK, "the user can log in afterwards");
    }
    for round in 0..2 {
        let mut t = t;
        if round == 1 {
            restart(0, args);
            t = open(true);
            if what == 8 || what == 9 {
                let r = login(t, CKU_USER, if ok { USER_PIN } else { PIN2 });
                check!(r == CKR_PIN_INCORRECT, "the other PIN is wrong");
            }
            let r = login(t, CKU_USER, pin);
            check!(r == CKR_OK, "login after the restart");
            let f = token_info().1.flags;
            check!(f == info0.flags, "the token flags are unchanged");
        }
        let now = snap(t);
        if !ok || made == 0 && what != 2 && what != 3 {
            equal(&before, &now, round == 0 && what != 15, z!("a failed call leaves the token objects as they were"));
        } else {
            let gone = (what == 3) as usize;
            check!(now.len() + gone == before.len() + made, "a successful call makes its objects");
            for o in &before {
                let n = by_uid(&now, &o.a[0].1);
                if o.h == h && what == 3 { check!(n.is_none(), "a destroyed object is gone"); continue; }
                match n {
                    None => check!(false, "the other objects stay"),
                    Some(n) => if o.h == h && what == 2 { check!(n.a[4].1 == b"changed", "the change is there"); } else { check!(same(o, n), "the other objects stay as they were"); },
                }
            }
            if made > 0 {
                check!(now.iter().filter(|o| o.a[4].1 == b"new").count() == made, "the new objects are complete");
            }
        }
    }
    expect!("no failure");
    if what != 15 { expect!("failure reported"); }
}

/// token (re)initialisation while the storage fails. p0: 0 first initialisation, 1 again
#[unsafe(no_mangle)]
pub extern "C" fn h_fault_init() {
    let again = vf::param(0, 0) == 1;
    let args = db(vf::param(2, 0));
    let mut before = Vec::new();
    if again {
        boot(args);
        let s = open(true);
        assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
        let mut h: H = 0;
        let rv = create(s, &mut ops::aes_key(true, true, 0x11), &mut h);
        check!(rv == CKR_OK, "create");
        before = snap(s);
        assert!(close(s) == CKR_OK);
    } else {
        load();
        cfg(SLOT as u32, args);
        assert!(initialize() == CKR_OK);
    }
    unsafe {
        COUNT = 0;
        FAIL_AT = vf::choose_z(vf::param(3, 12) as u64, z!("point"));
        FAIL_ALL = vf::bool_z(z!("all"));
        HIT = false;
    }
    faults(true);
    let rv = init_token(SO_PIN, b"another                         ");
    faults(false);
    vf::out(rv);
    let hit = unsafe { HIT };
    if !hit { check!(rv == CKR_OK, "without a failure the call succeeds"); cover!("no failure"); }
    if rv != CKR_OK { cover!("failure reported"); }
    // the objects survive all together or not at all
    if again {
        let mut s: H = 0;
        let r = open_rv(SLOT, true, &mut s);
        if r == CKR_OK {
            if login(s, CKU_USER, USER_PIN) == CKR_OK {
                check!(rv != CKR_OK, "a reinitialised token does not know the old user PIN");
                let now = snap(s);
                check!(now.is_empty() || now.len() == before.len(), "objects survive all together or not at all");
            } else {
                check!(!hidden(s), "no private object is visible");
            }
            assert!(close(s) == CKR_OK);
        }
    }
    if rv != CKR_OK {
        // at once or after a restart
        if vf::bool_z(z!("restart")) { restart(0, args); }
        let r = init_token(SO_PIN, LABEL);
        check!(r == CKR_OK, "after a failed initialisation the token can be initialised with the PIN of the SO");
    }
    restart(0, args);
    let s = open(true);
    let r = login(s, CKU_SO, SO_PIN);
    check!(r == CKR_OK, "the SO can log in afterwards");
    assert!(logout(s) == CKR_OK);
    let r = login(s, CKU_USER, USER_PIN);
    check!(r != CKR_OK, "the old user cannot");
    check!(snap(s).is_empty(), "the token is empty");
    let i = token_info().1;
    check!(&i.label == if rv == CKR_OK { b"another                         " } else { LABEL }, "the label is the one given");
    expect!("no failure", "failure reported");
}
