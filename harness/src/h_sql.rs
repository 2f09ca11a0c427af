//! C27 what the sqlite back end stores, fetches and finds; C36 crashes
#![allow(static_mut_refs)]
use crate::h_store::{equal, read_obj, same, snap, Obj};
use crate::keys;
use crate::ops;
use crate::p11::*;
use crate::*;

fn eqb(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

/// one value of an attribute of each type; `short` values differ from others in length
fn value(what: i64, n: u64, m: &'static str) -> Vec<u8> {
    match what {
        0 => vec![vf::bool_z(m) as u8],
        // the back end keeps numbers of 32 bits
        1 => vf::u64_z(m).to_ne_bytes().to_vec(),
        2 => { let mut v = b"\xc3\xa9ab"[..[0, 2, 3, 4][n as usize]].to_vec(); if n > 1 { v[2] = vf::u8_z(m); vf::assume((v[2] < 0x80) & (v[2] != 0)); } v }
        3 | 7 => { let mut v = vec![7u8; n as usize + (what == 7) as usize * 16]; vf::bytes_z(&mut v, m); v }
        4 => { if n == 0 { vec![] } else { let mut v = *b"20260110"; v[7] = vf::u8_z(m); v[4 + n as usize % 3] = vf::u8_z(m); v.to_vec() } }
        5 => { let mut v = vec![]; for _ in 0..n { v.extend_from_slice(&vf::u64_z(m).to_ne_bytes()); } v }
        _ => { let mut v = b"abcdefghijklmnopqrst".to_vec(); v[16] = vf::u8_z(m); vf::assume((v[16] < 0x80) & (v[16] != 0)); v[..17 + n as usize].to_vec() }
    }
}
const WHAT: [CK_ATTRIBUTE_TYPE; 8] = [CKA_DERIVE, CKA_NAME_HASH_ALGORITHM, CKA_LABEL, CKA_ID, CKA_START_DATE, CKA_ALLOWED_MECHANISMS, CKA_APPLICATION, CKA_VALUE];

fn base(what: i64) -> T {
    match what {
        1 => keys::kind(keys::CERT).t,
        6 => keys::kind(keys::DATA).t,
        7 => T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_GENERIC_SECRET).b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true),
        _ => keys::kind(keys::GENERIC).t.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true),
    }
    .b(CKA_TOKEN, true)
}

/// an empty date is kept as zeros
fn norm(what: i64, v: Vec<u8>) -> Vec<u8> { if what == 4 && v.is_empty() { b"00000000".to_vec() } else { v } }
fn bad_date(v: &[u8]) -> bool { let mut d = false; for c in v { d |= (*c < b'0') | (*c > b'9'); } d }

/// p0: type of the attribute, p1: database, p2: 1 = the second value is set later
#[unsafe(no_mangle)]
pub extern "C" fn h_sql_vals() {
    let what = vf::param(0, 0);
    let args = db(vf::param(1, 2));
    boot(args);
    let mut s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let at = WHAT[what as usize];
    let n0 = vf::choose_z(4, z!("n0"));
    let n1 = vf::choose_z(4, z!("n1"));
    let v = value(what, n0, z!("v"));
    let w = value(what, n1, z!("w"));
    let mut x: H = 0;
    let mut y: H = 0;
    for (val, h) in [(&v, &mut x), (&w, &mut y)] {
        let rv = create(s, &mut base(what).with(at, val), h);
        vf::out(rv);
        if rv != CKR_OK {
            // what cannot be kept is refused: numbers of more than 32 bits, dates that are none
            check!(match what {
                1 => { let n = u64::from_ne_bytes(val[..8].try_into().unwrap_or([0; 8])); (n > 0xffffffff) & (n != CK_UNAVAILABLE_INFORMATION) }
                4 => bad_date(val),
                _ => false,
            }, "a value that can be kept is accepted");
            cover!("refused");
            return;
        }
    }
    let (v, w) = (norm(what, v), norm(what, w));
    let (ux, uy) = (uid(s, x), uid(s, y));
    if vf::bool_z(z!("restart")) {
        restart(0, args);
        s = open(true);
        assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
        cover!("restart");
    }
    let mut l = [0 as H; 8];
    let (rv, n) = find(s, &mut T::new().b(CKA_TOKEN, true), &mut l);
    check!(rv == CKR_OK && n == 2, "both objects are there");
    for h in &l[..2] {
        let u = uid(s, *h);
        let (first, second) = (eqb(&u, &ux), eqb(&u, &uy));
        check!(first != second, "the objects are the ones created");
        if first { x = *h; } else { y = *h; }
    }
    for (h, want) in [(x, &v), (y, &w)] {
        let mut b = [0u8; 64];
        let (rv, n) = get_attr(s, h, at, &mut b);
        check!(rv == CKR_OK && n as usize == want.len(), "the value is stored with its length");
        check!(eqb(&b[..want.len()], want), "the value is stored as it was given");
    }
    // and the search finds exactly the objects with a value
    let q = if vf::bool_z(z!("old value")) { v.clone() } else { value(what, n1, z!("q")) };
    let (rv, n) = find(s, &mut T::new().b(CKA_TOKEN, true).bytes(at, &q), &mut l);
    if rv != CKR_OK {
        check!(!eqb(&q, &v) && !eqb(&q, &w), "a search for a value that is there is accepted");
        cover!("search refused");
        return;
    }
    let q = norm(what, q);
    let (fx, fy) = (l[..n].iter().filter(|h| **h == x).count(), l[..n].iter().filter(|h| **h == y).count());
    check!(fx + fy == n, "only objects of the token are found");
    check!(fx == eqb(&q, &v) as usize && fy == eqb(&q, &w) as usize, "a search finds exactly the objects with the value");
    if n == 2 { cover!("both"); }
    if n == 0 { cover!("none"); }
    vf::out(n as u64);
    expect!("restart", "both", "none");
}
fn uid(s: H, h: H) -> Vec<u8> {
    let mut b = [0u8; 64];
    let (rv, n) = get_attr(s, h, CKA_UNIQUE_ID, &mut b);
    check!(rv == CKR_OK && n > 0 && n <= 64, "an object has an identifier");
    b[..n as usize].to_vec()
}

// ---------------------------------------------------------------- crashes
static mut COUNT: u64 = 0;
static mut CRASH_AT: u64 = u64::MAX;
static mut RUN: u64 = 0;
static mut DEAD: bool = false;
/// from the point of the crash on nothing reaches the file
fn crash(kind: u32) -> bool {
    unsafe {
        // in a long row of changes only some are tried
        if kind != 1 { RUN = 0; } else { RUN += 1; }
        if kind == 1 && ![1, 2, 6, 15].contains(&RUN) { return DEAD; }
        if COUNT == CRASH_AT { DEAD = true; }
        COUNT += 1;
        DEAD
    }
}
const PIN2: &[u8] = b"zyxwvuts";
/// same attributes but for the identifier (and the value of a new key)
fn alike(x: &Obj, y: &Obj, fresh: bool) -> bool {
    let mut d = false;
    for i in 0..x.a.len() {
        if x.a[i].0 != y.a[i].0 { return false; }
        if i == 0 || fresh && x.a[i].0 >= 16 { continue; }
        for j in 0..x.a[i].1.len() { d |= x.a[i].1[j] != y.a[i].1[j]; }
    }
    !d
}

/// p0: call interrupted, p1: kind of the existing object, p2: database, p3: first point, p4: points
#[unsafe(no_mangle)]
pub extern "C" fn h_crash() {
    let what = vf::param(0, 0);
    let k = vf::param(1, 0) as u64;
    let args = db(vf::param(2, 2));
    boot(args);
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let mut kt = keys::kind(k).t.b(CKA_TOKEN, true).bytes(CKA_LABEL, b"old");
    if k < keys::DATA { kt = kt.b(CKA_SENSITIVE, false).b(CKA_EXTRACTABLE, true); }
    let mut h: H = 0;
    let rv = create(s, &mut kt, &mut h);
    check!(rv == CKR_OK, "create");
    let mut o: H = 0;
    let rv = create(s, &mut ops::aes_key(true, true, 0x11), &mut o);
    check!(rv == CKR_OK, "create AES key");
    let private = vf::bool_z(z!("private"));
    let call = |s: H, h: H| -> CK_RV {
        let mut nh: H = 0;
        let mut nh2: H = 0;
        let mut tok = T::new().b(CKA_TOKEN, true).bytes(CKA_LABEL, b"new").b(CKA_PRIVATE, private);
        match what {
            0 => { tok.add(CKA_CLASS, &CKO_DATA.to_ne_bytes()); tok.add(CKA_VALUE, b"value"); create(s, &mut tok, &mut nh) }
            1 => copy(s, h, &mut tok, &mut nh),
            2 => set_attrs(s, h, &mut T::new().bytes(CKA_LABEL, b"new").bytes(if k == keys::DATA { CKA_APPLICATION } else { CKA_ID }, b"id")),
            3 => destroy(s, h),
            4 => {
                tok.add(CKA_VALUE_LEN, &24u64.to_ne_bytes());
                let mut m = mech(CKM_AES_KEY_GEN);
                call!(C_GenerateKey(s, &mut m, tok.p(), tok.n(), &mut nh))
            }
            5 => {
                let mut pt = T::new().bytes(CKA_EC_PARAMS, keys::P256).b(CKA_TOKEN, true).bytes(CKA_LABEL, b"new");
                let mut m = mech(CKM_EC_KEY_PAIR_GEN);
                call!(C_GenerateKeyPair(s, &mut m, pt.p(), pt.n(), tok.p(), tok.n(), &mut nh, &mut nh2))
            }
            6 => set_pin(s, USER_PIN, PIN2),
            7 => init_pin(s, PIN2),
            8 => set_pin(s, SO_PIN, PIN2),
            _ => login(s, CKU_USER, PIN2),
        }
    };
    // what the call makes when nothing happens
    let before = snap(s);
    let mut after: Vec<Obj> = Vec::new();
    if what < 6 {
        let rv = call(s, h);
        check!(rv == CKR_OK, "an undisturbed call succeeds");
        after = snap(s);
    }
    let mut h = h;
    if what == 3 || what == 2 {
        // start again
        if what == 2 { assert!(destroy(s, h) == CKR_OK); }
        let rv = create(s, &mut kt, &mut h);
        check!(rv == CKR_OK, "create again");
    }
    let start = snap(s);
    if what >= 7 { assert!(logout(s) == CKR_OK); }
    if what == 7 || what == 8 { assert!(login(s, CKU_SO, SO_PIN) == CKR_OK); }
    unsafe {
        COUNT = 0;
        CRASH_AT = vf::param(3, 0) as u64 + vf::choose_z(vf::param(4, 16) as u64, z!("point"));
        DEAD = false;
        crate::sql_stub::SQL_FAULT = Some(crash);
    }
    let rv = call(s, h);
    let died = unsafe { DEAD };
    // the process is gone: what it would still write does not happen
    unsafe { DEAD = true; }
    finalize();
    unsafe { crate::sql_stub::SQL_FAULT = None; }
    cfg(SLOT as u32, args);
    assert!(initialize() == CKR_OK);
    let s = open(true);
    let mut so_new = false;
    if what == 8 {
        let a = login(s, CKU_SO, SO_PIN);
        if a == CKR_OK { assert!(logout(s) == CKR_OK); }
        let b = login(s, CKU_SO, PIN2);
        if b == CKR_OK { assert!(logout(s) == CKR_OK); so_new = true; }
        check!((a == CKR_OK) != (b == CKR_OK), "exactly one PIN of the SO works, the old or the new one");
        if !died { check!(so_new, "the new PIN is in force"); }
    }
    let mut user = login(s, CKU_USER, USER_PIN);
    let old = user == CKR_OK;
    if what == 6 || what == 7 {
        if !old { check!(user == CKR_PIN_INCORRECT, "the old PIN is right or wrong"); user = login(s, CKU_USER, PIN2); }
        if !died { check!(!old, "the new PIN is in force"); }
        if rv == CKR_OK { check!(!old, "a change that was reported is there"); }
    }
    check!(user == CKR_OK, "the user can log in with the old or the new PIN");
    let now = snap(s);
    let _ = so_new;
    // all the other objects are there, unchanged
    let hu = start.iter().find(|x| x.h == h).map(|x| x.a[0].1.clone()).unwrap_or_default();
    for x in &start {
        if (what == 2 || what == 3) && eqb(&x.a[0].1, &hu) { continue; }
        let y = now.iter().find(|y| eqb(&y.a[0].1, &x.a[0].1));
        check!(y.is_some_and(|y| same(x, y)), "the objects that were there are unchanged");
    }
    let news: Vec<&Obj> = now.iter().filter(|y| !start.iter().any(|x| eqb(&x.a[0].1, &y.a[0].1))).collect();
    let made: Vec<&Obj> = after.iter().filter(|y| !before.iter().any(|x| eqb(&x.a[0].1, &y.a[0].1))).collect();
    match what {
        2 => {
            let x = now.iter().find(|y| eqb(&y.a[0].1, &hu));
            let was = start.iter().find(|y| eqb(&y.a[0].1, &hu));
            let ch = after.iter().find(|y| y.a[4].1 == b"new");
            match (x, was, ch) {
                (Some(x), Some(was), Some(ch)) => {
                    let o = same(x, was);
                    check!(o || alike(x, ch, false), "a changed object is the old or the new one");
                    if o { cover!("old"); check!(rv != CKR_OK, "a change that was reported is there"); } else { cover!("new"); }
                }
                _ => check!(false, "a changed object is there"),
            }
            check!(news.is_empty(), "no other object appears");
        }
        3 => {
            let x = now.iter().find(|y| eqb(&y.a[0].1, &hu));
            match x {
                Some(x) => { let was = start.iter().find(|y| eqb(&y.a[0].1, &hu)); check!(was.is_some_and(|w| same(w, x)), "an object that is left is whole"); check!(rv != CKR_OK, "a destruction that was reported happened"); cover!("old"); }
                None => cover!("new"),
            }
            check!(news.is_empty(), "no other object appears");
        }
        0 | 1 | 4 | 5 => {
            check!(news.len() <= made.len(), "nothing else appears");
            if what != 5 { check!(news.len() == made.len() || news.is_empty(), "a new object is there or not"); }
            if rv == CKR_OK { check!(news.len() == made.len(), "an object that was reported is there"); }
            for x in &news {
                check!(made.iter().any(|m| alike(m, x, what >= 4)), "a new object is complete");
            }
            if news.is_empty() { cover!("old"); } else if news.len() == made.len() { cover!("new"); }
        }
        _ => { check!(news.is_empty(), "no object appears"); if old && !so_new { cover!("old"); } else { cover!("new"); } }
    }
    vf::out(now.len() as u64);
    // and the token can be used as ever
    let mut n: H = 0;
    let rv = create(s, &mut T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, true).bytes(CKA_LABEL, b"later"), &mut n);
    check!(rv == CKR_OK, "objects can be created after the crash");
    let end = snap(s);
    check!(end.len() == now.len() + 1, "the new object is one more");
    let _ = (&end, read_obj as fn(H, H) -> Obj, equal as fn(&[Obj], &[Obj], bool, &'static str));
    expect!("old");
    if what != 9 { expect!("new"); }
}
