//! C08 lifetime of objects and handles
use crate::p11::*;
use crate::*;

struct O { h: H, token: bool, private: bool, owner: H, live: bool, tag: u8 }
struct M { sess: Vec<H>, logged: bool, objs: Vec<O>, hs: Vec<H> }

fn verify(m: &M) {
    let s = m.sess[0];
    for o in &m.objs {
        let vis = o.live & (!o.private | m.logged);
        let mut b = [0u8; 4];
        let (rv, n) = get_attr(s, o.h, CKA_LABEL, &mut b);
        if vis {
            check!((rv == CKR_OK) & (n == 2) & (b[0] == b'o') & (b[1] == o.tag), "the handle of a live object refers to it");
        } else {
            check!(rv != CKR_OK, "the handle of a dead or hidden object is invalid");
        }
    }
    let mut l = [0 as H; 16];
    let mut t = T::new().ul(CKA_CLASS, CKO_DATA);
    let (rv, n) = find(s, &mut t, &mut l);
    check!(rv == CKR_OK, "find");
    let mut want = 0;
    for o in &m.objs {
        let vis = o.live & (!o.private | m.logged);
        let mut c = 0;
        for i in 0..n { if l[i] == o.h { c += 1; } }
        check!(c == vis as u64, "a search finds exactly the live objects");
        want += vis as usize;
    }
    check!(n == want, "a search finds no other objects");
}
fn add(m: &mut M, h: H, token: bool, private: bool, owner: H, tag: u8) {
    check!(h != 0, "a handle is never zero");
    for x in &m.hs { check!(*x != h, "handles are never reused"); }
    m.hs.push(h);
    m.objs.push(O { h, token, private, owner, live: true, tag });
}

/// p0: steps
#[unsafe(no_mangle)]
pub extern "C" fn h_life() {
    boot("enc0");
    let mut m = M { sess: Vec::new(), logged: true, objs: Vec::new(), hs: Vec::new() };
    let a = open(true);
    m.sess.push(a);
    assert!(login(a, CKU_USER, USER_PIN) == CKR_OK);
    m.sess.push(open(true));
    // one object of every sort to begin with
    for i in 0..4u8 {
        let (token, private) = (i & 1 != 0, i & 2 != 0);
        let owner = m.sess[(i >> 1) as usize];
        let mut t = T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, token).b(CKA_PRIVATE, private).bytes(CKA_LABEL, &[b'o', i]);
        let mut h = 0;
        let rv = create(owner, &mut t, &mut h);
        check!(rv == CKR_OK, "create");
        add(&mut m, h, token, private, owner, i);
    }
    verify(&m);
    for k in 0..vf::param(0, 2) {
        let si = if m.sess.len() > 1 { vf::choose_z(2, z!("session")) as usize } else { 0 };
        let s = m.sess[si];
        match vf::choose_z(if k == 0 && vf::param(1, 0) > 0 { 1 } else { 6 }, z!("op")) + if k == 0 && vf::param(1, 0) > 0 { vf::param(1, 0) as u64 - 1 } else { 0 } {
            0 => {
                let token = vf::bool_z(z!("token"));
                let private = vf::bool_z(z!("private"));
                vf::assume(m.logged | !private);
                let tag = 0x10 + k as u8;
                let mut t = T::new().ul(CKA_CLASS, CKO_DATA).b(CKA_TOKEN, token).b(CKA_PRIVATE, private).bytes(CKA_LABEL, &[b'o', tag]);
                let mut h = 0;
                let rv = create(s, &mut t, &mut h);
                check!((rv == CKR_OK) == (m.logged | !token), "objects can be created, token objects after a login");
                if rv == CKR_OK { add(&mut m, h, token, private, s, tag); cover!("create"); }
            }
            1 => {
                let i = vf::choose_z(m.objs.len() as u64, z!("obj")) as usize;
                let vis = m.objs[i].live & (!m.objs[i].private | m.logged);
                let rv = destroy(s, m.objs[i].h);
                check!((rv == CKR_OK) == vis, "exactly a live object can be destroyed");
                if vis { m.objs[i].live = false; cover!("destroy"); }
            }
            2 => {
                let i = vf::choose_z(m.objs.len() as u64, z!("obj")) as usize;
                let vis = m.objs[i].live & (!m.objs[i].private | m.logged);
                let token = vf::bool_z(z!("token"));
                let mut t = T::new().b(CKA_TOKEN, token);
                let mut h = 0;
                let rv = copy(s, m.objs[i].h, &mut t, &mut h);
                check!((rv == CKR_OK) == (vis & (m.logged | !token)), "exactly a live object can be copied");
                if rv == CKR_OK {
                    let (p, tag) = (m.objs[i].private, m.objs[i].tag);
                    add(&mut m, h, token, p, s, tag);
                    cover!("copy");
                }
            }
            3 => {
                // close and, if it was the last one, open a new one
                let all = vf::bool_z(z!("all"));
                if all {
                    let rv = call!(C_CloseAllSessions(SLOT));
                    check!(rv == CKR_OK, "close all");
                    for o in m.objs.iter_mut() { o.live &= o.token; }
                    m.sess.clear();
                } else {
                    check!(close(s) == CKR_OK, "close");
                    for o in m.objs.iter_mut() { if o.owner == s { o.live &= o.token; } }
                    m.sess.remove(si);
                }
                if m.sess.is_empty() { m.logged = false; }
                let n = open(true);
                m.sess.push(n);
                cover!("close");
            }
            4 => {
                if m.logged {
                    check!(logout(s) == CKR_OK, "logout");
                    m.logged = false;
                    for o in m.objs.iter_mut() { if o.private { o.live &= o.token; } }
                    cover!("logout");
                } else {
                    check!(login(s, CKU_USER, USER_PIN) == CKR_OK, "login");
                    m.logged = true;
                }
            }
            _ => {
                // a refused change of somebody else's object changes nothing
                let i = vf::choose_z(m.objs.len() as u64, z!("obj")) as usize;
                let mut t = T::new().bytes(CKA_LABEL, &[b'o', 0x70 + i as u8]);
                let vis = m.objs[i].live & (!m.objs[i].private | m.logged);
                let rv = set_attrs(s, m.objs[i].h, &mut t);
                check!((rv == CKR_OK) == (vis & (m.logged | !m.objs[i].token)), "exactly a live object can be changed");
                if rv == CKR_OK { m.objs[i].tag = 0x70 + i as u8; cover!("set"); }
            }
        }
        verify(&m);
    }
    cover!("end");
    expect!("end");
    if vf::param(1, 0) == 0 { expect!("create", "destroy", "copy", "close", "logout", "set"); }
}
