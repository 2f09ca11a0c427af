//! C22 searches return exactly the matching objects (and C01: never by a hidden value)
use crate::keys;
use crate::p11::*;
use crate::*;

struct Obj { h: H, attrs: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)>, hidden: bool }

fn eqb(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

/// p0: 0 session objects 1 token objects 2 one of each; p1: attributes in the search template; p2: 1 = plain storage
#[unsafe(no_mangle)]
pub extern "C" fn h_find() {
    boot(db(vf::param(2, 0)));
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let mode = vf::param(0, 0);
    let mut objs: Vec<Obj> = Vec::new();
    let mut lab = [[0u8; 4]; 3];
    let mut fl = [0u8; 3];
    vf::bytes_z(&mut fl, z!("encrypt"));
    for i in 0..3usize {
        lab[i] = [b'o', b'b', b'j', b'0'];
        let l = vf::u8_z(z!("label"));
        vf::assume((l >= b'0') & (l < b'8'));
        lab[i][3] = l;
        let token = match mode { 0 => false, 1 => true, _ => i == 1 };
        let mut attrs: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> = Vec::new();
        let n = 4 - (i == 2) as usize; // one label is a prefix of the others
        attrs.push((CKA_LABEL, lab[i][..n].to_vec()));
        attrs.push((CKA_TOKEN, vec![token as u8]));
        if i < 2 {
            attrs.push((CKA_CLASS, CKO_SECRET_KEY.to_ne_bytes().to_vec()));
            attrs.push((CKA_KEY_TYPE, CKK_AES.to_ne_bytes().to_vec()));
            attrs.push((CKA_ENCRYPT, vec![fl[i] & 1]));
            attrs.push((CKA_ID, vec![i as u8 + 1]));
        } else {
            attrs.push((CKA_CLASS, CKO_DATA.to_ne_bytes().to_vec()));
            attrs.push((CKA_APPLICATION, b"app".to_vec()));
        }
        let mut t = T::new();
        for (ty, v) in &attrs { t.add(*ty, v); }
        if i < 2 { t.add(CKA_VALUE, &keys::pat(16, i as u8)); t.add(CKA_SENSITIVE, &[1]); }
        let mut h: H = 0;
        let rv = create(s, &mut t, &mut h);
        check!(rv == CKR_OK, "create");
        objs.push(Obj { h, attrs, hidden: false });
    }
    // the search
    let mut want: Vec<(CK_ATTRIBUTE_TYPE, Vec<u8>)> = Vec::new();
    for _ in 0..vf::param(1, 1) {
        match vf::choose_z(7, z!("attr")) {
            0 => { let mut v = *b"obj0"; v[3] = vf::u8_z(z!("want")); let n = 3 + vf::choose_z(2, z!("n")) as usize; want.push((CKA_LABEL, v[..n].to_vec())); }
            1 => want.push((CKA_CLASS, vf::u64_z(z!("class")).to_ne_bytes().to_vec())),
            2 => want.push((CKA_KEY_TYPE, vf::u64_z(z!("ktype")).to_ne_bytes().to_vec())),
            3 => want.push((CKA_ENCRYPT, vec![vf::bool_z(z!("bool")) as u8])),
            4 => want.push((CKA_TOKEN, vec![vf::bool_z(z!("bool")) as u8])),
            5 => want.push((CKA_ID, vec![vf::u8_z(z!("id"))])),
            _ => want.push((CKA_APPLICATION, b"app"[..2 + vf::choose_z(2, z!("n")) as usize].to_vec())),
        }
    }
    let mut t = T::new();
    for (ty, v) in &want { t.add(*ty, v); }
    let rv = call!(C_FindObjectsInit(s, t.p(), t.n()));
    if rv != CKR_OK && vf::param(2, 0) >= 2 {
        // the SQL back end refuses values it cannot hold: nothing may match them
        for o in &objs {
            let mut m = true;
            for (ty, v) in &want {
                let mut one = false;
                for (at, av) in &o.attrs { if at == ty { one = eqb(av, v); } }
                m &= one;
            }
            check!(!m, "a search that has a match is not refused");
        }
        return;
    }
    check!(rv == CKR_OK, "search starts");
    let batch = 1 + vf::choose_z(3, z!("batch"));
    let mut got: Vec<H> = Vec::new();
    loop {
        let mut l = [0 as H; 4];
        let mut n: CK_ULONG = 99;
        let rv = call!(C_FindObjects(s, l.as_mut_ptr(), batch, &mut n));
        check!(rv == CKR_OK, "search continues");
        check!(n <= batch, "no more handles than asked for");
        for i in 0..4 { if i as u64 >= n { check!(l[i] == 0, "nothing is written behind the results"); } }
        if n == 0 { break; }
        for i in 0..n as usize { got.push(l[i]); }
    }
    let rv = call!(C_FindObjectsFinal(s));
    check!(rv == CKR_OK, "search ends");
    for o in &objs {
        let mut m = true;
        for (ty, v) in &want {
            let mut one = false;
            for (at, av) in &o.attrs { if at == ty { one = eqb(av, v); } }
            m &= one;
        }
        let mut n = 0;
        for g in &got { if *g == o.h { n += 1; } }
        check!(n == m as u64, "an object is found exactly once if and only if it matches the template");
        if m { cover!("match"); } else { cover!("no-match"); }
    }
    cover!("end");
    expect!("end", "match", "no-match");
}

/// p0: kind; p1: token
#[unsafe(no_mangle)]
pub extern "C" fn h_find_secret() {
    boot(db(vf::param(2, 0)));
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let mut k = keys::kind(vf::param(0, 0) as u64);
    let se = vf::u8_z(z!("sensitive"));
    let ex = vf::u8_z(z!("extractable"));
    k.t.add(CKA_SENSITIVE, &[se]);
    k.t.add(CKA_EXTRACTABLE, &[ex]);
    let token = vf::param(1, 0) == 1;
    k.t.add(CKA_TOKEN, &[token as u8]);
    let mut h: H = 0;
    let rv = create(s, &mut k.t, &mut h);
    check!(rv == CKR_OK, "create");
    let hidden = (se != 0) | (ex == 0);
    let i = vf::choose_z(k.secrets.len() as u64, z!("component")) as usize;
    for (ty, val) in &k.secrets[i..i + 1] {
        let mut g = val.clone();
        let d = vf::u8_z(z!("guess"));
        g[0] = d;
        let mut t = T::new().bytes(*ty, &g);
        if vf::bool_z(z!("class first")) { t = T::new().bytes(CKA_CLASS, k.t.val(0)).bytes(*ty, &g); }
        let mut l = [0 as H; 4];
        let (rv, n) = find(s, &mut t, &mut l);
        check!(rv == CKR_OK, "search by value");
        if hidden { check!(n == 0, "a search never confirms a guess of a hidden value"); cover!("hidden"); }
        else { check!((n == 1) == (d == val[0]), "a readable value can be searched"); check!((n == 0) | (l[0] == h), "the object found"); cover!("open"); }
    }
    expect!("hidden");
}
