//! C01 secrecy of key components, C02 attribute change policy
use crate::keys;
use crate::p11::*;
use crate::*;

/// attributes watched for unwanted changes; the first NB are booleans
const NB: usize = 12;
const WATCH: [CK_ATTRIBUTE_TYPE; 18] = [
    CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_TOKEN, CKA_PRIVATE, CKA_MODIFIABLE, CKA_COPYABLE, CKA_DESTROYABLE,
    CKA_WRAP_WITH_TRUSTED, CKA_TRUSTED, CKA_LOCAL, CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE,
    CKA_CLASS, CKA_KEY_TYPE, CKA_KEY_GEN_MECHANISM, CKA_VALUE_LEN, CKA_LABEL, CKA_UNIQUE_ID,
];
const SENS: usize = 0;
const EXTR: usize = 1;
const TOK: usize = 2;
const MODI: usize = 4;
const COPY: usize = 5;
const DESTR: usize = 6;
const ALW: usize = 10;
const NEV: usize = 11;
const LABEL: usize = 16;
const UID: usize = 17;
const CAP: usize = 48;

#[derive(Clone)]
pub struct Snap { rv: CK_RV, len: [CK_ULONG; 18], v: [[u8; CAP]; 18] }

pub fn snap(s: H, o: H) -> Snap {
    let mut sn = Snap { rv: 0, len: [0; 18], v: [[0; CAP]; 18] };
    let mut a: Vec<CK_ATTRIBUTE> = Vec::new();
    for i in 0..18 {
        a.push(CK_ATTRIBUTE { type_: WATCH[i], pValue: sn.v[i].as_mut_ptr() as *mut _, ulValueLen: CAP as CK_ULONG });
    }
    sn.rv = call!(C_GetAttributeValue(s, o, a.as_mut_ptr(), 18));
    for i in 0..18 { sn.len[i] = a[i].ulValueLen; }
    sn
}
impl Snap {
    /// has the attribute, as a boolean
    fn has(&self, i: usize) -> bool { self.len[i] != CK_UNAVAILABLE_INFORMATION }
    fn b(&self, i: usize) -> bool { self.has(i) & (self.v[i][0] != 0) }
    fn same(&self, o: &Snap, i: usize) -> bool {
        let mut d = 0u8;
        for k in 0..CAP { d |= self.v[i][k] ^ o.v[i][k]; }
        (self.len[i] == o.len[i]) & (d == 0)
    }
    fn same_all(&self, o: &Snap) -> bool {
        let mut r = self.rv == o.rv;
        for i in 0..18 { r &= self.same(o, i); }
        r
    }
}

/// the secret components are readable exactly when the object is non-sensitive and extractable
pub fn verify_secrets(s: H, o: H, k: &keys::Kind, sens: bool, extr: bool) {
    if vf::param(6, 0) == 2 { return; }
    let mut buf = [0xEEu8; 160];
    for (ty, val) in &k.secrets {
        let mut a = CK_ATTRIBUTE { type_: *ty, pValue: buf.as_mut_ptr() as *mut _, ulValueLen: 160 };
        let rv = call!(C_GetAttributeValue(s, o, &mut a, 1));
        let mut q = CK_ATTRIBUTE { type_: *ty, pValue: std::ptr::null_mut(), ulValueLen: 0 };
        let rq = call!(C_GetAttributeValue(s, o, &mut q, 1));
        if sens | !extr {
            check!(rv == CKR_ATTRIBUTE_SENSITIVE, "secret components of a sensitive or unextractable key are refused");
            check!(a.ulValueLen == CK_UNAVAILABLE_INFORMATION, "refused secret has length CK_UNAVAILABLE_INFORMATION");
            check!((rq == CKR_ATTRIBUTE_SENSITIVE) & (q.ulValueLen == CK_UNAVAILABLE_INFORMATION), "length of a refused secret is not disclosed");
            let mut d = 0u8;
            for b in &buf { d |= b ^ 0xEE; }
            check!(d == 0, "the buffer of a refused secret is not written");
            cover!("refused");
        } else {
            check!((rv == CKR_OK) & (a.ulValueLen as usize == val.len()), "secret of a non-sensitive extractable key is readable");
            check!((rq == CKR_OK) & (q.ulValueLen as usize == val.len()), "length of a readable secret");
            let mut d = 0u8;
            for i in 0..val.len() { d |= buf[i] ^ val[i]; }
            check!(d == 0, "the secret value never changes");
            for i in 0..val.len() { buf[i] = 0xEE; }
            cover!("readable");
        }
    }
}

struct O { h: H, s: Snap, always: bool, never: bool }

const LIST: [CK_ATTRIBUTE_TYPE; 16] = [
    CKA_SENSITIVE, CKA_EXTRACTABLE, CKA_CLASS, CKA_KEY_TYPE, CKA_VALUE, CKA_PRIVATE, CKA_MODIFIABLE, CKA_COPYABLE,
    CKA_ALWAYS_SENSITIVE, CKA_NEVER_EXTRACTABLE, CKA_TOKEN, CKA_WRAP_WITH_TRUSTED, CKA_TRUSTED, CKA_LOCAL, CKA_DESTROYABLE, CKA_DERIVE,
];

/// checks one object after a change from `b` to `a`; `x`: type of the changed attribute
fn transition(b: &Snap, a: &Snap, x: CK_ATTRIBUTE_TYPE, copy: bool, key: bool) {
    if vf::param(6, 0) == 1 { return; }
    check!(!b.b(SENS) | a.b(SENS), "CKA_SENSITIVE never goes back to false");
    check!(b.b(EXTR) | !a.b(EXTR), "CKA_EXTRACTABLE never goes back to true");
    check!(!b.b(7) | a.b(7), "CKA_WRAP_WITH_TRUSTED never goes back to false");
    check!(b.b(COPY) | !a.b(COPY), "CKA_COPYABLE never goes back to true");
    for i in 0..18 {
        let ty = WATCH[i];
        let fixed = match ty {
            CKA_CLASS | CKA_KEY_TYPE | CKA_LOCAL | CKA_KEY_GEN_MECHANISM | CKA_VALUE_LEN => true,
            CKA_TRUSTED => key,
            CKA_TOKEN | CKA_PRIVATE | CKA_MODIFIABLE | CKA_UNIQUE_ID => !copy,
            CKA_ALWAYS_SENSITIVE | CKA_NEVER_EXTRACTABLE => !copy,
            _ => false,
        };
        if fixed { check!(a.same(b, i), "class, type, origin and trust of an object never change"); }
        else if !(copy & ((i == ALW) | (i == NEV) | (i == UID) | (i == LABEL))) && ty != CKA_LABEL {
            check!(a.same(b, i) | (ty == x), "only the attribute named in the template changes");
        }
    }
    if copy { check!(!a.same(b, UID), "a copy has its own unique id"); }
}

/// params: 0 kind of object, 1 steps, 2 token object, 3 template order (1: symbolic attribute first), 4 1 = type out of the list,
/// 5 origin: 0 C_CreateObject 1 C_GenerateKey 2 C_UnwrapKey, 6 focus: 0 all 1 secrets 2 attribute changes
#[unsafe(no_mangle)]
pub extern "C" fn h_attr() {
    boot("enc0");
    let s = open(true);
    assert!(login(s, CKU_USER, USER_PIN) == CKR_OK);
    let kn = vf::param(0, 0) as u64;
    let token = vf::param(2, 0) == 1;
    let origin = vf::param(5, 0);
    let key = kn != keys::DATA && kn != keys::CERT;
    let mut k = keys::kind(kn);
    let mut sym = [0u8; 5];
    vf::bytes_z(&mut sym, z!("flags"));
    let secret = !k.secrets.is_empty();
    let attrs = |t: &mut T| {
        t.add(CKA_TOKEN, &[token as u8]);
        if secret {
            t.add(CKA_SENSITIVE, &sym[0..1]);
            t.add(CKA_EXTRACTABLE, &sym[1..2]);
            t.add(CKA_WRAP_WITH_TRUSTED, &sym[2..3]);
        }
        t.add(CKA_MODIFIABLE, &sym[3..4]);
        t.add(CKA_COPYABLE, &sym[4..5]);
        t.add(CKA_LABEL, b"lbl0");
    };
    let mut h: H = 0;
    let (sens0, extr0) = (secret & (sym[0] != 0), !secret | (sym[1] != 0));
    if origin == 0 {
        attrs(&mut k.t);
        let rv = create(s, &mut k.t, &mut h);
        check!(rv == CKR_OK, "create");
    } else if origin == 1 {
        let mut t = T::new().ul(CKA_VALUE_LEN, 16);
        attrs(&mut t);
        let mut m = mech(CKM_AES_KEY_GEN);
        let rv = call!(C_GenerateKey(s, &mut m, t.p(), t.n(), &mut h));
        check!(rv == CKR_OK, "generate");
    } else {
        let mut w = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES).bytes(CKA_VALUE, &[7; 16]).b(CKA_UNWRAP, true).b(CKA_WRAP, true);
        let mut wk = 0;
        assert!(create(s, &mut w, &mut wk) == CKR_OK);
        let mut st = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES).bytes(CKA_VALUE, &k.secrets[0].1).b(CKA_EXTRACTABLE, true);
        let mut sk = 0;
        assert!(create(s, &mut st, &mut sk) == CKR_OK);
        let mut iv = [9u8; 16];
        let mut m = mech_b(CKM_AES_CBC_PAD, &mut iv);
        let mut out = [0u8; 64];
        let mut n: CK_ULONG = 64;
        let rv = call!(C_WrapKey(s, &mut m, wk, sk, out.as_mut_ptr(), &mut n));
        check!(rv == CKR_OK, "wrap");
        let mut t = T::new().ul(CKA_CLASS, CKO_SECRET_KEY).ul(CKA_KEY_TYPE, CKK_AES);
        attrs(&mut t);
        let rv = call!(C_UnwrapKey(s, &mut m, wk, out.as_mut_ptr(), n, t.p(), t.n(), &mut h));
        check!(rv == CKR_OK, "unwrap");
    }
    let s0 = snap(s, h);
    let gen_ = origin == 1;
    if secret {
        check!((s0.b(SENS) == sens0) & (s0.b(EXTR) == extr0), "the template decides sensitivity and extractability");
        check!(s0.b(9) == gen_, "CKA_LOCAL is true exactly for generated keys");
        check!(s0.b(ALW) == (gen_ & sens0), "CKA_ALWAYS_SENSITIVE of a new key");
        check!(s0.b(NEV) == (gen_ & !extr0), "CKA_NEVER_EXTRACTABLE of a new key");
    }
    if key { check!(!(s0.b(8)), "nothing is born trusted"); }
    if gen_ { k.secrets.clear(); }
    verify_secrets(s, h, &k, sens0, extr0);
    let mut objs = vec![O { h, always: gen_ & sens0, never: gen_ & !extr0, s: s0 }];
    for _ in 0..vf::param(1, 1) {
        let i = if objs.len() > 1 { vf::choose_z(objs.len() as u64, z!("obj")) as usize } else { 0 };
        let ty = if vf::param(4, 0) == 0 { vf::u64_z(z!("type")) } else { LIST[vf::choose_z(16, z!("type")) as usize] };
        let mut val = [0u8; 8];
        val[0] = vf::u8_z(z!("value"));
        let vl = if vf::param(4, 0) == 0 { [1usize, 8, 0][vf::choose_z(3, z!("len")) as usize] } else { match ty { CKA_CLASS | CKA_KEY_TYPE | CKA_VALUE => 8, _ => 1 } };
        let mut t = T::new();
        let first = vf::param(3, 0) == 1;
        if first { t.add(ty, &val[..vl]); }
        t.add(CKA_LABEL, b"lbl1");
        if !first { t.add(ty, &val[..vl]); }
        let before = objs[i].s.clone();
        if vf::bool_z(z!("copy")) {
            let mut c: H = 0;
            let rv = copy(s, objs[i].h, &mut t, &mut c);
            let after = snap(s, objs[i].h);
            check!(after.same_all(&before), "copying never changes the original");
            if rv == CKR_OK {
                check!(before.b(COPY), "an object with CKA_COPYABLE false is not copied");
                let cs = snap(s, c);
                transition(&before, &cs, ty, true, key);
                let o = O { h: c, always: objs[i].always & cs.b(SENS), never: objs[i].never & !cs.b(EXTR), s: cs };
                if secret {
                    check!(!o.s.b(ALW) | o.always, "CKA_ALWAYS_SENSITIVE is true only of a key that always was");
                    check!(!o.s.b(NEV) | o.never, "CKA_NEVER_EXTRACTABLE is true only of a key that never was extractable");
                }
                verify_secrets(s, c, &k, secret & o.s.b(SENS), !secret | o.s.b(EXTR));
                objs.push(o);
                cover!("copied");
            } else { cover!("copy-refused"); }
        } else {
            let rv = set_attrs(s, objs[i].h, &mut t);
            let after = snap(s, objs[i].h);
            if rv == CKR_OK {
                check!(before.b(MODI), "an object with CKA_MODIFIABLE false is not modified");
                transition(&before, &after, ty, false, key);
                check!((after.len[LABEL] == 4) & (after.v[LABEL][3] == b'1') | (ty == CKA_LABEL), "an accepted change takes effect");
                for w in 0..NB {
                    check!((ty != WATCH[w]) | (after.b(w) == (val[0] != 0)), "an accepted boolean takes the value of the template");
                }
                cover!("set");
            } else {
                check!(after.same_all(&before), "a refused C_SetAttributeValue changes nothing");
                cover!("set-refused");
            }
            objs[i].s = after;
        }
        for o in &objs {
            verify_secrets(s, o.h, &k, secret & o.s.b(SENS), !secret | o.s.b(EXTR));
        }
    }
    // destroyable
    for o in &objs {
        let rv = destroy(s, o.h);
        check!((rv == CKR_OK) == o.s.b(DESTR), "C_DestroyObject follows CKA_DESTROYABLE");
    }
    cover!("end");
    expect!("end", "set", "set-refused", "copied", "copy-refused");
}
