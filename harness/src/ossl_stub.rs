//! Deterministic stand-ins for the libcrypto entry points kryoptic reaches.
//!
//! They replace *cryptographic strength* only: lengths, buffering, padding,
//! tag checking and error returns follow the documented OpenSSL contracts, the
//! keyed permutations/hashes are cheap byte-wise mixes so that a solver can
//! reason through them.  The same stand-ins are linked into the native replay
//! binary.  Every C definition here wins over the libcrypto shared object.
#![allow(non_snake_case, non_camel_case_types, static_mut_refs)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};
type V = *mut c_void;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct OsslParam {
    key: *const c_char,
    data_type: c_uint,
    data: V,
    data_size: usize,
    return_size: usize,
}
const T_INT: c_uint = 1;
const T_UINT: c_uint = 2;
const T_UTF8: c_uint = 4;
const T_OCTET: c_uint = 5;
const UNMOD: usize = usize::MAX;

/// Counters a harness may look at.
pub static mut RNG_CTR: u64 = 0;
pub static mut RNG_FAIL: bool = false;
/// number of bytes handed to the reseed/additional input of the RNG
pub static mut RNG_SEEDED: u64 = 0;
/// watch mode: everything the generator gave, and what it was seeded with
pub static mut RNG_WATCH: bool = false;
/// the generator gives symbolic bytes
pub static mut RNG_SYM: bool = false;
pub static mut RNG_LOG: Vec<u8> = Vec::new();
pub static mut RNG_SEED: Vec<u8> = Vec::new();
/// calls made, and the one to fail
pub static mut RNG_CALLS: u64 = 0;
pub static mut RNG_FAIL_AT: u64 = 0;
/// watch mode: the length of RNG_LOG when the last GCM initialization vector was taken
pub static mut RNG_USED: usize = 0;
pub static mut RNG_SEALS: u64 = 0;
pub static mut RNG_SALTS: u64 = 0;
pub static mut RNG_SALT: Vec<u8> = Vec::new();
/// when set, cipher output does not depend on the message (pure one-time mask)
pub static mut CIPHER_OPAQUE: bool = false;
/// when set, GCM is an ideal box: the ciphertext and the tag are constants that
/// name an entry of SEALS, and only exactly that key, iv, aad, ciphertext and
/// tag open it again
pub static mut SEAL: bool = false;
pub struct Sealed { pub key: Vec<u8>, pub iv: Vec<u8>, pub aad: Vec<u8>, pub ct: Vec<u8>, pub pt: Vec<u8>, pub id: u32 }
pub static mut SEALS: Vec<Sealed> = Vec::new();
pub static mut SEAL_CTR: u32 = 0;
/// the initialization vector of a sealed message must be what the generator
/// gave last, and not have been one before; a sealed master key comes with a salt
/// that was drawn for it
fn watch_iv(iv: &[u8], aad: &[u8]) {
    unsafe {
        let all: &'static Vec<u8> = &*std::ptr::addr_of!(RNG_LOG);
        let n = all.len();
        let pin = aad == b"SO" || aad == b"USER";
        let need = iv.len() + if pin { 32 } else { 0 };
        crate::check!(n >= RNG_USED + need, "every initialization vector and every salt is drawn anew");
        let mut d = 0u8;
        for i in 0..iv.len() { d |= iv[i] ^ all[n - iv.len() + i]; }
        crate::check!(d == 0, "an initialization vector is what the generator gave");
        if pin {
            RNG_SALT = all[n - need..n - iv.len()].to_vec();
            RNG_SALTS += 1;
        }
        RNG_USED = n;
        RNG_SEALS += 1;
    }
}
fn seal_byte(id: u32, i: usize) -> u8 { (id as u8).wrapping_mul(0x4d) ^ ((id >> 8) as u8) ^ (i as u8).wrapping_mul(0x6b) ^ 0xE1 }

/// random-oracle mode for digests, MACs, KDFs and AEAD tags: equal inputs give
/// equal outputs, different inputs give different (constant) outputs
pub static mut ORACLE: bool = false;
/// the block cipher is one, too (encryption only)
pub static mut BLOCK_ORACLE: bool = false;
static mut ORACLE_TAB: Vec<(Vec<u8>, u32)> = Vec::new();
static mut ORACLE_CTR: u32 = 0;
/// changes every output for inputs of this length
pub static mut MASK_LEN: usize = usize::MAX;
pub static mut MASK: [u8; 64] = [0; 64];
fn oracle(key: Vec<u8>, o: &mut [u8]) {
    unsafe {
        let masked = key.len() == MASK_LEN;
        let mut hit = None;
        for (k, v) in ORACLE_TAB.iter() {
            if k.len() == key.len() && *k == key { hit = Some(*v); break; }
        }
        let v = match hit {
            Some(v) => v,
            None => { ORACLE_CTR += 1; ORACLE_TAB.push((key, ORACLE_CTR)); ORACLE_CTR }
        };
        for (i, b) in o.iter_mut().enumerate() {
            // an invertible function of v in every pair of bytes
            *b = if i % 2 == 0 { (v as u8) ^ (i as u8).wrapping_mul(0x35) ^ 0xA7 } else { ((v >> 8) as u8) ^ (v as u8).rotate_left(3) ^ (i as u8) };
            if masked && i < 64 { *b ^= MASK[i]; }
        }
    }
}
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } }
}
unsafe fn sm<'a>(p: *mut u8, n: usize) -> &'a mut [u8] {
    if n == 0 { &mut [] } else { unsafe { std::slice::from_raw_parts_mut(p, n) } }
}
unsafe fn name<'a>(p: *const c_char) -> &'a [u8] {
    unsafe { CStr::from_ptr(p).to_bytes() }
}
fn boxed<T>(t: T) -> V {
    Box::into_raw(Box::new(t)) as V
}
unsafe fn unbox<T>(p: V) {
    if !p.is_null() {
        drop(unsafe { Box::from_raw(p as *mut T) });
    }
}

// ---------------------------------------------------------------- misc
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OPENSSL_cleanse(p: V, n: usize) {
    unsafe { std::ptr::write_bytes(p as *mut u8, 0, n) }
}
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_LIB_CTX_new() -> V {
    boxed(1u64)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_LIB_CTX_free(p: V) {
    unsafe { unbox::<u64>(p) }
}
#[unsafe(no_mangle)]
pub extern "C" fn ERR_set_mark() -> c_int { 1 }
#[unsafe(no_mangle)]
pub extern "C" fn ERR_pop_to_mark() -> c_int { 1 }

// ---------------------------------------------------------------- RAND
#[unsafe(no_mangle)]
pub extern "C" fn EVP_RAND_fetch(_c: V, _n: *const c_char, _p: *const c_char) -> V {
    boxed(2u64)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_free(p: V) { unsafe { unbox::<u64>(p) } }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_RAND_CTX_new(_r: V, _p: V) -> V { boxed(3u64) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_CTX_free(p: V) { unsafe { unbox::<u64>(p) } }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_RAND_instantiate(_c: V, _s: c_uint, _pr: c_int, _p: *const u8, _l: usize, _q: *const OsslParam) -> c_int { 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_reseed(_c: V, _pr: c_int, e: *const u8, el: usize, a: *const u8, al: usize) -> c_int {
    unsafe {
        if RNG_WATCH { RNG_SEED.extend_from_slice(s(e, el)); }
        for b in s(e, el) { RNG_SEEDED = RNG_SEEDED.wrapping_add(1); RNG_CTR ^= (*b as u64) << 32; }
        for b in s(a, al) { RNG_SEEDED = RNG_SEEDED.wrapping_add(1); RNG_CTR ^= (*b as u64) << 40; }
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_RAND_generate(_c: V, out: *mut u8, n: usize, _s: c_uint, _pr: c_int, a: *const u8, al: usize) -> c_int {
    unsafe {
        RNG_CALLS += 1;
        if RNG_FAIL || RNG_CALLS == RNG_FAIL_AT { return 0; }
        let _ = s(a, al);
        for o in sm(out, n) {
            RNG_CTR = RNG_CTR.wrapping_add(1);
            *o = if RNG_SYM { crate::vf::u8_z("rng\0") } else { (RNG_CTR.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8 };
            if RNG_WATCH { RNG_LOG.push(*o); }
        }
    }
    1
}
#[unsafe(no_mangle)]
pub extern "C" fn EVP_RAND_CTX_get_params(_c: V, _p: *mut OsslParam) -> c_int { 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn RAND_bytes(out: *mut u8, n: c_int) -> c_int {
    unsafe { EVP_RAND_generate(std::ptr::null_mut(), out, n as usize, 0, 0, std::ptr::null(), 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn RAND_priv_bytes(out: *mut u8, n: c_int) -> c_int {
    unsafe { RAND_bytes(out, n) }
}

// ---------------------------------------------------------------- BN (big endian, no leading zero)
pub struct Bn { v: Vec<u8> }
fn bn_norm(b: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i < b.len() && b[i] == 0 { i += 1; }
    b[i..].to_vec()
}
#[unsafe(no_mangle)]
pub extern "C" fn BN_secure_new() -> *mut Bn { boxed(Bn { v: vec![] }) as *mut Bn }
#[unsafe(no_mangle)]
pub extern "C" fn BN_new() -> *mut Bn { boxed(Bn { v: vec![] }) as *mut Bn }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn BN_free(b: *mut Bn) { unsafe { unbox::<Bn>(b as V) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn BN_bin2bn(p: *const u8, n: c_int, b: *mut Bn) -> *mut Bn {
    let b = if b.is_null() { BN_new() } else { b };
    unsafe { (*b).v = bn_norm(s(p, n as usize)); }
    b
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn BN_num_bits(b: *const Bn) -> c_int {
    let v = unsafe { &(*b).v };
    if v.is_empty() { return 0; }
    (v.len() as c_int - 1) * 8 + (8 - v[0].leading_zeros() as c_int)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn BN_bn2bin(b: *const Bn, o: *mut u8) -> c_int {
    let v = unsafe { &(*b).v };
    unsafe { sm(o, v.len()).copy_from_slice(v) };
    v.len() as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn BN_bn2nativepad(b: *const Bn, o: *mut u8, n: c_int) -> c_int {
    let v = unsafe { &(*b).v };
    if v.len() > n as usize { return -1; }
    let out = unsafe { sm(o, n as usize) };
    for (i, x) in out.iter_mut().enumerate() {
        *x = if i < v.len() { v[v.len() - 1 - i] } else { 0 };
    }
    n
}

// ---------------------------------------------------------------- OSSL_PARAM
fn par(key: *const c_char, t: c_uint, data: V, n: usize) -> OsslParam {
    OsslParam { key, data_type: t, data, data_size: n, return_size: UNMOD }
}
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_end() -> OsslParam {
    OsslParam { key: std::ptr::null(), data_type: 0, data: std::ptr::null_mut(), data_size: 0, return_size: 0 }
}
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_BN(k: *const c_char, p: *mut u8, n: usize) -> OsslParam { par(k, T_UINT, p as V, n) }
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_int(k: *const c_char, p: *mut c_int) -> OsslParam { par(k, T_INT, p as V, 4) }
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_int64(k: *const c_char, p: *mut i64) -> OsslParam { par(k, T_INT, p as V, 8) }
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_uint(k: *const c_char, p: *mut c_uint) -> OsslParam { par(k, T_UINT, p as V, 4) }
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_uint64(k: *const c_char, p: *mut u64) -> OsslParam { par(k, T_UINT, p as V, 8) }
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_size_t(k: *const c_char, p: *mut usize) -> OsslParam { par(k, T_UINT, p as V, 8) }
#[unsafe(no_mangle)]
pub extern "C" fn OSSL_PARAM_construct_octet_string(k: *const c_char, p: V, n: usize) -> OsslParam { par(k, T_OCTET, p, n) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_PARAM_construct_utf8_string(k: *const c_char, p: *mut c_char, n: usize) -> OsslParam {
    let n = if n == 0 && !p.is_null() { unsafe { name(p).len() } } else { n };
    par(k, T_UTF8, p as V, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_PARAM_locate(p: *const OsslParam, k: *const c_char) -> *const OsslParam {
    let mut p = p;
    if p.is_null() { return p; }
    unsafe {
        let want = name(k);
        while !(*p).key.is_null() {
            if name((*p).key) == want { return p; }
            p = p.add(1);
        }
    }
    std::ptr::null()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_PARAM_locate_const(p: *const OsslParam, k: *const c_char) -> *const OsslParam {
    unsafe { OSSL_PARAM_locate(p, k) }
}
unsafe fn num(p: *const OsslParam) -> Option<u64> {
    unsafe {
        if p.is_null() || ((*p).data_type != T_UINT && (*p).data_type != T_INT) { return None; }
        let d = s((*p).data as *const u8, (*p).data_size);
        let mut v = 0u64;
        for (i, b) in d.iter().enumerate() { if i < 8 { v |= (*b as u64) << (8 * i); } }
        if (*p).data_type == T_INT && (*p).data_size == 4 { v = v as u32 as i32 as i64 as u64; }
        Some(v)
    }
}
macro_rules! getnum { ($f:ident, $t:ty) => {
    #[unsafe(no_mangle)]
    pub unsafe extern "C" fn $f(p: *const OsslParam, v: *mut $t) -> c_int {
        unsafe { match num(p) { Some(x) => { *v = x as $t; 1 } None => 0 } }
    }
} }
getnum!(OSSL_PARAM_get_int, c_int);
getnum!(OSSL_PARAM_get_int64, i64);
getnum!(OSSL_PARAM_get_uint, c_uint);
getnum!(OSSL_PARAM_get_uint64, u64);
getnum!(OSSL_PARAM_get_size_t, usize);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_PARAM_get_BN(p: *const OsslParam, out: *mut *mut Bn) -> c_int {
    unsafe {
        if p.is_null() || (*p).data_type != T_UINT { return 0; }
        let d = s((*p).data as *const u8, (*p).data_size);
        let be: Vec<u8> = d.iter().rev().copied().collect();
        if (*out).is_null() { *out = BN_new(); }
        (**out).v = bn_norm(&be);
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_PARAM_get_octet_string_ptr(p: *const OsslParam, o: *mut V, n: *mut usize) -> c_int {
    unsafe {
        if p.is_null() || (*p).data_type != T_OCTET { return 0; }
        *o = (*p).data;
        *n = (*p).data_size;
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn OSSL_PARAM_get_utf8_string_ptr(p: *const OsslParam, o: *mut *const c_char) -> c_int {
    unsafe {
        if p.is_null() || (*p).data_type != T_UTF8 { return 0; }
        *o = (*p).data as *const c_char;
    }
    1
}
/// owned copy of a parameter array
pub struct OwnedParam { key: Vec<u8>, t: c_uint, v: Vec<u8>, n: usize }
unsafe fn copy_params(p: *const OsslParam) -> Vec<OwnedParam> {
    let mut out = vec![];
    let mut p = p;
    unsafe {
        while !p.is_null() && !(*p).key.is_null() {
            let mut v = s((*p).data as *const u8, (*p).data_size).to_vec();
            if (*p).data_type == T_UTF8 { v.push(0); }
            let mut key = name((*p).key).to_vec();
            key.push(0);
            out.push(OwnedParam { key, t: (*p).data_type, v, n: (*p).data_size });
            p = p.add(1);
        }
    }
    out
}
unsafe fn octets<'a>(p: *const OsslParam) -> &'a [u8] {
    unsafe { s((*p).data as *const u8, (*p).data_size) }
}

// ---------------------------------------------------------------- toy absorb
#[derive(Clone)]
pub struct Mix { st: [u8; 64], pos: usize }
impl Mix {
    pub fn new(seed: u8) -> Mix {
        let mut st = [0u8; 64];
        for (i, b) in st.iter_mut().enumerate() { *b = seed.wrapping_add((i as u8).wrapping_mul(29)); }
        Mix { st, pos: 0 }
    }
    pub fn absorb(&mut self, d: &[u8]) {
        for b in d {
            let i = self.pos % 16;
            self.st[i] = self.st[i].rotate_left(1) ^ *b;
            self.pos += 1;
        }
    }
    pub fn out(&self, o: &mut [u8]) {
        let n = self.pos as u8;
        for (i, b) in o.iter_mut().enumerate() {
            let k = i % 16;
            *b = self.st[k] ^ self.st[16 + i % 48] ^ n ^ (i as u8 / 16).wrapping_mul(0x1d);
        }
    }
}

// ---------------------------------------------------------------- digests
#[derive(Clone, Copy)]
pub struct Md { size: usize, id: u8 }
fn md_by_name(n: &[u8]) -> Option<Md> {
    Some(match n {
        b"SHA1" | b"SHA-1" | b"sha1" | b"SHA" => Md { size: 20, id: 1 },
        b"SHA2-224" | b"SHA-224" | b"SHA224" => Md { size: 28, id: 2 },
        b"SHA2-256" | b"SHA-256" | b"SHA256" => Md { size: 32, id: 3 },
        b"SHA2-384" | b"SHA-384" | b"SHA384" => Md { size: 48, id: 4 },
        b"SHA2-512" | b"SHA-512" | b"SHA512" => Md { size: 64, id: 5 },
        b"SHA2-512/224" => Md { size: 28, id: 6 },
        b"SHA2-512/256" => Md { size: 32, id: 7 },
        b"SHA3-224" => Md { size: 28, id: 8 },
        b"SHA3-256" => Md { size: 32, id: 9 },
        b"SHA3-384" => Md { size: 48, id: 10 },
        b"SHA3-512" => Md { size: 64, id: 11 },
        b"MD5" => Md { size: 16, id: 12 },
        _ => return None,
    })
}
pub struct MdCtx { md: Option<Md>, mix: Mix, done: bool, pkey: *const Pkey, msg: Vec<u8>, sp: SigP }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MD_fetch(_c: V, n: *const c_char, _p: *const c_char) -> V {
    match md_by_name(unsafe { name(n) }) { Some(m) => boxed(m), None => std::ptr::null_mut() }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MD_free(m: V) { unsafe { unbox::<Md>(m) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MD_get_size(m: *const Md) -> c_int { unsafe { (*m).size as c_int } }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_MD_CTX_new() -> V {
    boxed(MdCtx { md: None, mix: Mix::new(0), done: false, pkey: std::ptr::null(), msg: vec![], sp: SigP::new() })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MD_CTX_free(c: V) { unsafe { unbox::<MdCtx>(c) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestInit_ex2(c: *mut MdCtx, m: *const Md, _p: *const OsslParam) -> c_int {
    unsafe {
        (*c).md = Some(*m);
        (*c).mix = Mix::new((*m).id);
        (*c).msg = vec![1, (*m).id];
        (*c).done = false;
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestUpdate(c: *mut MdCtx, d: *const u8, n: usize) -> c_int {
    unsafe {
        if (*c).done || (*c).md.is_none() { return 0; }
        if ORACLE { (*c).msg.extend_from_slice(s(d, n)); return 1; }
        (*c).mix.absorb(s(d, n));
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestFinal_ex(c: *mut MdCtx, o: *mut u8, n: *mut c_uint) -> c_int {
    unsafe {
        let m = match (*c).md { Some(m) if !(*c).done => m, _ => return 0 };
        if ORACLE { oracle(std::mem::take(&mut (*c).msg), sm(o, m.size)); } else { (*c).mix.out(sm(o, m.size)); }
        (*c).done = true;
        if !n.is_null() { *n = m.size as c_uint; }
    }
    1
}

// ---------------------------------------------------------------- MAC
pub struct Mac { kind: u8 }
pub struct MacCtx { kind: u8, size: usize, base: Mix, mix: Mix, ready: bool, key: Vec<u8>, msg: Vec<u8> }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_fetch(_c: V, n: *const c_char, _p: *const c_char) -> V {
    match unsafe { name(n) } {
        b"HMAC" => boxed(Mac { kind: 1 }),
        b"CMAC" => boxed(Mac { kind: 2 }),
        _ => std::ptr::null_mut(),
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_free(m: V) { unsafe { unbox::<Mac>(m) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_CTX_new(m: *const Mac) -> V {
    boxed(MacCtx { kind: unsafe { (*m).kind }, size: 0, base: Mix::new(0), mix: Mix::new(0), ready: false, key: vec![], msg: vec![] })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_CTX_free(m: V) { unsafe { unbox::<MacCtx>(m) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_init(c: *mut MacCtx, k: *const u8, kl: usize, p: *const OsslParam) -> c_int {
    unsafe {
        let c = &mut *c;
        let mut p = p;
        while !p.is_null() && !(*p).key.is_null() {
            if (*p).data_type == T_UTF8 {
                let v = name((*p).data as *const c_char);
                match name((*p).key) {
                    b"digest" => match md_by_name(v) { Some(m) => { c.size = m.size; c.base = Mix::new(0x40 + m.id) } None => return 0 },
                    b"cipher" => {
                        c.size = 16;
                        c.base = Mix::new(0x60);
                        let want = match v { b"AES128" => 16, b"AES192" => 24, b"AES256" => 32, _ => return 0 };
                        if kl != want { return 0; }
                    }
                    _ => (),
                }
            }
            p = p.add(1);
        }
        if c.kind == 2 && c.size == 0 { c.size = 16; }
        if c.size == 0 { return 0; }
        if !k.is_null() || kl == 0 {
            c.key = vec![2, c.base.st[0], kl as u8, (kl >> 8) as u8];
            c.key.extend_from_slice(s(k, kl));
            let mut m = Mix::new(c.base.st[0]);
            m.absorb(s(k, kl));
            let mut t = [0u8; 64];
            m.out(&mut t);
            c.mix = Mix::new(c.base.st[0]);
            for i in 0..64 { c.mix.st[i] ^= t[i]; }
        }
        c.msg = c.key.clone();
        c.ready = true;
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_CTX_get_mac_size(c: *const MacCtx) -> usize { unsafe { (*c).size } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_update(c: *mut MacCtx, d: *const u8, n: usize) -> c_int {
    unsafe {
        if !(*c).ready { return 0; }
        if ORACLE { (*c).msg.extend_from_slice(s(d, n)); return 1; }
        (*c).mix.absorb(s(d, n));
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_MAC_final(c: *mut MacCtx, o: *mut u8, n: *mut usize, cap: usize) -> c_int {
    unsafe {
        if !(*c).ready { return 0; }
        if o.is_null() { *n = (*c).size; return 1; }
        if cap < (*c).size { return 0; }
        if ORACLE { oracle(std::mem::take(&mut (*c).msg), sm(o, (*c).size)); } else { (*c).mix.out(sm(o, (*c).size)); }
        (*c).ready = false;
        if !n.is_null() { *n = (*c).size; }
    }
    1
}

// ---------------------------------------------------------------- KDF
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_KDF_fetch(_c: V, n: *const c_char, _p: *const c_char) -> V {
    unsafe { boxed(kdf_id(name(n))) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_KDF_free(m: V) { unsafe { unbox::<u64>(m) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_KDF_CTX_new(m: *const u64) -> V { unsafe { boxed(*m) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_KDF_CTX_free(m: V) { unsafe { unbox::<u64>(m) } }
/// injective in any one octet-string parameter of at most 32 bytes
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_KDF_derive(c: *const u64, o: *mut u8, n: usize, p: *const OsslParam) -> c_int {
    unsafe {
        if ORACLE {
            let mut ps: Vec<(Vec<u8>, Vec<u8>)> = copy_params(p).into_iter().map(|q| { let n = q.n; let l = q.key.len() - 1; (q.key[..l].to_vec(), q.v[..n].to_vec()) }).collect();
            let k = kdf_key(*c, &mut ps);
            oracle(k, sm(o, n));
            return 1;
        }
        let mut st = [*c as u8; 32];
        let mut p = p;
        let mut idx = 1u8;
        while !p.is_null() && !(*p).key.is_null() {
            let d = octets(p);
            for (i, b) in d.iter().enumerate() { st[i % 32] = st[i % 32].rotate_left(1) ^ *b; }
            let l = d.len() as u8;
            for x in st.iter_mut() { *x = x.wrapping_add(l.wrapping_mul(idx)); }
            idx = idx.wrapping_add(2);
            p = p.add(1);
        }
        for (i, b) in sm(o, n).iter_mut().enumerate() { *b = st[i % 32] ^ (i / 32) as u8; }
    }
    1
}

fn kdf_id(n: &[u8]) -> u64 { n.len() as u64 * 7 + n[0] as u64 }
/// what a KDF depends on: its parameters, in no order, where they matter
fn kdf_key(id: u64, ps: &mut Vec<(Vec<u8>, Vec<u8>)>) -> Vec<u8> {
    if id == kdf_id(b"HKDF") {
        let mode = ps.iter().find(|q| q.0 == b"mode").map(|q| q.1[0]).unwrap_or(0);
        if mode == 1 { ps.retain(|q| q.0 != b"info"); }
        if mode == 2 { ps.retain(|q| q.0 != b"salt"); }
        // no salt is the same as zeroes, in the key of HMAC
        match ps.iter_mut().find(|q| q.0 == b"salt") {
            Some(q) => if q.1.len() < 64 { q.1.resize(64, 0) },
            None => if mode != 2 { ps.push((b"salt".to_vec(), vec![0; 64])) },
        }
    }
    ps.retain(|q| q.0 != b"info" || !q.1.is_empty());
    ps.sort_by(|a, b| a.0.cmp(&b.0));
    let mut k = vec![3, id as u8, (id >> 8) as u8];
    for (n, v) in ps.iter() {
        k.extend_from_slice(n);
        k.extend_from_slice(&(v.len() as u32).to_le_bytes());
        k.extend_from_slice(v);
    }
    k
}
/// the KDF applied by a harness (oracle mode)
pub fn ref_kdf(n: &[u8], ps: &[(&[u8], &[u8])], out: &mut [u8]) {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = ps.iter().map(|q| (q.0.to_vec(), q.1.to_vec())).collect();
    oracle(kdf_key(kdf_id(n), &mut v), out);
}
/// the digest applied by a harness (oracle mode)
pub fn ref_hash(n: &[u8], msg: &[u8]) -> Vec<u8> {
    let m = md_by_name(n).unwrap();
    let mut k = vec![1, m.id];
    k.extend_from_slice(msg);
    let mut o = vec![0u8; m.size];
    oracle(k, &mut o);
    o
}
/// RFC 2104
pub fn ref_cmac(key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = vec![2, 0x60, key.len() as u8, 0];
    k.extend_from_slice(key);
    k.extend_from_slice(msg);
    let mut o = vec![0u8; 16];
    oracle(k, &mut o);
    o
}
pub fn ref_hmac(n: &[u8], block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { ref_hash(n, key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let h = ref_hash(n, &i);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&h);
    ref_hash(n, &o)
}

// ---------------------------------------------------------------- ciphers
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Ecb, Cbc, Cts, Stream, Gcm, Ccm, Wrap, WrapPad }
#[derive(Clone, Copy)]
pub struct Cipher { mode: Mode, klen: usize, ivlen: usize, bs: usize, id: u8 }
pub struct CCtx {
    c: Option<Cipher>,
    enc: bool,
    keyed: bool,
    key: [u8; 32],
    iv: [u8; 64],
    ivlen: usize,
    chain: [u8; 16],
    buf: [u8; 16],
    blen: usize,
    held: bool,
    hold: [u8; 16],
    pad: bool,
    tag: [u8; 16],
    taglen: usize,
    tagset: bool,
    aad: Mix,
    ct: Mix,
    pos: usize,
    ccm_len: Option<usize>,
    ccm_done: bool,
    updates: u32,
    finished: bool,
    aadm: Vec<u8>,
    ctm: Vec<u8>,
    seal: u32,
    plain: Vec<u8>,
}
fn cipher_by_name(n: &[u8]) -> Option<Cipher> {
    let u: Vec<u8> = n.to_ascii_uppercase();
    if u.starts_with(b"CHACHA20") {
        return Some(Cipher { mode: if u.len() > 8 { Mode::Gcm } else { Mode::Stream }, klen: 32, ivlen: if u.len() > 8 { 12 } else { 16 }, bs: 1, id: 99 });
    }
    if u.len() < 11 || &u[0..4] != b"AES-" { return None; }
    let klen = match &u[4..7] { b"128" => 16, b"192" => 24, b"256" => 32, _ => return None };
    let (mode, ivlen, bs, id) = match &u[8..] {
        b"ECB" => (Mode::Ecb, 0, 16, 1),
        b"CBC" => (Mode::Cbc, 16, 16, 2),
        b"CBC-CTS" => (Mode::Cts, 16, 16, 3),
        b"CTR" => (Mode::Stream, 16, 1, 4),
        b"CFB" => (Mode::Stream, 16, 1, 5),
        b"CFB8" => (Mode::Stream, 16, 1, 6),
        b"CFB1" => (Mode::Stream, 16, 1, 7),
        b"OFB" => (Mode::Stream, 16, 1, 8),
        b"GCM" => (Mode::Gcm, 12, 1, 9),
        b"CCM" => (Mode::Ccm, 12, 1, 10),
        b"WRAP" => (Mode::Wrap, 8, 8, 11),
        b"WRAP-PAD" => (Mode::WrapPad, 4, 8, 12),
        _ => return None,
    };
    Some(Cipher { mode, klen, ivlen, bs, id })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_fetch(_c: V, n: *const c_char, _p: *const c_char) -> V {
    match cipher_by_name(unsafe { name(n) }) { Some(c) => boxed(c), None => std::ptr::null_mut() }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_free(m: V) { unsafe { unbox::<Cipher>(m) } }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_CIPHER_CTX_new() -> V {
    boxed(CCtx {
        c: None, enc: true, keyed: false, key: [0; 32], iv: [0; 64], ivlen: 0, chain: [0; 16], buf: [0; 16], blen: 0,
        held: false, hold: [0; 16], pad: true, tag: [0; 16], taglen: 0, tagset: false, aad: Mix::new(1), ct: Mix::new(2),
        pos: 0, ccm_len: None, ccm_done: false, updates: 0, finished: false, aadm: vec![], ctm: vec![], seal: 0, plain: vec![],
    })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_CTX_free(m: V) { unsafe { unbox::<CCtx>(m) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_CTX_get_iv_length(c: *const CCtx) -> c_int {
    unsafe { if (*c).ivlen != 0 { (*c).ivlen as c_int } else { (*c).c.map_or(0, |x| x.ivlen) as c_int } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_CTX_get_block_size(c: *const CCtx) -> c_int {
    unsafe { (*c).c.map_or(0, |x| if x.mode == Mode::Cts { 16 } else { x.bs }) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_CTX_set_padding(c: *mut CCtx, p: c_int) -> c_int {
    unsafe { (*c).pad = p != 0; }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CipherInit_ex2(c: *mut CCtx, ci: *const Cipher, k: *const u8, iv: *const u8, enc: c_int, _p: *const OsslParam) -> c_int {
    unsafe {
        let c = &mut *c;
        if !ci.is_null() { c.c = Some(*ci); c.ivlen = (*ci).ivlen; }
        if enc >= 0 { c.enc = enc == 1; }
        let ci = match c.c { Some(x) => x, None => return 0 };
        if !k.is_null() {
            c.key[..ci.klen].copy_from_slice(s(k, ci.klen));
            c.keyed = true;
        }
        if !iv.is_null() {
            let n = c.ivlen.min(64);
            c.iv[..n].copy_from_slice(s(iv, n));
            c.chain[..n.min(16)].copy_from_slice(&c.iv[..n.min(16)]);
        }
        if !k.is_null() || !iv.is_null() {
            c.blen = 0; c.held = false; c.pos = 0; c.updates = 0; c.finished = false; c.ccm_done = false;
            c.aad = Mix::new(1); c.ct = Mix::new(2); c.aadm.clear(); c.ctm.clear(); c.seal = 0; c.plain.clear();
        }
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CIPHER_CTX_ctrl(c: *mut CCtx, op: c_int, n: c_int, p: *mut u8) -> c_int {
    unsafe {
        let c = &mut *c;
        let mode = match c.c { Some(x) => x.mode, None => return 0 };
        if mode != Mode::Gcm && mode != Mode::Ccm { return 0; }
        match op {
            9 => { // SET_IVLEN
                if n <= 0 || n > 64 { return 0; }
                if mode == Mode::Ccm && !(7..=13).contains(&n) { return 0; }
                c.ivlen = n as usize;
                1
            }
            17 => { // SET_TAG
                if n <= 0 || n > 16 { return 0; }
                if mode == Mode::Ccm && (n < 4 || n % 2 != 0) { return 0; }
                c.taglen = n as usize;
                if !p.is_null() {
                    if c.enc { return 0; }
                    c.tag[..n as usize].copy_from_slice(s(p, n as usize));
                    c.tagset = true;
                }
                1
            }
            16 => { // GET_TAG
                if n <= 0 || n > 16 || !c.enc || !c.finished || (mode == Mode::Ccm && !c.ccm_done) { return 0; }
                let t = c.mktag();
                sm(p, n as usize).copy_from_slice(&t[..n as usize]);
                1
            }
            _ => 0,
        }
    }
}
impl CCtx {
    fn ks(&self, i: usize) -> u8 {
        let k = self.c.map_or(16, |x| x.klen);
        let id = self.c.map_or(0, |x| x.id);
        self.key[i % k] ^ self.iv[i % self.ivlen.max(1)] ^ (i as u8).wrapping_mul(7) ^ 0x5a ^ id
    }
    fn eblk(&self, b: &[u8; 16]) -> [u8; 16] {
        let k = self.c.map_or(16, |x| x.klen);
        let mut o = [0u8; 16];
        if unsafe { BLOCK_ORACLE } {
            let mut q = vec![0x90];
            q.extend_from_slice(&self.key[..k]);
            q.extend_from_slice(b);
            oracle(q, &mut o);
            return o;
        }
        for i in 0..16 { o[i] = (b[i] ^ self.key[i] ^ self.key[(i + 16) % k]).rotate_left(3).wrapping_add(i as u8); }
        o
    }
    fn dblk(&self, b: &[u8; 16]) -> [u8; 16] {
        let k = self.c.map_or(16, |x| x.klen);
        let mut o = [0u8; 16];
        for i in 0..16 { o[i] = b[i].wrapping_sub(i as u8).rotate_right(3) ^ self.key[i] ^ self.key[(i + 16) % k]; }
        o
    }
    fn block(&mut self, b: [u8; 16]) -> [u8; 16] {
        let cbc = self.c.map_or(false, |x| x.mode == Mode::Cbc || x.mode == Mode::Cts);
        if self.enc {
            let mut x = b;
            if cbc { for i in 0..16 { x[i] ^= self.chain[i]; } }
            let o = self.eblk(&x);
            if cbc { self.chain = o; }
            o
        } else {
            let mut o = self.dblk(&b);
            if cbc { for i in 0..16 { o[i] ^= self.chain[i]; } self.chain = b; }
            o
        }
    }
    /// the box these inputs open, if any
    fn unseal(&self, whole: bool) -> Option<&'static Sealed> {
        let k = self.c.map_or(16, |x| x.klen);
        let all: &'static Vec<Sealed> = unsafe { &*std::ptr::addr_of!(SEALS) };
        for x in all.iter() {
            let n = self.ctm.len();
            if n > x.ct.len() || (whole && n != x.ct.len()) { continue; }
            if x.key.len() != k || x.iv.len() != self.ivlen.min(64) || x.aad.len() != self.aadm.len() { continue; }
            let mut d = 0u8;
            for i in 0..n { d |= x.ct[i] ^ self.ctm[i]; }
            for i in 0..k { d |= x.key[i] ^ self.key[i]; }
            for i in 0..x.iv.len() { d |= x.iv[i] ^ self.iv[i]; }
            for i in 0..x.aad.len() { d |= x.aad[i] ^ self.aadm[i]; }
            if d == 0 { return Some(x); }
        }
        None
    }
    fn mktag(&self) -> [u8; 16] {
        let k = self.c.map_or(16, |x| x.klen);
        let mut a = [0u8; 16];
        let mut t = [0u8; 16];
        if unsafe { SEAL } && self.c.map_or(false, |x| x.mode == Mode::Gcm) {
            for i in 0..16 { t[i] = seal_byte(self.seal, 0x80 + i); }
            return t;
        }
        if unsafe { ORACLE } {
            let mut m = vec![4, k as u8, self.ivlen as u8, self.aadm.len() as u8, (self.aadm.len() >> 8) as u8];
            m.extend_from_slice(&self.key[..k]);
            m.extend_from_slice(&self.iv[..self.ivlen.min(64)]);
            m.extend_from_slice(&self.aadm);
            m.extend_from_slice(&self.ctm);
            oracle(m, &mut t);
            return t;
        }
        self.aad.out(&mut a);
        self.ct.out(&mut t);
        for i in 0..16 {
            t[i] ^= a[i].rotate_left(1) ^ self.key[i] ^ self.key[(i + 16) % k].rotate_left(4) ^ self.iv[i % self.ivlen.max(1)] ^ 0xc3;
        }
        t
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CipherUpdate(c: *mut CCtx, o: *mut u8, on: *mut c_int, d: *const u8, n: c_int) -> c_int {
    unsafe {
        let c = &mut *c;
        let ci = match c.c { Some(x) if c.keyed => x, _ => return 0 };
        if n < 0 { return 0; }
        let n = n as usize;
        *on = 0;
        match ci.mode {
            Mode::Gcm | Mode::Ccm if o.is_null() => {
                if d.is_null() {
                    if ci.mode == Mode::Ccm { c.ccm_len = Some(n); *on = n as c_int; return 1; }
                    return if n == 0 { 1 } else { 0 };
                }
                if ORACLE || SEAL { c.aadm.extend_from_slice(s(d, n)); } else { c.aad.absorb(s(d, n)); }
                *on = n as c_int;
                1
            }
            Mode::Stream | Mode::Gcm | Mode::Ccm => {
                if ci.mode == Mode::Ccm {
                    // one update only, of the announced length
                    if c.ccm_done || c.ccm_len != Some(n) { return 0; }
                    if !c.enc && !c.tagset { return 0; }
                    c.ccm_done = true;
                }
                let mut tmp = vec![0u8; n];
                tmp.copy_from_slice(s(d, n));
                if SEAL && ci.mode == Mode::Gcm {
                    if c.enc {
                        if c.seal == 0 { SEAL_CTR += 1; c.seal = SEAL_CTR; }
                        c.plain.extend_from_slice(&tmp);
                        for (i, b) in tmp.iter_mut().enumerate() { *b = seal_byte(c.seal, c.pos + i); }
                        c.ctm.extend_from_slice(&tmp);
                    } else {
                        c.ctm.extend_from_slice(&tmp);
                        let pos = c.pos;
                        match c.unseal(false) {
                            Some(x) => { c.seal = x.id; tmp.copy_from_slice(&x.pt[pos..pos + n]); }
                            None => { c.seal = 0; tmp.fill(0); }
                        }
                    }
                    c.pos += n;
                    sm(o, n).copy_from_slice(&tmp);
                    *on = n as c_int;
                    return 1;
                }
                if !c.enc { if ORACLE { c.ctm.extend_from_slice(&tmp); } else { c.ct.absorb(&tmp); } }
                if ci.mode == Mode::Ccm && !c.enc {
                    let t = c.mktag();
                    let mut diff = 0u8;
                    for i in 0..c.taglen { diff |= t[i] ^ c.tag[i]; }
                    if diff != 0 { return 0; }
                }
                for (i, b) in tmp.iter_mut().enumerate() {
                    let k = c.ks(c.pos + i);
                    *b = if CIPHER_OPAQUE && c.enc { k } else { *b ^ k };
                }
                c.pos += n;
                if c.enc { if ORACLE { c.ctm.extend_from_slice(&tmp); } else { c.ct.absorb(&tmp); } }
                sm(o, n).copy_from_slice(&tmp);
                *on = n as c_int;
                1
            }
            Mode::Ecb | Mode::Cbc => {
                // (the input is read as the output is written, as libcrypto does)
                let mut w = 0usize;
                let mut i = 0usize;
                if !c.enc && c.pad && c.held && n > 0 {
                    // the block held back last time is now known not to be the final one
                    sm(o, 16).copy_from_slice(&c.hold);
                    w = 16;
                    c.held = false;
                }
                while i < n {
                    let take = (16 - c.blen).min(n - i);
                    for j in 0..take { c.buf[c.blen + j] = *d.add(i + j); }
                    c.blen += take;
                    i += take;
                    if c.blen == 16 {
                        let b = c.buf;
                        let r = c.block(b);
                        c.blen = 0;
                        if !c.enc && c.pad && i == n {
                            c.hold = r;
                            c.held = true;
                        } else {
                            sm(o.add(w), 16).copy_from_slice(&r);
                            w += 16;
                        }
                    }
                }
                *on = w as c_int;
                1
            }
            Mode::Cts => {
                // OpenSSL: one update, at least one block
                if n < 16 || c.updates > 0 { return 0; }
                c.updates = 1;
                let inp: Vec<u8> = s(d, n).to_vec();
                let out = sm(o, n);
                for i in 0..n { out[i] = inp[i] ^ c.ks(i); }
                *on = n as c_int;
                1
            }
            Mode::Wrap | Mode::WrapPad => {
                if o.is_null() { return 0; }
                let inp: Vec<u8> = s(d, n).to_vec();
                if c.enc {
                    let plen = if ci.mode == Mode::Wrap { if n % 8 != 0 || n < 16 { return 0; } n } else { if n == 0 { return 0; } (n + 7) / 8 * 8 };
                    let out = sm(o, plen + 8);
                    let mut chk = 0xa6u8;
                    for i in 0..plen {
                        let b = if i < n { inp[i] } else { 0 };
                        chk = chk.rotate_left(1) ^ b;
                        out[8 + i] = b ^ c.ks(i);
                    }
                    chk = chk.rotate_left(1) ^ n as u8;
                    for i in 0..8 { out[i] = chk ^ c.key[i] ^ (i as u8); }
                    out[7] = c.key[7] ^ (n as u8) ^ 0x77;
                    out[6] = c.key[6] ^ ((n >> 8) as u8) ^ 0x55;
                    *on = (plen + 8) as c_int;
                } else {
                    if n < 16 || n % 8 != 0 || (ci.mode == Mode::Wrap && n < 24) { return 0; }
                    let plen = n - 8;
                    let mut tmp = vec![0u8; plen];
                    let mut chk = 0xa6u8;
                    for i in 0..plen { tmp[i] = inp[8 + i] ^ c.ks(i); chk = chk.rotate_left(1) ^ tmp[i]; }
                    let mut diff = 0u8;
                    let l = (inp[7] ^ c.key[7] ^ 0x77) as usize | ((inp[6] ^ c.key[6] ^ 0x55) as usize) << 8;
                    chk = chk.rotate_left(1) ^ l as u8;
                    for i in 0..6 { diff |= inp[i] ^ chk ^ c.key[i] ^ (i as u8); }
                    if diff != 0 || l > plen || l + 8 <= plen || (ci.mode == Mode::Wrap && l != plen) { return 0; }
                    sm(o, plen).copy_from_slice(&tmp);
                    *on = l as c_int;
                }
                1
            }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_CipherFinal_ex(c: *mut CCtx, o: *mut u8, on: *mut c_int) -> c_int {
    unsafe {
        let c = &mut *c;
        let ci = match c.c { Some(x) if c.keyed => x, _ => return 0 };
        *on = 0;
        match ci.mode {
            Mode::Stream | Mode::Wrap | Mode::WrapPad | Mode::Cts | Mode::Ccm => { c.finished = true; 1 }
            Mode::Gcm => {
                c.finished = true;
                if SEAL && c.enc && RNG_WATCH { watch_iv(&c.iv[..c.ivlen.min(64)], &c.aadm); }
                if SEAL && c.enc {
                    if c.seal == 0 { SEAL_CTR += 1; c.seal = SEAL_CTR; }
                    SEALS.push(Sealed { key: c.key[..ci.klen].to_vec(), iv: c.iv[..c.ivlen.min(64)].to_vec(), aad: c.aadm.clone(), ct: c.ctm.clone(), pt: c.plain.clone(), id: c.seal });
                }
                if SEAL && !c.enc {
                    match c.unseal(true) { Some(x) => c.seal = x.id, None => return 0 }
                }
                if !c.enc {
                    if !c.tagset { return 0; }
                    let t = c.mktag();
                    let mut diff = 0u8;
                    for i in 0..c.taglen { diff |= t[i] ^ c.tag[i]; }
                    if diff != 0 { return 0; }
                }
                1
            }
            Mode::Ecb | Mode::Cbc => {
                c.finished = true;
                if !c.pad { return if c.blen == 0 { 1 } else { 0 }; }
                if c.enc {
                    let p = 16 - c.blen;
                    for i in c.blen..16 { c.buf[i] = p as u8; }
                    let b = c.buf;
                    let r = c.block(b);
                    sm(o, 16).copy_from_slice(&r);
                    c.blen = 0;
                    *on = 16;
                    1
                } else {
                    if c.blen != 0 || !c.held { return 0; }
                    let p = c.hold[15] as usize;
                    if p == 0 || p > 16 { return 0; }
                    let mut bad = 0u8;
                    for i in 0..16 { if i >= 16 - p { bad |= c.hold[i] ^ p as u8; } }
                    if bad != 0 { return 0; }
                    sm(o, 16 - p).copy_from_slice(&c.hold[..16 - p]);
                    c.held = false;
                    *on = (16 - p) as c_int;
                    1
                }
            }
        }
    }
}

// ---------------------------------------------------------------- PKEY
pub struct Pkey { ty: [u8; 16], params: Vec<OwnedParam>, refs: usize }
pub struct PkeyCtx { ty: [u8; 16], pkey: *mut Pkey, gen_group: Vec<u8>, bits: usize, peer: *mut Pkey, sp: SigP }
fn tyname(n: &[u8]) -> [u8; 16] {
    let mut t = [0u8; 16];
    for (i, b) in n.iter().enumerate() { if i < 15 { t[i] = *b; } }
    t
}
impl Pkey {
    fn get(&self, k: &[u8]) -> Option<&OwnedParam> {
        self.params.iter().find(|p| &p.key[..p.key.len() - 1] == k)
    }
    fn size(&self) -> usize {
        if let Some(p) = self.get(b"n") { return p.n; }
        if self.ty[..2] == *b"DH" { return unsafe { DH_SIZE }; }
        match self.flen() { 48 => 104, 66 => 139, _ => 72 }
    }
    /// size of an EC field element
    fn flen(&self) -> usize {
        match self.get(b"group").map(|g| &g.v[..g.n]) { Some(b"P-384") | Some(b"secp384r1") => 48, Some(b"P-521") | Some(b"secp521r1") => 66, _ => 32 }
    }
    /// what the two halves of a key have in common. By convention the private EC value
    /// is one repeated byte, and x starts with that byte
    fn id(&self) -> Vec<u8> {
        if let Some(p) = self.get(b"n") { return p.v[..p.n].to_vec(); }
        if let Some(p) = self.get(b"priv") { return vec![7, p.v[p.n / 2]]; }
        match self.get(b"pub") { Some(p) => vec![7, p.v[p.n - 1]], None => vec![8] }
    }
    fn is_ec(&self) -> bool { self.ty[..3] == *b"EC\0" }
    fn mixkey(&self, m: &mut Mix) {
        // the public part only, so that verification agrees with signing
        if let Some(p) = self.get(b"n").or(if self.is_ec() { None } else { self.get(b"pub") }) { m.absorb(&p.v[..p.n]); }
    }
}
unsafe fn pkey_unref(p: *mut Pkey) {
    unsafe {
        if p.is_null() { return; }
        (*p).refs -= 1;
        if (*p).refs == 0 { unbox::<Pkey>(p as V); }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_CTX_new_from_name(_c: V, n: *const c_char, _p: *const c_char) -> V {
    unsafe { boxed(PkeyCtx { ty: tyname(name(n)), pkey: std::ptr::null_mut(), gen_group: vec![], bits: 2048, peer: std::ptr::null_mut(), sp: SigP::new() }) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_CTX_new_from_pkey(_c: V, k: *mut Pkey, _p: *const c_char) -> V {
    unsafe {
        (*k).refs += 1;
        boxed(PkeyCtx { ty: (*k).ty, pkey: k, gen_group: vec![], bits: 0, peer: std::ptr::null_mut(), sp: SigP::new() })
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_CTX_free(c: *mut PkeyCtx) {
    unsafe {
        if c.is_null() { return; }
        pkey_unref((*c).pkey);
        pkey_unref((*c).peer);
        unbox::<PkeyCtx>(c as V);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_up_ref(k: *mut Pkey) -> c_int { unsafe { (*k).refs += 1; } 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_free(k: *mut Pkey) { unsafe { pkey_unref(k) } }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_PKEY_fromdata_init(_c: V) -> c_int { 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_fromdata(c: *mut PkeyCtx, out: *mut *mut Pkey, _sel: c_int, p: *const OsslParam) -> c_int {
    unsafe { *out = boxed(Pkey { ty: (*c).ty, params: copy_params(p), refs: 1 }) as *mut Pkey; }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_export(k: *const Pkey, sel: c_int, cb: Option<unsafe extern "C" fn(*mut OsslParam, V) -> c_int>, arg: V) -> c_int {
    unsafe {
        let k = &*k;
        let mut v: Vec<OsslParam> = vec![];
        for p in &k.params {
            let kn = &p.key[..p.key.len() - 1];
            let public = matches!(kn, b"n" | b"e" | b"pub" | b"group" | b"p" | b"q" | b"g");
            if !public && sel & 0x01 == 0 { continue; }
            v.push(OsslParam { key: p.key.as_ptr() as *const c_char, data_type: p.t, data: p.v.as_ptr() as V, data_size: p.n, return_size: UNMOD });
        }
        v.push(OSSL_PARAM_construct_end());
        match cb { Some(f) => f(v.as_mut_ptr(), arg), None => 0 }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_get_params(k: *const Pkey, p: *mut OsslParam) -> c_int {
    unsafe {
        let mut p = p;
        while !p.is_null() && !(*p).key.is_null() {
            if let Some(o) = (*k).get(name((*p).key)) {
                (*p).return_size = o.n;
                if !(*p).data.is_null() {
                    if (*p).data_size < o.n { return 0; }
                    std::ptr::copy_nonoverlapping(o.v.as_ptr(), (*p).data as *mut u8, o.n);
                    if o.t == 4 && o.n < (*p).data_size { *((*p).data as *mut u8).add(o.n) = 0; }
                }
            }
            p = p.add(1);
        }
        1
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_get0_type_name(k: *const Pkey) -> *const c_char { unsafe { (*k).ty.as_ptr() as *const c_char } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_get_bits(k: *const Pkey) -> c_int {
    unsafe { match (*k).get(b"n") { Some(p) => p.n as c_int * 8, None => match (*k).flen() { 66 => 521, l => l as c_int * 8 } } }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_get_size(k: *const Pkey) -> c_int { unsafe { (*k).size() as c_int } }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_PKEY_keygen_init(_c: V) -> c_int { 1 }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_PKEY_paramgen_init(_c: V) -> c_int { 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_CTX_set_params(c: *mut PkeyCtx, p: *const OsslParam) -> c_int {
    unsafe {
        (*c).sp.take(p);
        let mut p = p;
        while !p.is_null() && !(*p).key.is_null() {
            match name((*p).key) {
                b"bits" => if let Some(x) = num(p) { (*c).bits = x as usize },
                b"group" => (*c).gen_group = octets(p).to_vec(),
                _ => (),
            }
            p = p.add(1);
        }
    }
    1
}
fn op(key: &[u8], t: c_uint, mut v: Vec<u8>) -> OwnedParam {
    let n = v.len();
    if t == T_UTF8 { v.push(0); }
    let mut k = key.to_vec();
    k.push(0);
    OwnedParam { key: k, t, v, n }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_generate(c: *mut PkeyCtx, out: *mut *mut Pkey) -> c_int {
    unsafe {
        let c = &*c;
        RNG_CTR += 1;
        let z = (RNG_CTR as u8) | 0x81;
        let mut params = vec![];
        if &c.ty[..3] == b"RSA" {
            let n = c.bits / 8;
            // native (little endian) unsigned integers
            params.push(op(b"n", T_UINT, vec![z; n]));
            params.push(op(b"e", T_UINT, vec![1, 0, 1]));
            params.push(op(b"d", T_UINT, vec![z ^ 2; n]));
            for k in [&b"rsa-factor1"[..], b"rsa-factor2", b"rsa-exponent1", b"rsa-exponent2", b"rsa-coefficient1"] {
                params.push(op(k, T_UINT, vec![z ^ 4; n / 2]));
            }
        } else {
            let mut pb = vec![z; 65];
            pb[0] = 4;
            params.push(op(b"group", T_UTF8, c.gen_group.clone()));
            if &c.ty[..2] == b"DH" { params.push(op(b"pub", T_UINT, vec![z; DH_SIZE])); } else { params.push(op(b"pub", T_OCTET, pb)); }
            params.push(op(b"priv", T_UINT, vec![z ^ 8; 32]));
        }
        *out = boxed(Pkey { ty: c.ty, params, refs: 1 }) as *mut Pkey;
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_encrypt_init_ex(c: *mut PkeyCtx, p: *const OsslParam) -> c_int { unsafe { (*c).sp = SigP::new(); (*c).sp.take(p); } 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_decrypt_init_ex(c: *mut PkeyCtx, p: *const OsslParam) -> c_int { unsafe { (*c).sp = SigP::new(); (*c).sp.take(p); } 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_sign_init(c: *mut PkeyCtx) -> c_int { unsafe { (*c).sp = SigP::new(); } 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_verify_init(c: *mut PkeyCtx) -> c_int { unsafe { (*c).sp = SigP::new(); } 1 }
#[unsafe(no_mangle)]
pub extern "C" fn EVP_PKEY_derive_init(_c: V) -> c_int { 1 }

/// padding parameters of an RSA operation
#[derive(Clone)]
pub struct SigP { pub pad: u8, pub md: u8, pub mgf: u8, pub salt: i64, pub label: Vec<u8> }
impl SigP {
    pub fn new() -> SigP { SigP { pad: 1, md: 0, mgf: 0, salt: -2, label: vec![] } }
    unsafe fn take(&mut self, p: *const OsslParam) {
        unsafe {
            let mut p = p;
            while !p.is_null() && !(*p).key.is_null() {
                match name((*p).key) {
                    b"pad-mode" => self.pad = match name((*p).data as *const c_char) { b"pkcs1" => 1, b"none" => 2, b"oaep" => 3, b"pss" => 4, _ => 9 },
                    b"digest" => self.md = md_by_name(name((*p).data as *const c_char)).map_or(99, |m| m.id),
                    b"mgf1-digest" => self.mgf = md_by_name(name((*p).data as *const c_char)).map_or(99, |m| m.id),
                    b"saltlen" => self.salt = num(p).map_or(-9, |x| x as i32 as i64),
                    b"oaep-label" => self.label = octets(p).to_vec(),
                    _ => (),
                }
                p = p.add(1);
            }
        }
    }
    fn key(&self, kind: u8, id: &[u8], data: &[u8]) -> Vec<u8> {
        let mut k = vec![kind, self.pad];
        // parameters without effect for the padding are left out
        if self.pad == 3 || self.pad == 4 { k.extend_from_slice(&[self.md, if self.mgf == 0 { self.md } else { self.mgf }]); } else { k.push(self.md); }
        if self.pad == 4 { k.extend_from_slice(&self.salt.to_le_bytes()); }
        if self.pad == 3 { k.push(self.label.len() as u8); k.extend_from_slice(&self.label); }
        k.push(id.len() as u8);
        k.extend_from_slice(id);
        k.extend_from_slice(data);
        k
    }
}
fn md_size(id: u8) -> usize { [20, 20, 28, 32, 48, 64, 28, 32, 28, 32, 48, 64][id as usize % 12] }
pub fn md_id(n: &[u8]) -> u8 { md_by_name(n).map_or(0, |m| m.id) }
/// reference: signature of libcrypto with these parameters. pre: over a digest already made
pub fn ref_sign(p: &SigP, pre: bool, id: &[u8], data: &[u8], out: &mut [u8]) { oracle(p.key(0x70 + pre as u8, id, data), out); }
/// shape of the two integers of an EC signature: leading zero bytes, top bit of the first other byte
pub static mut EC_SHAPE: [(usize, bool); 2] = [(0, false); 2];
pub fn ec_shape(flen: usize, b: &mut [u8]) {
    for h in 0..2 {
        let (z, top) = unsafe { EC_SHAPE[h] };
        let b = &mut b[h * flen..][..flen];
        for x in b[..z].iter_mut() { *x = 0; }
        b[z] = if flen == 66 && z == 0 { 1 } else if top { b[z] | 0x80 } else { b[z] & 0x7f | 1 };
    }
}
fn der_int(b: &[u8], o: &mut Vec<u8>) {
    let z = b.iter().take_while(|x| **x == 0).count().min(b.len() - 1);
    let pad = b[z] & 0x80 != 0;
    o.push(2);
    o.push((b.len() - z) as u8 + pad as u8);
    if pad { o.push(0); }
    o.extend_from_slice(&b[z..]);
}
/// the integers of a strictly encoded EC signature
fn der_sig(d: &[u8], flen: usize) -> Option<Vec<u8>> {
    if d.len() < 2 || d[0] != 0x30 { return None; }
    let (n, mut p) = if d[1] == 0x81 { (d[2] as usize, 3) } else { (d[1] as usize, 2) };
    if d.len() != p + n || (d[1] == 0x81 && n < 0x80) { return None; }
    let mut o = vec![0u8; 2 * flen];
    for h in 0..2 {
        if d.len() < p + 3 || d[p] != 2 { return None; }
        let l = d[p + 1] as usize;
        p += 2;
        if l == 0 || p + l > d.len() { return None; }
        let mut v = &d[p..p + l];
        p += l;
        if v[0] & 0x80 != 0 { return None; }
        if v.len() > 1 && v[0] == 0 {
            if v[1] & 0x80 == 0 { return None; }
            v = &v[1..];
        }
        if v.len() > flen { return None; }
        o[(h + 1) * flen - v.len()..(h + 1) * flen].copy_from_slice(v);
    }
    if p == d.len() { Some(o) } else { None }
}
unsafe fn osign(k: *const Pkey, key: Vec<u8>, sig: *mut u8, n: *mut usize) -> c_int {
    unsafe {
        let sz = (*k).size();
        if sig.is_null() { *n = sz; return 1; }
        if (*k).is_ec() {
            let l = (*k).flen();
            let mut b = vec![0u8; 2 * l];
            oracle(key, &mut b);
            ec_shape(l, &mut b);
            let mut body = vec![];
            der_int(&b[..l], &mut body);
            der_int(&b[l..], &mut body);
            let mut d = vec![0x30];
            if body.len() >= 0x80 { d.push(0x81); }
            d.push(body.len() as u8);
            d.extend_from_slice(&body);
            if *n < d.len() { return 0; }
            sm(sig, d.len()).copy_from_slice(&d);
            *n = d.len();
        } else {
            if *n < sz { return 0; }
            oracle(key, sm(sig, sz));
            *n = sz;
        }
        1
    }
}
unsafe fn overify(k: *const Pkey, key: Vec<u8>, sig: *const u8, n: usize) -> c_int {
    unsafe {
        let sig = s(sig, n);
        let (want, got) = if (*k).is_ec() {
            let l = (*k).flen();
            let mut b = vec![0u8; 2 * l];
            oracle(key, &mut b);
            ec_shape(l, &mut b);
            match der_sig(sig, l) { Some(g) => (b, g), None => return 0 }
        } else {
            if n != (*k).size() { return 0; }
            let mut b = vec![0u8; n];
            oracle(key, &mut b);
            (b, sig.to_vec())
        };
        let mut d = 0u8;
        for (a, b) in want.iter().zip(got.iter()) { d |= a ^ b; }
        if d == 0 { 1 } else { 0 }
    }
}
/// RSA encryptions made: parameters and key, ciphertext, plaintext
static mut RSA_CT: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = Vec::new();
pub fn ref_rsa_enc(p: &SigP, id: &[u8], pt: &[u8], out: &mut [u8]) { oracle(p.key(0x73, id, pt), out); }
unsafe fn toysig(k: *const Pkey, mix: &Mix, out: &mut [u8]) {
    unsafe {
        let mut m = mix.clone();
        (*k).mixkey(&mut m);
        m.out(out);
    }
}
/// DER SEQUENCE of two 32 byte integers (their top bits are clear)
unsafe fn dersig(k: *const Pkey, mix: &Mix) -> Vec<u8> {
    unsafe {
        let mut v = vec![0x30, 68, 2, 32];
        let mut b = [0u8; 64];
        toysig(k, mix, &mut b);
        b[0] = b[0] & 0x7f | 0x40;
        b[32] = b[32] & 0x7f | 0x40;
        v.extend_from_slice(&b[..32]);
        v.extend_from_slice(&[2, 32]);
        v.extend_from_slice(&b[32..]);
        v
    }
}
unsafe fn sign_common(k: *const Pkey, mix: &Mix, sig: *mut u8, n: *mut usize) -> c_int {
    unsafe {
        let sz = (*k).size();
        if (*k).is_ec() {
            if sig.is_null() { *n = sz; return 1; }
            let d = dersig(k, mix);
            if *n < d.len() { return 0; }
            sm(sig, d.len()).copy_from_slice(&d);
            *n = d.len();
            return 1;
        }
        if sig.is_null() { *n = sz; return 1; }
        if *n < sz { return 0; }
        toysig(k, mix, sm(sig, sz));
        *n = sz;
        1
    }
}
unsafe fn verify_common(k: *const Pkey, mix: &Mix, sig: *const u8, n: usize) -> c_int {
    unsafe {
        let mut want = vec![0u8; (*k).size()];
        if (*k).is_ec() { want = dersig(k, mix); } else { toysig(k, mix, &mut want); }
        if n != want.len() { return 0; }
        let mut d = 0u8;
        for (a, b) in want.iter().zip(s(sig, n)) { d |= a ^ b; }
        if d == 0 { 1 } else { 0 }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_sign(c: *mut PkeyCtx, sig: *mut u8, n: *mut usize, d: *const u8, dn: usize) -> c_int {
    unsafe {
        if ORACLE { return osign((*c).pkey, (*c).sp.key(0x71, &(*(*c).pkey).id(), s(d, dn)), sig, n); }
        let mut m = Mix::new(0x33);
        m.absorb(s(d, dn));
        sign_common((*c).pkey, &m, sig, n)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_verify(c: *mut PkeyCtx, sig: *const u8, n: usize, d: *const u8, dn: usize) -> c_int {
    unsafe {
        if ORACLE { return overify((*c).pkey, (*c).sp.key(0x71, &(*(*c).pkey).id(), s(d, dn)), sig, n); }
        let mut m = Mix::new(0x33);
        m.absorb(s(d, dn));
        verify_common((*c).pkey, &m, sig, n)
    }
}
unsafe fn dsv_init(c: *mut MdCtx, n: *const c_char, k: *mut Pkey, p: *const OsslParam) -> c_int {
    unsafe {
        (*c).sp = SigP::new();
        (*c).sp.take(p);
        (*c).md = if n.is_null() { None } else { md_by_name(name(n)) };
        (*c).mix = Mix::new(0x40 + (*c).md.map_or(0, |m| m.id));
        (*c).msg.clear();
        (*c).done = false;
        (*c).pkey = k;
        // the digest is the one given by name
        let id = (*c).md.map_or(0, |m| m.id);
        if (*c).sp.md != 0 && (*c).sp.md != id { return 0; }
        (*c).sp.md = id;
    }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestSignInit_ex(c: *mut MdCtx, _pc: *mut V, n: *const c_char, _l: V, _p: *const c_char, k: *mut Pkey, q: *const OsslParam) -> c_int {
    unsafe { dsv_init(c, n, k, q) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestVerifyInit_ex(c: *mut MdCtx, _pc: *mut V, n: *const c_char, _l: V, _p: *const c_char, k: *mut Pkey, q: *const OsslParam) -> c_int {
    unsafe { dsv_init(c, n, k, q) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestSignUpdate(c: *mut MdCtx, d: *const u8, n: usize) -> c_int { unsafe { if ORACLE { (*c).msg.extend_from_slice(s(d, n)); return 1; } (*c).mix.absorb(s(d, n)); } 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestVerifyUpdate(c: *mut MdCtx, d: *const u8, n: usize) -> c_int { unsafe { if ORACLE { (*c).msg.extend_from_slice(s(d, n)); return 1; } (*c).mix.absorb(s(d, n)); } 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestSignFinal(c: *mut MdCtx, sig: *mut u8, n: *mut usize) -> c_int {
    unsafe { if ORACLE { return osign((*c).pkey, (*c).sp.key(0x70, &(*(*c).pkey).id(), &(*c).msg), sig, n); } let m = (*c).mix.clone(); sign_common((*c).pkey, &m, sig, n) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestSign(c: *mut MdCtx, sig: *mut u8, n: *mut usize, d: *const u8, dn: usize) -> c_int {
    unsafe {
        if ORACLE {
            let mut v = (*c).msg.clone();
            v.extend_from_slice(s(d, dn));
            return osign((*c).pkey, (*c).sp.key(0x70, &(*(*c).pkey).id(), &v), sig, n);
        }
        let mut m = (*c).mix.clone();
        m.absorb(s(d, dn));
        sign_common((*c).pkey, &m, sig, n)
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestVerifyFinal(c: *mut MdCtx, sig: *const u8, n: usize) -> c_int {
    unsafe { if ORACLE { return overify((*c).pkey, (*c).sp.key(0x70, &(*(*c).pkey).id(), &(*c).msg), sig, n); } let m = (*c).mix.clone(); verify_common((*c).pkey, &m, sig, n) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_DigestVerify(c: *mut MdCtx, sig: *const u8, n: usize, d: *const u8, dn: usize) -> c_int {
    unsafe {
        if ORACLE {
            let mut v = (*c).msg.clone();
            v.extend_from_slice(s(d, dn));
            return overify((*c).pkey, (*c).sp.key(0x70, &(*(*c).pkey).id(), &v), sig, n);
        }
        let mut m = (*c).mix.clone();
        m.absorb(s(d, dn));
        verify_common((*c).pkey, &m, sig, n)
    }
}
/// toy RSA transport: out = 0x02 | len(2) | message ^ 0x3c, padded with the modulus byte
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_encrypt(c: *mut PkeyCtx, o: *mut u8, n: *mut usize, d: *const u8, dn: usize) -> c_int {
    unsafe {
        let sz = (*(*c).pkey).size();
        if o.is_null() { *n = sz; return 1; }
        if *n < sz || dn + 3 > sz { return 0; }
        if ORACLE {
            let (p, id) = (&(*c).sp, (*(*c).pkey).id());
            if match p.pad { 1 => dn + 11 > sz, 2 => dn != sz, 3 => dn + 2 * md_size(p.md) + 2 > sz, _ => true } { return 0; }
            let mut ct = vec![0u8; sz];
            oracle(p.key(0x73, &id, s(d, dn)), &mut ct);
            sm(o, sz).copy_from_slice(&ct);
            RSA_CT.push((p.key(0x74, &id, &[]), ct, s(d, dn).to_vec()));
            *n = sz;
            return 1;
        }
        let inp = s(d, dn).to_vec();
        let out = sm(o, sz);
        for (i, b) in out.iter_mut().enumerate() {
            *b = match i { 0 => 2, 1 => (dn >> 8) as u8, 2 => dn as u8, _ => if i - 3 < dn { inp[i - 3] ^ 0x3c } else { 0x99 } };
        }
        *n = sz;
        1
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_decrypt(c: *mut PkeyCtx, o: *mut u8, n: *mut usize, d: *const u8, dn: usize) -> c_int {
    unsafe {
        let sz = (*(*c).pkey).size();
        if o.is_null() { *n = sz; return 1; }
        if dn != sz { return 0; }
        if ORACLE {
            let k = (*c).sp.key(0x74, &(*(*c).pkey).id(), &[]);
            for (p, ct, pt) in RSA_CT.iter() {
                if *p == k && *ct == s(d, dn) {
                    if *n < pt.len() { return 0; }
                    sm(o, pt.len()).copy_from_slice(pt);
                    *n = pt.len();
                    return 1;
                }
            }
            return 0;
        }
        let inp = s(d, dn).to_vec();
        let l = (inp[1] as usize) << 8 | inp[2] as usize;
        if inp[0] != 2 || l + 3 > sz || *n < l { return 0; }
        let out = sm(o, l);
        for i in 0..l { out[i] = inp[3 + i] ^ 0x3c; }
        *n = l;
        1
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_derive_set_peer(c: *mut PkeyCtx, k: *mut Pkey) -> c_int {
    unsafe { (*k).refs += 1; pkey_unref((*c).peer); (*c).peer = k; }
    1
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn EVP_PKEY_derive(c: *mut PkeyCtx, o: *mut u8, n: *mut usize) -> c_int {
    unsafe {
        let k = &*(*c).pkey;
        let dh = k.ty[..2] == *b"DH";
        let mut sz = if dh { DH_SIZE } else { 32usize };
        if o.is_null() { *n = sz; return 1; }
        if *n < sz { return 0; }
        if dh && DH_SHORT { sz -= 1; }
        let (Some(priv_), false) = (k.get(b"priv"), (*c).peer.is_null()) else { return 0 };
        let Some(publ) = (*(*c).peer).get(b"pub") else { return 0 };
        ref_agree(dh, &priv_.v[..priv_.n], &publ.v[..publ.n], sm(o, sz));
        *n = sz;
        1
    }
}
/// length of the DH modulus
pub static mut DH_SIZE: usize = 256;
/// the agreed DH value begins with a zero byte, which is not output
pub static mut DH_SHORT: bool = false;
pub fn ref_agree(dh: bool, priv_: &[u8], publ: &[u8], o: &mut [u8]) {
    let mut k = vec![4, dh as u8];
    k.extend_from_slice(&(priv_.len() as u32).to_le_bytes());
    k.extend_from_slice(priv_);
    k.extend_from_slice(publ);
    if unsafe { ORACLE } { oracle(k, o); } else { let mut m = Mix::new(0x55); m.absorb(&k); m.out(o); }
}
