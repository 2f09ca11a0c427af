// In-memory raw storage used by the verification harness.  It implements the
// crate's own `StorageRaw` trait, so everything above that trait (the standard
// storage format, the ACI layer, the token) is the real code.  The backing
// state is a process-wide static: it survives C_Finalize / C_Initialize, which
// is how the harness models a restart.
use crate::attribute::Attribute;
use crate::config;
use crate::error::{Error, Result};
use crate::object::Object;
use crate::pkcs11::*;
use crate::storage::aci::{StorageACI, StorageAuthInfo};
use crate::storage::format::{StdStorageFormat, StorageRaw};
use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};

pub const OP_RESET: u32 = 0;
pub const OP_OPEN: u32 = 1;
pub const OP_FLUSH: u32 = 2;
pub const OP_FETCH: u32 = 3;
pub const OP_SEARCH: u32 = 4;
pub const OP_STORE: u32 = 5;
pub const OP_REMOVE: u32 = 6;
pub const OP_FETCH_INFO: u32 = 7;
pub const OP_STORE_INFO: u32 = 8;
pub const OP_FETCH_USER: u32 = 9;
pub const OP_STORE_USER: u32 = 10;

pub struct RawState {
    pub init: bool,
    pub objs: Vec<Object>,
    pub info: Option<StorageTokenInfo>,
    pub users: Vec<(String, StorageAuthInfo)>,
    pub writes: u64,
}

impl RawState {
    pub const fn new() -> RawState {
        RawState { init: false, objs: Vec::new(), info: None, users: Vec::new(), writes: 0 }
    }
}

pub struct Cell<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Cell<T> {}
impl<T> Cell<T> {
    pub const fn new(t: T) -> Self {
        Cell(std::cell::UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// raw state of the (single) mock database of each slot number
pub static RAW: Cell<[RawState; 2]> = Cell::new([RawState::new(), RawState::new()]);
/// called before every storage operation; returning true makes it fail
pub static FAULT: Cell<Option<fn(u32) -> bool>> = Cell::new(None);
/// PBKDF2 work factor used by the mock database
pub static ITERATIONS: Cell<usize> = Cell::new(1);
/// called for every object handed to the raw store
pub static ON_STORE: Cell<Option<fn(&Object)>> = Cell::new(None);

#[derive(Debug)]
struct VStore {
    n: usize,
}

impl VStore {
    fn st(&self) -> &mut RawState {
        &mut RAW.get()[self.n]
    }
    fn op(&self, op: u32) -> Result<()> {
        if let Some(f) = *FAULT.get() {
            if f(op) {
                return Err(CKR_DEVICE_ERROR)?;
            }
        }
        Ok(())
    }
}

pub fn uid_of(o: &Object) -> Option<String> {
    o.get_attr_as_string(CKA_UNIQUE_ID).ok()
}

impl StorageRaw for VStore {
    fn is_initialized(&self) -> Result<()> {
        if self.st().init {
            Ok(())
        } else {
            Err(CKR_CRYPTOKI_NOT_INITIALIZED)?
        }
    }
    fn db_reset(&mut self) -> Result<()> {
        self.op(OP_RESET)?;
        let st = self.st();
        st.objs.clear();
        st.info = None;
        st.users.clear();
        st.init = true;
        st.writes += 1;
        Ok(())
    }
    fn open(&mut self) -> Result<()> {
        self.op(OP_OPEN)
    }
    fn flush(&mut self) -> Result<()> {
        self.op(OP_FLUSH)
    }
    fn fetch_by_uid(&self, uid: &String, attrs: &[CK_ATTRIBUTE]) -> Result<Object> {
        self.op(OP_FETCH)?;
        for o in self.st().objs.iter() {
            if uid_of(o).as_ref() == Some(uid) {
                if attrs.is_empty() {
                    let mut c = o.clone();
                    c.set_handle(CK_INVALID_HANDLE);
                    return Ok(c);
                }
                let mut n = Object::new(o.get_class());
                n.del_attr(CKA_CLASS);
                for a in o.get_attributes() {
                    if attrs.iter().any(|x| x.type_ == a.get_type()) {
                        n.set_attr(a.clone())?;
                    }
                }
                return Ok(n);
            }
        }
        Err(Error::not_found(uid.clone()))
    }
    fn search(&self, template: &[CK_ATTRIBUTE]) -> Result<Vec<Object>> {
        self.op(OP_SEARCH)?;
        let mut v = Vec::new();
        for o in self.st().objs.iter() {
            if template.is_empty() || o.match_template(template) {
                v.push(o.clone());
            }
        }
        Ok(v)
    }
    fn store_obj(&mut self, mut obj: Object) -> Result<()> {
        self.op(OP_STORE)?;
        if let Some(f) = *ON_STORE.get() {
            f(&obj);
        }
        obj.set_handle(CK_INVALID_HANDLE);
        let st = self.st();
        st.writes += 1;
        let uid = uid_of(&obj);
        if let Some(o) = st.objs.iter_mut().find(|o| uid_of(o) == uid) {
            *o = obj;
        } else {
            st.objs.push(obj);
        }
        Ok(())
    }
    fn remove_by_uid(&mut self, uid: &String) -> Result<()> {
        self.op(OP_REMOVE)?;
        let st = self.st();
        st.writes += 1;
        st.objs.retain(|o| uid_of(o).as_ref() != Some(uid));
        Ok(())
    }
    fn fetch_token_info(&self) -> Result<StorageTokenInfo> {
        self.op(OP_FETCH_INFO)?;
        match &self.st().info {
            Some(i) => Ok(i.clone()),
            None => Ok(StorageTokenInfo::default()),
        }
    }
    fn store_token_info(&mut self, info: &StorageTokenInfo) -> Result<()> {
        self.op(OP_STORE_INFO)?;
        let mut i = info.clone();
        i.flags &= CKF_LOGIN_REQUIRED | CKF_TOKEN_INITIALIZED | CKF_WRITE_PROTECTED;
        let st = self.st();
        st.info = Some(i);
        st.writes += 1;
        Ok(())
    }
    fn fetch_user(&self, uid: &str) -> Result<StorageAuthInfo> {
        self.op(OP_FETCH_USER)?;
        for (n, i) in self.st().users.iter() {
            if n == uid && i.user_data.is_some() {
                return Ok(i.clone());
            }
        }
        Err(CKR_USER_PIN_NOT_INITIALIZED)?
    }
    fn store_user(&mut self, uid: &str, data: &StorageAuthInfo) -> Result<()> {
        self.op(OP_STORE_USER)?;
        let st = self.st();
        st.writes += 1;
        for (n, i) in st.users.iter_mut() {
            if n == uid {
                let old = i.user_data.take();
                *i = data.clone();
                if i.user_data.is_none() {
                    i.user_data = old;
                }
                return Ok(());
            }
        }
        st.users.push((uid.to_string(), data.clone()));
        Ok(())
    }
}

#[derive(Debug)]
pub struct VDBInfo {}

impl StorageDBInfo for VDBInfo {
    /// dbargs: "plain0" / "plain1" (no encryption), anything else encrypts
    fn new(&self, conf: &Option<String>) -> Result<Box<dyn Storage>> {
        if let Some(s) = conf {
            // "sql0", "sql1", "sqlplain0": the crate's sqlite back end over the toy SQL engine
            if s.starts_with("sql") {
                let mut aci = StorageACI::new(!s.starts_with("sqlplain"));
                aci.set_iterations(*ITERATIONS.get());
                return Ok(Box::new(StdStorageFormat::new(Box::new(crate::storage::sqlite::SqliteStorage::verif_new(s.clone())?), aci)));
            }
        }
        let (enc, n) = match conf {
            Some(s) => (!s.starts_with("plain"), if s.ends_with('1') { 1 } else { 0 }),
            None => (true, 0),
        };
        let mut aci = StorageACI::new(enc);
        aci.set_iterations(*ITERATIONS.get());
        Ok(Box::new(StdStorageFormat::new(Box::new(VStore { n }), aci)))
    }
    fn dbtype(&self) -> &str {
        "vmock"
    }
}

pub static DBINFO: VDBInfo = VDBInfo {};

/// Adds a slot to the configuration used by the next C_Initialize
pub fn config_slot(slot: u32, dbtype: &str, dbargs: Option<&str>, mechs: Option<Vec<String>>) -> CK_RV {
    let mut conf = match crate::CONFIG.wlock() {
        Ok(v) => v,
        Err(e) => return e.rv(),
    };
    let mut s = config::Slot::new();
    s.slot = slot;
    s.dbtype = Some(dbtype.to_string());
    s.dbargs = dbargs.map(|x| x.to_string());
    s.mechanisms = mechs;
    conf.slots.push(s);
    CKR_OK
}

/// An object as the raw store sees it
pub fn raw_object(class: CK_OBJECT_CLASS, attrs: &[CK_ATTRIBUTE]) -> Option<Object> {
    let mut o = Object::new(class);
    for a in attrs {
        let at = match Attribute::from_ck_attr(a) {
            Ok(x) => x,
            Err(_) => return None,
        };
        if o.set_attr(at).is_err() {
            return None;
        }
    }
    Some(o)
}

/// sets a boolean attribute of a stored object behind the module's back
pub fn raw_set_bool(n: usize, i: usize, attr: CK_ATTRIBUTE_TYPE, v: bool) {
    let _ = RAW.get()[n].objs[i].set_attr(Attribute::from_bool(attr, v));
}

/// raw bytes of an attribute of a stored object
pub fn raw_get(n: usize, i: usize, attr: CK_ATTRIBUTE_TYPE) -> Option<Vec<u8>> {
    RAW.get()[n].objs[i].get_attr(attr).map(|a| a.get_value().clone())
}

/// overwrites an attribute of a stored object behind the module's back
pub fn raw_set(n: usize, i: usize, attr: CK_ATTRIBUTE_TYPE, v: &[u8]) {
    let _ = RAW.get()[n].objs[i].set_attr(Attribute::from_bytes(attr, v.to_vec()));
}

/// authentication record of a user (0 = first one stored)
pub fn raw_user(n: usize, i: usize) -> (String, Vec<u8>) {
    let (u, a) = &RAW.get()[n].users[i];
    (u.clone(), a.user_data.clone().unwrap_or_default())
}
pub fn raw_set_user(n: usize, i: usize, v: &[u8]) {
    RAW.get()[n].users[i].1.user_data = Some(v.to_vec());
}
pub fn raw_objects(n: usize) -> usize {
    RAW.get()[n].objs.len()
}
pub fn raw_users(n: usize) -> usize {
    RAW.get()[n].users.len()
}

/// everything the store holds, one entry per value
pub fn raw_dump(n: usize) -> Vec<(u64, Vec<u8>)> {
    let mut v = Vec::new();
    let st = &RAW.get()[n];
    for (i, o) in st.objs.iter().enumerate() {
        for a in o.get_attributes() {
            v.push(((i as u64) << 32 | a.get_type(), a.get_value().clone()));
        }
    }
    for (u, a) in st.users.iter() {
        v.push((1, u.as_bytes().to_vec()));
        v.push((2, a.user_data.clone().unwrap_or_default()));
        v.push((3, vec![a.default_pin as u8, a.max_attempts as u8, a.cur_attempts as u8]));
    }
    if let Some(t) = &st.info {
        v.push((4, t.label.to_vec()));
        v.push((5, t.manufacturer.to_vec()));
        v.push((6, t.model.to_vec()));
        v.push((7, t.serial.to_vec()));
        v.push((8, t.flags.to_ne_bytes().to_vec()));
    }
    v
}

/// wipes the store of a slot
pub fn raw_reset(n: usize) {
    RAW.get()[n] = RawState::new();
}
