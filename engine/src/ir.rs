//! LLVM textual IR: lexer, lazy parser, compact in-memory form.
use crate::expr::{mask, FxMap};
use std::cell::RefCell;
use std::rc::Rc;

pub const BIAS: u64 = 0x10_0000;
pub fn addr_of(id: u32) -> u64 {
    ((id as u64) << 32) | BIAS
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(Box<u128>),
    S(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => (*n as u32) * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, _) => {
                if f.is_empty() {
                    return 0;
                }
                let o = self.offsets();
                let end = o.last().unwrap() + f.last().unwrap().size();
                let a = self.align();
                (end + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        let s = self.store_size();
        let a = self.align();
        (s + a - 1) / a * a
    }
    pub fn offsets(&self) -> Vec<u64> {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut v = vec![];
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    v.push(o);
                    o += t.size();
                }
                v
            }
            Ty::Arr(n, t) => (0..*n).map(|i| i * t.size()).collect(),
            _ => panic!("offsets of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Val::I(0),
            Ty::Arr(n, t) | Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => Val::I(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    Fp,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Umax,
    Umin,
    Max,
    Min,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Intr(Intr, u32),
    Ptr(Opnd),
    Asm(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Assume,
    Memcpy,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    Bswap,
    Bitreverse,
    Ctpop,
    Ctlz,
    Cttz,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    UmulOv,
    SmulOv,
    UaddOv,
    SaddOv,
    UsubOv,
    SsubOv,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    IsConstant,
    Expect,
    Trap,
    Tls,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    ObjectSize,
    Fabs,
    Unknown,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<(Ty, Opnd, Option<u64>)>,
    pub ret: Ty,
    pub dst: u32,
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opnd, Opnd, u32),
    ICmp(Pred, Ty, Opnd, Opnd, u32),
    FCmp(String, Ty, Opnd, Opnd, u32),
    Cast(CastOp, Ty, Ty, Opnd, u32),
    Load(Ty, Opnd, u32),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u32, u64)>, u32),
    Alloca(u64, Option<Opnd>, u32),
    Call(Box<Call>),
    Invoke(Box<Call>, u32),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Select(Ty, Ty, Opnd, Opnd, Opnd, u32),
    ExtractValue(Opnd, Vec<u32>, u32),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>, u32),
    ExtractElem(Opnd, Opnd, u32),
    InsertElem(Ty, Opnd, Opnd, Opnd, u32),
    Shuffle(Ty, Opnd, Opnd, Opnd, u32),
    Rmw(RmwOp, Ty, Opnd, Opnd, u32),
    CmpXchg(Ty, Opnd, Opnd, Opnd, u32),
    Freeze(Opnd, u32),
    FNeg(Ty, Opnd, u32),
    Nop,
    LandingPad,
    Resume,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub pretty: String,
    pub start: usize, // offset of "define", 0 for declarations
    pub end: usize,
    pub body: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
    pub external: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: FxMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: FxMap<String, u32>,
    pub types: FxMap<String, Ty>,
    pub glob_base: u32,
    pub fn_base: u32,
    pub heap_base: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    CStr(Vec<u8>),
    QStr(String),
    P(u8),
    Grp,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}
impl<'a> Lex<'a> {
    fn new(s: &'a [u8], i: usize, end: usize) -> Lex<'a> {
        Lex { s, i, end }
    }
    fn next(&mut self) -> Tok {
        loop {
            if self.i >= self.end {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = self.s[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    self.i += 1;
                    let b = self.i;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    let n = String::from_utf8_lossy(&unescape(&self.s[b..self.i])).into_owned();
                    self.i += 1;
                    n
                } else {
                    let b = self.i;
                    while self.i < self.end && idc(self.s[self.i]) {
                        self.i += 1;
                    }
                    String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let b = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                let v = unescape(&self.s[b..self.i]);
                self.i += 1;
                Tok::CStr(v)
            }
            b'"' => {
                self.i += 1;
                let b = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                let n = String::from_utf8_lossy(&unescape(&self.s[b..self.i])).into_owned();
                self.i += 1;
                Tok::QStr(n)
            }
            b'#' => {
                self.i += 1;
                while self.i < self.end && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                Tok::Grp
            }
            b'0'..=b'9' => {
                while self.i < self.end && (idc(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            b'-' if self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()) => {
                self.i += 1;
                while self.i < self.end && (idc(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => {
                while self.i < self.end && idc(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
}

struct Ps<'a> {
    m: &'a Module,
    lx: Lex<'a>,
    t: Tok,
    nx: Tok,
    regs: FxMap<String, u32>,
    blocks: FxMap<String, u32>,
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "ptr" | "void" | "double" | "float" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor" | "splat" | "asm" | "ptrtoaddr"
    )
}

pub fn parse_num(s: &str, w: u32) -> u128 {
    if let Some(h) = s.strip_prefix("0x") {
        return u128::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0);
    }
    let v: i128 = match s.parse::<i128>() {
        Ok(v) => v,
        Err(_) => match s.parse::<u128>() {
            Ok(v) => v as i128,
            Err(_) => {
                // floating literal
                return s.parse::<f64>().expect(s).to_bits() as u128;
            }
        },
    };
    (v as u128) & mask(w)
}
pub fn mkval(v: u128, w: u32) -> Val {
    if w <= 64 {
        Val::I(v as u64)
    } else {
        Val::W(Box::new(v))
    }
}

impl<'a> Ps<'a> {
    fn new(m: &'a Module, i: usize, end: usize) -> Ps<'a> {
        let mut lx = Lex::new(&m.text, i, end);
        let t = lx.next();
        let nx = lx.next();
        Ps { m, lx, t, nx, regs: Default::default(), blocks: Default::default() }
    }
    fn adv(&mut self) -> Tok {
        let n = self.lx.next();
        let x = std::mem::replace(&mut self.nx, n);
        std::mem::replace(&mut self.t, x)
    }
    fn err(&self, s: &str) -> ! {
        let a = self.lx.i.saturating_sub(200);
        let b = (self.lx.i + 100).min(self.m.text.len());
        panic!("parse error: {} at tok {:?} near: {}", s, self.t, String::from_utf8_lossy(&self.m.text[a..b]));
    }
    fn isp(&self, c: u8) -> bool {
        self.t == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected '{}'", c as char));
        }
    }
    fn word(&self) -> &str {
        if let Tok::Word(w) = &self.t {
            w
        } else {
            ""
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.adv();
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> u128 {
        if let Tok::Num(n) = self.adv() {
            parse_num(&n, 128)
        } else {
            self.err("number")
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.adv() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => self.err("eof in parens"),
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.adv() {
            Tok::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eatw("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "double" => Ty::F64,
                "float" => Ty::F32,
                x if is_type_word(x) && x.starts_with('i') => Ty::Int(x[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Tok::P(b'[') => {
                let n = self.num() as u64;
                self.adv(); // x
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if self.isp(b'{') {
                    self.adv();
                    let f = self.struct_body();
                    self.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num() as u64;
                    self.adv();
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P(b'{') => {
                let f = self.struct_body();
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Local(n) => self.m.types.get(&n).cloned().unwrap_or(Ty::Other),
            _ => self.err("type"),
        };
        t
    }
    fn struct_body(&mut self) -> Vec<Ty> {
        let mut f = vec![];
        while !self.isp(b'}') {
            f.push(self.ty());
            if !self.eat(b',') {
                break;
            }
        }
        self.expect(b'}');
        f
    }
    fn at_type(&self) -> bool {
        match &self.t {
            Tok::Word(w) => is_type_word(w),
            Tok::P(c) => matches!(c, b'[' | b'{' | b'<'),
            Tok::Local(_) => true,
            _ => false,
        }
    }
    /// skip attribute words up to a type
    fn skip_attrs_to_type(&mut self) {
        while !self.at_type() {
            match self.adv() {
                Tok::Word(w) => {
                    if w == "cc" || w == "align" {
                        if let Tok::Num(_) = self.t {
                            self.adv();
                        }
                    }
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                Tok::QStr(_) => {
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                Tok::Grp => {}
                x => self.err(&format!("attr {:?}", x)),
            }
        }
    }
    /// skip attribute words up to a value; returns byval size
    fn skip_attrs_to_value(&mut self) -> Option<u64> {
        let mut byval = None;
        loop {
            match &self.t {
                Tok::Word(w) if !is_value_word(w) => {
                    let w = w.clone();
                    self.adv();
                    if w == "byval" {
                        self.expect(b'(');
                        let t = self.ty();
                        byval = Some(t.size());
                        self.expect(b')');
                        continue;
                    }
                    if w == "align" {
                        if let Tok::Num(_) = self.t {
                            self.adv();
                        }
                    }
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                Tok::QStr(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                _ => return byval,
            }
        }
    }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(g) = self.m.glob_by_name.get(n) {
            addr_of(self.m.glob_base + g)
        } else if let Some(f) = self.m.fn_by_name.get(n) {
            addr_of(self.m.fn_base + f)
        } else {
            self.err(&format!("unknown global {}", n))
        }
    }
    fn konst(&mut self, ty: &Ty) -> Val {
        match self.adv() {
            Tok::Num(n) => {
                let w = ty.bits();
                if *ty == Ty::F32 {
                    return Val::I((f64::from_bits(parse_num(&n, 64) as u64) as f32).to_bits() as u64);
                }
                mkval(parse_num(&n, w), w)
            }
            Tok::CStr(b) => Val::A(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect())),
            Tok::Global(g) => Val::I(self.gaddr(&g)),
            Tok::Word(w) => match w.as_str() {
                "true" => Val::I(1),
                "false" => Val::I(0),
                "null" | "none" => Val::I(0),
                "undef" | "poison" | "zeroinitializer" => ty.zero(),
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expect(b')');
                    if let Ty::Vec(n, _) = ty {
                        Val::A(Rc::new(vec![v; *n as usize]))
                    } else {
                        self.err("splat")
                    }
                }
                "getelementptr" => {
                    while !self.isp(b'(') {
                        self.adv(); // inbounds nuw inrange(..)
                    }
                    self.expect(b'(');
                    let et = self.ty();
                    self.expect(b',');
                    let pt = self.ty();
                    let base = self.konst(&pt);
                    let mut off: i64 = 0;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty();
                        let iv = self.konst(&it);
                        let i = sx(&iv, it.bits());
                        if first {
                            off = off.wrapping_add(i.wrapping_mul(et.size() as i64));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    off += cur.offsets()[i as usize] as i64;
                                    cur = cur.elem(i as usize);
                                }
                                _ => {
                                    let e = cur.elem(0);
                                    off += i * e.size() as i64;
                                    cur = e;
                                }
                            }
                        }
                    }
                    self.expect(b')');
                    match base {
                        Val::I(b) => Val::I(b.wrapping_add(off as u64)),
                        _ => self.err("gep const"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    if !self.eatw("to") {
                        self.err("to")
                    }
                    let d = self.ty();
                    self.expect(b')');
                    match v {
                        Val::I(x) => mkval((x as u128) & mask(d.bits()), d.bits()),
                        v => v,
                    }
                }
                "add" | "sub" | "mul" | "xor" => {
                    while !self.isp(b'(') {
                        self.adv();
                    }
                    self.expect(b'(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.expect(b',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.expect(b')');
                    match (a, b) {
                        (Val::I(a), Val::I(b)) => Val::I(
                            (match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            }) & mask(t.bits()) as u64,
                        ),
                        _ => self.err("const expr"),
                    }
                }
                _ => self.err(&format!("const word {}", w)),
            },
            Tok::P(b'[') | Tok::P(b'{') => {
                let mut v = vec![];
                while !self.isp(b']') && !self.isp(b'}') {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if !self.eat(b',') {
                        break;
                    }
                }
                self.adv();
                Val::A(Rc::new(v))
            }
            Tok::P(b'<') => {
                let packed = self.eat(b'{');
                let mut v = vec![];
                while !self.isp(b'>') && !self.isp(b'}') {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if !self.eat(b',') {
                        break;
                    }
                }
                if packed {
                    self.expect(b'}');
                }
                self.expect(b'>');
                Val::A(Rc::new(v))
            }
            x => self.err(&format!("const {:?}", x)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, ty: &Ty) -> Opnd {
        if let Tok::Local(_) = self.t {
            if let Tok::Local(n) = self.adv() {
                return Opnd::R(self.reg(&n));
            }
        }
        Opnd::C(self.konst(ty))
    }
    fn tyval(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        self.skip_attrs_to_value();
        let v = self.val(&t);
        (t, v)
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), b);
        b
    }
    fn label(&mut self) -> u32 {
        if !self.eatw("label") {
            self.err("label");
        }
        match self.adv() {
            Tok::Local(n) => self.blk(&n),
            _ => self.err("label name"),
        }
    }
    fn skip_trailer(&mut self) {
        // ", align N", ", !meta !N", "#N", ordering words are consumed by caller
        loop {
            match &self.t {
                Tok::Grp => {
                    self.adv();
                }
                Tok::P(b',') => {
                    // , !x !y   or , align N
                    match &self.nx {
                        Tok::P(b'!') => {
                            self.adv();
                            self.adv(); // '!'
                            self.adv(); // name
                            self.meta_node();
                        }
                        Tok::Word(w) if w == "align" => {
                            self.adv();
                            self.adv();
                            self.adv();
                        }
                        _ => return,
                    }
                }
                Tok::P(b'[') => {
                    // operand bundle
                    let mut d = 0;
                    loop {
                        match self.adv() {
                            Tok::P(b'[') => d += 1,
                            Tok::P(b']') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            Tok::Eof => self.err("bundle"),
                            _ => {}
                        }
                    }
                }
                _ => return,
            }
        }
    }
    fn meta_node(&mut self) {
        // !N or !{...} or !DIxx(...)
        self.expect(b'!');
        match self.adv() {
            Tok::Num(_) => {}
            Tok::P(b'{') => {
                let mut d = 1;
                while d > 0 {
                    match self.adv() {
                        Tok::P(b'{') => d += 1,
                        Tok::P(b'}') => d -= 1,
                        Tok::Eof => self.err("meta"),
                        _ => {}
                    }
                }
            }
            Tok::Word(_) => {
                if self.isp(b'(') {
                    self.skip_parens();
                }
            }
            _ => self.err("meta"),
        }
    }
    fn call(&mut self, dst: u32) -> Call {
        // after 'call'/'invoke'
        self.skip_attrs_to_type();
        let mut ret = self.ty();
        if self.isp(b'(') {
            self.skip_parens();
        }
        let _ = &mut ret;
        let mut asm = None;
        let callee = match self.adv() {
            Tok::Global(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intr(intrinsic(&n), *self.m.fn_by_name.get(&n).unwrap_or(&0))
                } else if let Some(f) = self.m.fn_by_name.get(&n) {
                    if self.m.fns[*f as usize].start == 0 {
                        Callee::Ext(*f)
                    } else {
                        Callee::Fn(*f)
                    }
                } else {
                    self.err(&format!("unknown fn {}", n))
                }
            }
            Tok::Local(n) => Callee::Ptr(Opnd::R(self.reg(&n))),
            Tok::Word(w) if w == "asm" => {
                while let Tok::Word(_) = self.t {
                    self.adv();
                }
                if let Tok::QStr(s) = self.adv() {
                    asm = Some(s);
                }
                self.expect(b',');
                self.adv();
                Callee::Asm(asm.clone().unwrap())
            }
            Tok::Word(w) if w == "null" || w == "undef" || w == "poison" => Callee::Ptr(Opnd::C(Val::I(0))),
            Tok::Word(w) if w == "inttoptr" || w == "getelementptr" => self.err("const callee"),
            _ => self.err("callee"),
        };
        self.expect(b'(');
        let mut args = vec![];
        while !self.isp(b')') {
            let t = self.ty();
            if t == Ty::Other {
                // metadata operand
                let mut d = 0;
                loop {
                    match &self.t {
                        Tok::P(b'(') => d += 1,
                        Tok::P(b')') if d == 0 => break,
                        Tok::P(b')') => d -= 1,
                        Tok::P(b',') if d == 0 => break,
                        Tok::Eof => self.err("md"),
                        _ => {}
                    }
                    self.adv();
                }
                args.push((Ty::Other, Opnd::C(Val::I(0)), None));
            } else {
                let bv = self.skip_attrs_to_value();
                let v = self.val(&t);
                args.push((t, v, bv));
            }
            if !self.eat(b',') {
                break;
            }
        }
        self.expect(b')');
        // trailing attribute words (nounwind etc. when not grouped)
        loop {
            match &self.t {
                Tok::Grp => {
                    self.adv();
                }
                _ => break,
            }
        }
        Call { callee, args, ret, dst }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while ws.contains(&self.word()) {
            self.adv();
        }
    }
    fn ordering(&mut self) {
        loop {
            match self.word() {
                "syncscope" => {
                    self.adv();
                    self.skip_parens();
                }
                "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
}

pub fn sx(v: &Val, w: u32) -> i64 {
    match v {
        Val::I(x) => {
            if w >= 64 {
                *x as i64
            } else {
                ((*x << (64 - w)) as i64) >> (64 - w)
            }
        }
        _ => panic!("sx"),
    }
}

fn intrinsic(n: &str) -> Intr {
    let r = &n[5..];
    let s = |p: &str| r.starts_with(p);
    if s("lifetime.") || s("experimental.noalias") || s("dbg.") || s("donothing") || s("invariant.") || s("prefetch") || s("x86.sse2.pause") || s("var.annotation") || s("stackrestore") {
        Intr::Nop
    } else if s("assume") {
        Intr::Assume
    } else if s("memcpy.") || s("memmove.") {
        Intr::Memcpy
    } else if s("memset.") {
        Intr::Memset
    } else if s("umax.") {
        Intr::Umax
    } else if s("umin.") {
        Intr::Umin
    } else if s("smax.") {
        Intr::Smax
    } else if s("smin.") {
        Intr::Smin
    } else if s("bswap.") {
        Intr::Bswap
    } else if s("bitreverse.") {
        Intr::Bitreverse
    } else if s("ctpop.") {
        Intr::Ctpop
    } else if s("ctlz.") {
        Intr::Ctlz
    } else if s("cttz.") {
        Intr::Cttz
    } else if s("usub.sat") {
        Intr::UsubSat
    } else if s("uadd.sat") {
        Intr::UaddSat
    } else if s("ssub.sat") {
        Intr::SsubSat
    } else if s("sadd.sat") {
        Intr::SaddSat
    } else if s("umul.with") {
        Intr::UmulOv
    } else if s("smul.with") {
        Intr::SmulOv
    } else if s("uadd.with") {
        Intr::UaddOv
    } else if s("sadd.with") {
        Intr::SaddOv
    } else if s("usub.with") {
        Intr::UsubOv
    } else if s("ssub.with") {
        Intr::SsubOv
    } else if s("fshl.") {
        Intr::Fshl
    } else if s("fshr.") {
        Intr::Fshr
    } else if s("abs.") {
        Intr::Abs
    } else if s("fabs.") {
        Intr::Fabs
    } else if s("ucmp.") {
        Intr::Ucmp
    } else if s("scmp.") {
        Intr::Scmp
    } else if s("is.constant") {
        Intr::IsConstant
    } else if s("expect") {
        Intr::Expect
    } else if s("trap") || s("debugtrap") || s("ubsantrap") {
        Intr::Trap
    } else if s("threadlocal.address") {
        Intr::Tls
    } else if s("vector.reduce.or") {
        Intr::VecReduceOr
    } else if s("vector.reduce.and") {
        Intr::VecReduceAnd
    } else if s("vector.reduce.add") {
        Intr::VecReduceAdd
    } else if s("objectsize") {
        Intr::ObjectSize
    } else {
        Intr::Unknown
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module {
            text,
            fns: vec![],
            fn_by_name: Default::default(),
            globals: vec![],
            glob_by_name: Default::default(),
            types: Default::default(),
            glob_base: 1,
            fn_base: 0,
            heap_base: 0,
        };
        // scan top-level lines
        let mut i = 0;
        let n = m.text.len();
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut tys: Vec<(usize, usize)> = vec![];
        let mut last_comment: Option<(usize, usize)> = None;
        while i < n {
            let mut e = i;
            while e < n && m.text[e] != b'\n' {
                e += 1;
            }
            let line = &m.text[i..e];
            if line.starts_with(b"define ") {
                let name = fn_name(line);
                // find end "\n}\n"
                let mut k = e;
                loop {
                    if m.text[k] == b'\n' && m.text[k + 1] == b'}' && (k + 2 >= n || m.text[k + 2] == b'\n') {
                        break;
                    }
                    k += 1;
                }
                let pretty = match last_comment {
                    Some((a, b)) => String::from_utf8_lossy(&m.text[a..b]).into_owned(),
                    None => name.clone(),
                };
                m.fns.push(FnDecl { name, pretty, start: i, end: k + 2, body: RefCell::new(None) });
                last_comment = None;
                i = k + 2;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                m.fns.push(FnDecl { name: name.clone(), pretty: name, start: 0, end: 0, body: RefCell::new(None) });
            } else if line.starts_with(b"@") {
                gl.push((i, e));
            } else if line.starts_with(b"%") {
                tys.push((i, e));
            } else if line.starts_with(b"; ") && !line.starts_with(b"; Function Attrs") {
                last_comment = Some((i + 2, e));
            }
            i = e + 1;
        }
        for (k, f) in m.fns.iter().enumerate() {
            m.fn_by_name.insert(f.name.clone(), k as u32);
        }
        // names of globals
        for (a, e) in &gl {
            let mut lx = Lex::new(&m.text, *a, *e);
            if let Tok::Global(nm) = lx.next() {
                if m.fn_by_name.contains_key(&nm) {
                    continue;
                }
                m.glob_by_name.insert(nm.clone(), m.globals.len() as u32);
                m.globals.push(Global { name: nm, size: 0, constant: false, init: vec![], external: false });
            }
        }
        m.fn_base = m.glob_base + m.globals.len() as u32;
        m.heap_base = m.fn_base + m.fns.len() as u32 + 1;
        // types (repeat until closed under nesting)
        for _ in 0..3 {
            let mut out = vec![];
            for (a, e) in &tys {
                let mut p = Ps::new(&m, *a, *e);
                if let Tok::Local(nm) = p.adv() {
                    p.expect(b'=');
                    p.adv(); // type
                    if p.word() == "opaque" {
                        continue;
                    }
                    let t = p.ty();
                    out.push((nm, t));
                }
            }
            for (k, v) in out {
                m.types.insert(k, v);
            }
        }
        // global initialisers
        let mut parsed = vec![];
        for (a, e) in &gl {
            let mut p = Ps::new(&m, *a, *e);
            let nm = match p.adv() {
                Tok::Global(n) => n,
                _ => unreachable!(),
            };
            p.expect(b'=');
            let mut ext = false;
            let constant;
            loop {
                let w = p.word().to_string();
                match w.as_str() {
                    "constant" => {
                        constant = true;
                        p.adv();
                        break;
                    }
                    "global" => {
                        constant = false;
                        p.adv();
                        break;
                    }
                    "external" | "extern_weak" => {
                        ext = true;
                        p.adv();
                    }
                    "alias" | "ifunc" => p.err("alias not supported"),
                    _ => {
                        p.adv();
                        if p.isp(b'(') {
                            p.skip_parens();
                        }
                    }
                }
            }
            let t = p.ty();
            if ext {
                parsed.push((nm, t.size().max(8), constant, vec![], true));
                continue;
            }
            let v = p.konst(&t);
            let mut b = vec![0u8; t.size() as usize];
            put(&v, &t, &mut b, 0);
            parsed.push((nm, t.size(), constant, b, false));
        }
        for (nm, size, constant, init, external) in parsed {
            if let Some(g) = m.glob_by_name.get(&nm) {
                let g = &mut m.globals[*g as usize];
                g.size = size;
                g.constant = constant;
                g.init = init;
                g.external = external;
            }
        }
        m
    }

    pub fn body(&self, f: u32) -> Rc<Func> {
        if let Some(b) = &*self.fns[f as usize].body.borrow() {
            return b.clone();
        }
        let b = Rc::new(self.parse_fn(f));
        *self.fns[f as usize].body.borrow_mut() = Some(b.clone());
        b
    }

    fn parse_fn(&self, f: u32) -> Func {
        let d = &self.fns[f as usize];
        let mut p = Ps::new(self, d.start, d.end);
        p.adv(); // define
        p.skip_attrs_to_type();
        let _ret = p.ty();
        p.adv(); // name
        p.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !p.isp(b')') {
            if p.isp(b'.') {
                // varargs
                while !p.isp(b')') {
                    p.adv();
                }
                break;
            }
            let _t = p.ty();
            p.skip_attrs_to_value();
            let r = if let Tok::Local(_) = p.t {
                if let Tok::Local(n) = p.adv() {
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    p.reg(&n)
                } else {
                    0
                }
            } else {
                let n = format!("{}", unnamed);
                unnamed += 1;
                p.reg(&n)
            };
            params.push(r);
            if !p.eat(b',') {
                break;
            }
        }
        p.expect(b')');
        while !p.isp(b'{') {
            p.adv();
        }
        p.expect(b'{');
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<u32> = None;
        let mut b = Block { phis: vec![], ins: vec![] };
        loop {
            if p.isp(b'}') && !matches!(p.nx, Tok::P(_)) {
                break;
            }
            if p.isp(b'}') {
                break;
            }
            // label?
            if p.nx == Tok::P(b':') {
                let nm = match p.adv() {
                    Tok::Word(w) => w,
                    Tok::Num(w) => w,
                    Tok::QStr(w) => w,
                    _ => p.err("label"),
                };
                p.adv();
                if let Some(c) = cur {
                    while blocks.len() <= c as usize {
                        blocks.push(None);
                    }
                    blocks[c as usize] = Some(std::mem::replace(&mut b, Block { phis: vec![], ins: vec![] }));
                }
                cur = Some(p.blk(&nm));
                continue;
            }
            if cur.is_none() {
                let nm = format!("{}", unnamed);
                cur = Some(p.blk(&nm));
            }
            p.ins(&mut b);
        }
        if let Some(c) = cur {
            while blocks.len() <= c as usize {
                blocks.push(None);
            }
            blocks[c as usize] = Some(b);
        }
        let blocks: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![Ins::Unreachable] })).collect();
        Func { id: f, params, nregs: p.regs.len() as u32, blocks }
    }
}

fn fn_name(line: &[u8]) -> String {
    let mut lx = Lex::new(line, 0, line.len());
    loop {
        match lx.next() {
            Tok::Global(n) => return n,
            Tok::Eof => panic!("no name: {}", String::from_utf8_lossy(line)),
            _ => {}
        }
    }
}

pub fn put(v: &Val, t: &Ty, b: &mut [u8], off: usize) {
    match (v, t) {
        (Val::A(x), Ty::Struct(..)) | (Val::A(x), Ty::Arr(..)) => {
            let o = t.offsets();
            for (i, e) in x.iter().enumerate() {
                put(e, &t.elem(i), b, off + o[i] as usize);
            }
        }
        (Val::A(x), Ty::Vec(_, e)) => {
            let s = e.size() as usize;
            for (i, y) in x.iter().enumerate() {
                put(y, e, b, off + i * s);
            }
        }
        (Val::I(x), _) => {
            let n = t.store_size() as usize;
            let by = (*x as u128).to_le_bytes();
            b[off..off + n].copy_from_slice(&by[..n]);
        }
        (Val::W(x), _) => {
            let n = t.store_size() as usize;
            let by = x.to_le_bytes();
            b[off..off + n].copy_from_slice(&by[..n]);
        }
        _ => panic!("put {:?} {:?}", v, t),
    }
}

impl<'a> Ps<'a> {
    fn ins(&mut self, b: &mut Block) {
        let mut dst = u32::MAX;
        if let Tok::Local(_) = self.t {
            if let Tok::Local(n) = self.adv() {
                dst = self.reg(&n);
            }
            self.expect(b'=');
        }
        let op = match self.adv() {
            Tok::Word(w) => w,
            t => self.err(&format!("opcode {:?}", t)),
        };
        let bop = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                _ => return None,
            })
        };
        let flags = ["nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak", "inalloca"];
        match op.as_str() {
            "phi" => {
                self.skip_words(&flags);
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let x = self.val(&t);
                    self.expect(b',');
                    let l = match self.adv() {
                        Tok::Local(n) => self.blk(&n),
                        _ => self.err("phi label"),
                    };
                    self.expect(b']');
                    v.push((l, x));
                    if self.isp(b',') && self.nx == Tok::P(b'[') {
                        self.adv();
                        continue;
                    }
                    break;
                }
                b.phis.push((dst, v));
            }
            "icmp" => {
                self.skip_words(&flags);
                let pr = match self.adv() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => self.err("pred"),
                    },
                    _ => self.err("pred"),
                };
                let t = self.ty();
                let x = self.val(&t);
                self.expect(b',');
                let y = self.val(&t);
                b.ins.push(Ins::ICmp(pr, t, x, y, dst));
            }
            "fcmp" => {
                self.skip_words(&flags);
                let pr = self.word().to_string();
                self.adv();
                let t = self.ty();
                let x = self.val(&t);
                self.expect(b',');
                let y = self.val(&t);
                b.ins.push(Ins::FCmp(pr, t, x, y, dst));
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                self.skip_words(&flags);
                let (t, v) = self.tyval();
                if !self.eatw("to") {
                    self.err("to");
                }
                let d = self.ty();
                let c = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "bitcast" => CastOp::Bitcast,
                    _ => CastOp::Fp,
                };
                b.ins.push(Ins::Cast(c, t, d, v, dst));
            }
            "load" => {
                self.skip_words(&flags);
                let t = self.ty();
                self.expect(b',');
                let (_, p) = self.tyval();
                self.ordering();
                b.ins.push(Ins::Load(t, p, dst));
            }
            "store" => {
                self.skip_words(&flags);
                let (t, v) = self.tyval();
                self.expect(b',');
                let (_, p) = self.tyval();
                self.ordering();
                b.ins.push(Ins::Store(t, v, p));
            }
            "getelementptr" => {
                loop {
                    self.skip_words(&flags);
                    if self.word() == "inrange" {
                        self.adv();
                        self.skip_parens();
                        continue;
                    }
                    break;
                }
                let et = self.ty();
                self.expect(b',');
                let (pt, base) = self.tyval();
                if let Ty::Vec(..) = pt {
                    self.err("vector gep");
                }
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = et.clone();
                let mut first = true;
                while self.isp(b',') && !matches!(self.nx, Tok::P(b'!')) {
                    self.adv();
                    let (it, iv) = self.tyval();
                    let scale = if first {
                        first = false;
                        et.size()
                    } else if let Ty::Struct(..) = &cur {
                        if let Opnd::C(v) = &iv {
                            let i = sx(v, it.bits()) as usize;
                            off += cur.offsets()[i] as i64;
                            cur = cur.elem(i);
                            continue;
                        }
                        self.err("struct gep idx")
                    } else {
                        let e = cur.elem(0);
                        let s = e.size();
                        cur = e;
                        s
                    };
                    match iv {
                        Opnd::C(v) => off = off.wrapping_add(sx(&v, it.bits()).wrapping_mul(scale as i64)),
                        o => terms.push((o, it.bits(), scale)),
                    }
                }
                b.ins.push(Ins::Gep(base, off, terms, dst));
            }
            "alloca" => {
                self.skip_words(&flags);
                let t = self.ty();
                let mut cnt = None;
                if self.isp(b',') {
                    if let Tok::Word(w) = &self.nx {
                        if is_type_word(w) {
                            self.adv();
                            let (_, v) = self.tyval();
                            cnt = Some(v);
                        }
                    }
                }
                b.ins.push(Ins::Alloca(t.size(), cnt, dst));
            }
            "tail" | "musttail" | "notail" => {
                self.adv(); // call
                let c = self.call(dst);
                b.ins.push(Ins::Call(Box::new(c)));
            }
            "call" => {
                let c = self.call(dst);
                b.ins.push(Ins::Call(Box::new(c)));
            }
            "invoke" => {
                let c = self.call(dst);
                self.skip_trailer();
                if !self.eatw("to") {
                    self.err("invoke to");
                }
                let n = self.label();
                if !self.eatw("unwind") {
                    self.err("unwind");
                }
                let _u = self.label();
                b.ins.push(Ins::Invoke(Box::new(c), n));
            }
            "br" => {
                if self.word() == "label" {
                    let l = self.label();
                    b.ins.push(Ins::Br(l));
                } else {
                    let (_, c) = self.tyval();
                    self.expect(b',');
                    let x = self.label();
                    self.expect(b',');
                    let y = self.label();
                    b.ins.push(Ins::CondBr(c, x, y));
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.expect(b',');
                let d = self.label();
                self.expect(b'[');
                let mut cases = vec![];
                while !self.isp(b']') {
                    let ct = self.ty();
                    let k = match self.adv() {
                        Tok::Num(n) => parse_num(&n, ct.bits()),
                        Tok::Word(w) if w == "true" => 1,
                        Tok::Word(w) if w == "false" => 0,
                        _ => self.err("case"),
                    };
                    self.expect(b',');
                    let l = self.label();
                    cases.push((k, l));
                }
                self.expect(b']');
                b.ins.push(Ins::Switch(t.bits(), v, d, cases));
            }
            "ret" => {
                if self.word() == "void" {
                    self.adv();
                    b.ins.push(Ins::Ret(None));
                } else {
                    let (t, v) = self.tyval();
                    b.ins.push(Ins::Ret(Some((t, v))));
                }
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "select" => {
                self.skip_words(&flags);
                let (ct, c) = self.tyval();
                self.expect(b',');
                let (t, x) = self.tyval();
                self.expect(b',');
                let (_, y) = self.tyval();
                b.ins.push(Ins::Select(ct, t, c, x, y, dst));
            }
            "extractvalue" => {
                let (_, v) = self.tyval();
                let mut ix = vec![];
                while self.isp(b',') && matches!(self.nx, Tok::Num(_)) {
                    self.adv();
                    ix.push(self.num() as u32);
                }
                b.ins.push(Ins::ExtractValue(v, ix, dst));
            }
            "insertvalue" => {
                let (t, v) = self.tyval();
                self.expect(b',');
                let (_, x) = self.tyval();
                let mut ix = vec![];
                while self.isp(b',') && matches!(self.nx, Tok::Num(_)) {
                    self.adv();
                    ix.push(self.num() as u32);
                }
                b.ins.push(Ins::InsertValue(t, v, x, ix, dst));
            }
            "extractelement" => {
                let (_, v) = self.tyval();
                self.expect(b',');
                let (_, i) = self.tyval();
                b.ins.push(Ins::ExtractElem(v, i, dst));
            }
            "insertelement" => {
                let (t, v) = self.tyval();
                self.expect(b',');
                let (_, x) = self.tyval();
                self.expect(b',');
                let (_, i) = self.tyval();
                b.ins.push(Ins::InsertElem(t, v, x, i, dst));
            }
            "shufflevector" => {
                let (t, v) = self.tyval();
                self.expect(b',');
                let (_, x) = self.tyval();
                self.expect(b',');
                let (_, i) = self.tyval();
                b.ins.push(Ins::Shuffle(t, v, x, i, dst));
            }
            "atomicrmw" => {
                self.skip_words(&flags);
                let o = match self.adv() {
                    Tok::Word(w) => match w.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "umax" => RmwOp::Umax,
                        "umin" => RmwOp::Umin,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        _ => self.err("rmw"),
                    },
                    _ => self.err("rmw"),
                };
                let (_, p) = self.tyval();
                self.expect(b',');
                let (t, v) = self.tyval();
                self.ordering();
                b.ins.push(Ins::Rmw(o, t, p, v, dst));
            }
            "cmpxchg" => {
                self.skip_words(&flags);
                let (_, p) = self.tyval();
                self.expect(b',');
                let (t, c) = self.tyval();
                self.expect(b',');
                let (_, n) = self.tyval();
                self.ordering();
                b.ins.push(Ins::CmpXchg(t, p, c, n, dst));
            }
            "fence" => {
                self.ordering();
            }
            "freeze" => {
                let (_, v) = self.tyval();
                b.ins.push(Ins::Freeze(v, dst));
            }
            "fneg" => {
                let (t, v) = self.tyval();
                b.ins.push(Ins::FNeg(t, v, dst));
            }
            "landingpad" => {
                let _ = self.ty();
                loop {
                    match self.word() {
                        "cleanup" => {
                            self.adv();
                        }
                        "catch" | "filter" => {
                            self.adv();
                            let (_, _) = self.tyval();
                        }
                        _ => break,
                    }
                }
                b.ins.push(Ins::LandingPad);
            }
            "resume" => {
                let (_, _) = self.tyval();
                b.ins.push(Ins::Resume);
            }
            o => {
                if let Some(bo) = bop(o) {
                    self.skip_words(&flags);
                    let t = self.ty();
                    let x = self.val(&t);
                    self.expect(b',');
                    let y = self.val(&t);
                    b.ins.push(Ins::Bin(bo, t, x, y, dst));
                } else {
                    self.err(&format!("opcode {}", o));
                }
            }
        }
        self.skip_trailer();
    }
}
