//! A small SQL engine behind the SQLite C API: what rusqlite calls is here
//! instead of in libsqlite3, so that the sqlite storage back end of the crate
//! (its SQL, conversions and transactions) is executed symbolically.
//! It implements the subset of SQLite's documented semantics that a record
//! store needs: typed values, UNIQUE with replacement, WHERE with AND, OR, IN,
//! sub-selects and set operations, aggregates, ordering and transactions.
#![allow(static_mut_refs)]
use core::cmp::Ordering;
use core::ffi::{c_char, c_int, c_void};
use std::cell::RefCell;

const OK: c_int = 0;
const ERROR: c_int = 1;
const IOERR: c_int = 10;
const CONSTRAINT: c_int = 19;
const MISUSE: c_int = 21;
const RANGE: c_int = 25;
const ROW: c_int = 100;
const DONE: c_int = 101;

#[derive(Clone)]
enum V { Null, Int(i64), Real(f64), Text(Vec<u8>), Blob(Vec<u8>) }

fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

impl V {
    fn same(&self, o: &V) -> Option<bool> {
        Some(match (self, o) {
            (V::Null, _) | (_, V::Null) => return None,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Int(a), V::Real(b)) | (V::Real(b), V::Int(a)) => *a as f64 == *b,
            (V::Real(a), V::Real(b)) => a == b,
            (V::Text(a), V::Text(b)) => bytes_eq(a, b),
            (V::Blob(a), V::Blob(b)) => bytes_eq(a, b),
            _ => false,
        })
    }
    fn order(&self, o: &V) -> Ordering {
        let class = |v: &V| match v { V::Null => 0, V::Int(_) | V::Real(_) => 1, V::Text(_) => 2, V::Blob(_) => 3 };
        match (self, o) {
            (V::Int(a), V::Int(b)) => a.cmp(b),
            (V::Text(a), V::Text(b)) | (V::Blob(a), V::Blob(b)) => a.cmp(b),
            (V::Real(a), V::Real(b)) => a.partial_cmp(b).unwrap_or(Ordering::Equal),
            _ => class(self).cmp(&class(o)),
        }
    }
    fn int(&self) -> i64 { match self { V::Int(i) => *i, V::Real(r) => *r as i64, _ => 0 } }
}

#[derive(Clone)]
struct Table { name: Vec<u8>, cols: Vec<Vec<u8>>, text: Vec<bool>, notnull: Vec<bool>, uniq: Vec<Vec<usize>>, rows: Vec<Vec<V>> }
#[derive(Clone)]
pub struct Db { tables: Vec<Table> }
impl Db {
    fn table(&self, n: &[u8]) -> Option<usize> { self.tables.iter().position(|t| t.name == n) }
}

/// the database files: name, committed or current contents
pub static mut FILES: Vec<(Vec<u8>, Db)> = Vec::new();
/// called before every statement that runs; true makes it fail.
/// 0: reads, 1: changes, 2: begin, 3: commit, 4: rollback, 5: schema
pub static mut SQL_FAULT: Option<fn(u32) -> bool> = None;
/// hand out rows the other way round where no order is asked for
pub static mut SQL_REVERSE: bool = false;
/// statements of a kind the engine does not know
pub static mut SQL_UNKNOWN: u32 = 0;

pub struct Conn { file: usize, saved: Option<Db>, err: c_int, changes: c_int }

// ---- syntax ----
#[derive(Clone, PartialEq)]
enum Tk { Id(Vec<u8>), Num(i64), Str(Vec<u8>), Param, P(u8), Ne, Le, Ge, End }

fn lex(s: &[u8]) -> Option<(Vec<Tk>, usize)> {
    let mut v = Vec::with_capacity(40);
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            0 => break,
            b' ' | b'\t' | b'\n' | b'\r' => { i += 1; }
            b';' => { i += 1; if !v.is_empty() { break; } }
            b'-' if i + 1 < s.len() && s[i + 1] == b'-' => { while i < s.len() && s[i] != b'\n' { i += 1; } }
            b'0'..=b'9' => { let mut n = 0i64; while i < s.len() && s[i].is_ascii_digit() { n = n * 10 + (s[i] - b'0') as i64; i += 1; } v.push(Tk::Num(n)); }
            b'\'' => {
                let mut t = vec![]; i += 1;
                loop {
                    if i >= s.len() { return None; }
                    if s[i] == b'\'' { if i + 1 < s.len() && s[i + 1] == b'\'' { t.push(b'\''); i += 2; continue; } i += 1; break; }
                    t.push(s[i]); i += 1;
                }
                v.push(Tk::Str(t));
            }
            b'"' | b'`' => { let q = c; let mut t = vec![]; i += 1; while i < s.len() && s[i] != q { t.push(s[i].to_ascii_lowercase()); i += 1; } i += 1; v.push(Tk::Id(t)); }
            b'?' => { i += 1; while i < s.len() && s[i].is_ascii_digit() { i += 1; } v.push(Tk::Param); }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => { let st = i; while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'_' || s[i] == b'$') { i += 1; } v.push(Tk::Id(s[st..i].to_ascii_lowercase())); }
            b'<' if i + 1 < s.len() && s[i + 1] == b'>' => { v.push(Tk::Ne); i += 2; }
            b'!' if i + 1 < s.len() && s[i + 1] == b'=' => { v.push(Tk::Ne); i += 2; }
            b'=' if i + 1 < s.len() && s[i + 1] == b'=' => { v.push(Tk::P(b'=')); i += 2; }
            b'<' if i + 1 < s.len() && s[i + 1] == b'=' => { v.push(Tk::Le); i += 2; }
            b'>' if i + 1 < s.len() && s[i + 1] == b'=' => { v.push(Tk::Ge); i += 2; }
            b'(' | b')' | b',' | b'*' | b'=' | b'<' | b'>' | b'.' | b'+' | b'-' => { v.push(Tk::P(c)); i += 1; }
            _ => return None,
        }
    }
    v.push(Tk::End);
    Some((v, i))
}

enum Ex {
    Col(Vec<u8>), Par(usize), Lit(V), Star,
    Cmp(u8, Box<Ex>, Box<Ex>), And(Box<Ex>, Box<Ex>), Or(Box<Ex>, Box<Ex>), Not(Box<Ex>),
    In(Box<Ex>, Vec<Ex>), InQ(Box<Ex>, Box<Query>, RefCell<Option<Vec<V>>>), IsNull(Box<Ex>, bool),
    Max(Box<Ex>, bool), Count(Box<Ex>), Ifnull(Vec<Ex>), Add(Box<Ex>, Box<Ex>, bool), Sub(Box<Query>),
}
struct Sel { cols: Vec<Ex>, distinct: bool, from: Option<Vec<u8>>, wher: Option<Ex> }
struct Query { sels: Vec<(u8, Sel)>, order: Vec<(Ex, bool)>, limit: Option<Ex> }
enum St {
    Query(Query),
    Insert { table: Vec<u8>, cols: Vec<Vec<u8>>, rows: Vec<Vec<Ex>>, how: u8 },
    Delete { table: Vec<u8>, wher: Option<Ex> },
    Update { table: Vec<u8>, sets: Vec<(Vec<u8>, Ex)>, wher: Option<Ex> },
    Create { t: Table, if_not: bool },
    Drop { name: Vec<u8>, if_ex: bool },
    Begin, Commit, Rollback, Nop,
}

struct Ps { t: Vec<Tk>, i: usize, np: usize }
impl Ps {
    fn peek(&self) -> &Tk { &self.t[self.i] }
    fn next(&mut self) -> Tk { let t = self.t[self.i].clone(); if self.i + 1 < self.t.len() { self.i += 1; } t }
    fn is(&self, k: &[u8]) -> bool { matches!(self.peek(), Tk::Id(s) if s == k) }
    fn kw(&mut self, k: &[u8]) -> bool { if self.is(k) { self.i += 1; true } else { false } }
    fn p(&mut self, c: u8) -> bool { if *self.peek() == Tk::P(c) { self.i += 1; true } else { false } }
    fn need(&mut self, ok: bool) -> Option<()> { if ok { Some(()) } else { None } }
    fn id(&mut self) -> Option<Vec<u8>> {
        match self.next() { Tk::Id(mut s) => { while self.p(b'.') { match self.next() { Tk::Id(n) => s = n, Tk::P(b'*') => s = vec![b'*'], _ => return None } } Some(s) } Tk::Str(s) => Some(s), _ => None }
    }
    fn expr(&mut self) -> Option<Ex> {
        let mut a = self.and()?;
        while self.kw(b"or") { let b = self.and()?; a = Ex::Or(Box::new(a), Box::new(b)); }
        Some(a)
    }
    fn and(&mut self) -> Option<Ex> {
        let mut a = self.not()?;
        while self.kw(b"and") { let b = self.not()?; a = Ex::And(Box::new(a), Box::new(b)); }
        Some(a)
    }
    fn not(&mut self) -> Option<Ex> { if self.kw(b"not") { Some(Ex::Not(Box::new(self.not()?))) } else { self.cmp() } }
    fn cmp(&mut self) -> Option<Ex> {
        let mut a = self.sum()?;
        loop {
            let op = match self.peek() { Tk::P(b'=') => b'=', Tk::P(b'<') => b'<', Tk::P(b'>') => b'>', Tk::Ne => b'!', Tk::Le => b'l', Tk::Ge => b'g', _ => 0 };
            if op != 0 { self.i += 1; let b = self.sum()?; a = Ex::Cmp(op, Box::new(a), Box::new(b)); continue; }
            if self.kw(b"is") {
                let n = self.kw(b"not");
                if self.kw(b"null") { a = Ex::IsNull(Box::new(a), !n); continue; }
                let b = self.sum()?; let e = Ex::Cmp(b'=', Box::new(a), Box::new(b)); a = if n { Ex::Not(Box::new(e)) } else { e }; continue;
            }
            let neg = if self.is(b"not") && matches!(self.t.get(self.i + 1), Some(Tk::Id(s)) if s == b"in") { self.i += 1; true } else { false };
            if self.kw(b"in") {
                if !self.p(b'(') { return None; }
                a = if self.is(b"select") { let q = self.query()?; Ex::InQ(Box::new(a), Box::new(q), RefCell::new(None)) } else { let mut l = vec![]; if *self.peek() != Tk::P(b')') { l.push(self.expr()?); while self.p(b',') { l.push(self.expr()?); } } Ex::In(Box::new(a), l) };
                if !self.p(b')') { return None; }
                if neg { a = Ex::Not(Box::new(a)); }
                continue;
            }
            return Some(a);
        }
    }
    fn sum(&mut self) -> Option<Ex> {
        let mut a = self.prim()?;
        loop { if self.p(b'+') { let b = self.prim()?; a = Ex::Add(Box::new(a), Box::new(b), false); } else if self.p(b'-') { let b = self.prim()?; a = Ex::Add(Box::new(a), Box::new(b), true); } else { return Some(a); } }
    }
    fn prim(&mut self) -> Option<Ex> {
        Some(match self.next() {
            Tk::Num(n) => Ex::Lit(V::Int(n)),
            Tk::Str(s) => Ex::Lit(V::Text(s)),
            Tk::Param => { self.np += 1; Ex::Par(self.np - 1) }
            Tk::P(b'*') => Ex::Star,
            Tk::P(b'-') => match self.next() { Tk::Num(n) => Ex::Lit(V::Int(-n)), _ => return None },
            Tk::P(b'(') => { if self.is(b"select") { let q = self.query()?; if !self.p(b')') { return None; } Ex::Sub(Box::new(q)) } else { let e = self.expr()?; if !self.p(b')') { return None; } e } }
            Tk::Id(s) => {
                if s == b"null" { return Some(Ex::Lit(V::Null)); }
                if self.p(b'(') {
                    let dis = self.kw(b"distinct"); if dis { return None; }
                    let mut l = vec![];
                    if *self.peek() != Tk::P(b')') { l.push(self.expr()?); while self.p(b',') { l.push(self.expr()?); } }
                    if !self.p(b')') { return None; }
                    match (s.as_slice(), l.len()) {
                        (b"max", 1) => Ex::Max(Box::new(l.pop()?), true),
                        (b"min", 1) => Ex::Max(Box::new(l.pop()?), false),
                        (b"count", 1) => Ex::Count(Box::new(l.pop()?)),
                        (b"count", 0) => Ex::Count(Box::new(Ex::Star)),
                        (b"ifnull", 2) | (b"coalesce", _) => Ex::Ifnull(l),
                        _ => return None,
                    }
                } else { self.i -= 1; let n = self.id()?; if n == b"*" { Ex::Star } else { Ex::Col(n) } }
            }
            _ => return None,
        })
    }
    fn sel(&mut self) -> Option<Sel> {
        let d = self.kw(b"select"); self.need(d)?;
        let distinct = self.kw(b"distinct");
        let mut cols = vec![];
        loop { cols.push(self.expr()?); if self.kw(b"as") { self.id()?; } if !self.p(b',') { break; } }
        let mut from = None; let mut wher = None;
        if self.kw(b"from") { from = Some(self.id()?); }
        if self.kw(b"where") { wher = Some(self.expr()?); }
        Some(Sel { cols, distinct, from, wher })
    }
    fn query(&mut self) -> Option<Query> {
        let mut sels = vec![(0u8, self.sel()?)];
        loop {
            let op = if self.kw(b"intersect") { 1 } else if self.kw(b"union") { if self.kw(b"all") { 3 } else { 2 } } else if self.kw(b"except") { 4 } else { 0 };
            if op == 0 { break; }
            sels.push((op, self.sel()?));
        }
        let mut order = vec![]; let mut limit = None;
        if self.kw(b"order") { let b = self.kw(b"by"); self.need(b)?; loop { let e = self.expr()?; let d = self.kw(b"desc"); if !d { self.kw(b"asc"); } order.push((e, d)); if !self.p(b',') { break; } } }
        if self.kw(b"limit") { limit = Some(self.expr()?); }
        Some(Query { sels, order, limit })
    }
    fn ids(&mut self) -> Option<Vec<Vec<u8>>> { let mut v = vec![self.id()?]; while self.p(b',') { v.push(self.id()?); } Some(v) }
    fn stmt(&mut self) -> Option<St> {
        if self.is(b"select") { return Some(St::Query(self.query()?)); }
        let w = match self.next() { Tk::Id(s) => s, _ => return None };
        Some(match w.as_slice() {
            b"insert" | b"replace" => {
                let mut how = if w == b"replace" { 1 } else { 0 };
                if self.kw(b"or") { how = if self.kw(b"replace") { 1 } else if self.kw(b"ignore") { 2 } else if self.kw(b"abort") || self.kw(b"fail") || self.kw(b"rollback") { 0 } else { return None }; }
                let i = self.kw(b"into"); self.need(i)?;
                let table = self.id()?;
                let mut cols = vec![];
                if self.p(b'(') { cols = self.ids()?; let c = self.p(b')'); self.need(c)?; }
                let v = self.kw(b"values"); self.need(v)?;
                let mut rows = vec![];
                loop {
                    let o = self.p(b'('); self.need(o)?;
                    let mut r = vec![self.expr()?]; while self.p(b',') { r.push(self.expr()?); }
                    let c = self.p(b')'); self.need(c)?;
                    rows.push(r);
                    if !self.p(b',') { break; }
                }
                St::Insert { table, cols, rows, how }
            }
            b"delete" => { let f = self.kw(b"from"); self.need(f)?; let table = self.id()?; let wher = if self.kw(b"where") { Some(self.expr()?) } else { None }; St::Delete { table, wher } }
            b"update" => {
                if self.kw(b"or") { self.next(); }
                let table = self.id()?; let s = self.kw(b"set"); self.need(s)?;
                let mut sets = vec![];
                loop { let c = self.id()?; let e = self.p(b'='); self.need(e)?; sets.push((c, self.sum()?)); if !self.p(b',') { break; } }
                let wher = if self.kw(b"where") { Some(self.expr()?) } else { None };
                St::Update { table, sets, wher }
            }
            b"create" => {
                if self.kw(b"unique") || self.is(b"index") { return Some(St::Nop); }
                let t = self.kw(b"table"); self.need(t)?;
                let mut if_not = false;
                if self.kw(b"if") { let n = self.kw(b"not"); self.need(n)?; let e = self.kw(b"exists"); self.need(e)?; if_not = true; }
                let name = self.id()?;
                let mut t = Table { name, cols: vec![], text: vec![], notnull: vec![], uniq: vec![], rows: vec![] };
                let o = self.p(b'('); self.need(o)?;
                loop {
                    if self.is(b"unique") || self.is(b"primary") {
                        if self.kw(b"primary") { let k = self.kw(b"key"); self.need(k)?; } else { self.i += 1; }
                        let o = self.p(b'('); self.need(o)?;
                        let l = self.ids()?; let c = self.p(b')'); self.need(c)?;
                        let mut u = vec![]; for n in l { u.push(t.cols.iter().position(|x| *x == n)?); }
                        t.uniq.push(u);
                    } else {
                        let n = self.id()?;
                        let at = t.cols.len();
                        t.cols.push(n); t.text.push(false); t.notnull.push(false);
                        loop {
                            if self.kw(b"not") { let n = self.kw(b"null"); self.need(n)?; t.notnull[at] = true; }
                            else if self.kw(b"primary") { let n = self.kw(b"key"); self.need(n)?; t.uniq.push(vec![at]); }
                            else if self.kw(b"unique") { t.uniq.push(vec![at]); }
                            else if self.kw(b"on") { let c = self.kw(b"conflict"); self.need(c)?; self.next(); }
                            else if let Tk::Id(ty) = self.peek().clone() { if ty == b"text" || ty == b"varchar" || ty == b"char" { t.text[at] = true; } self.i += 1; }
                            else if *self.peek() == Tk::P(b'(') { while !self.p(b')') { if *self.peek() == Tk::End { return None; } self.next(); } }
                            else { break; }
                        }
                    }
                    if !self.p(b',') { break; }
                }
                let c = self.p(b')'); self.need(c)?;
                St::Create { t, if_not }
            }
            b"drop" => { let t = self.kw(b"table"); if !t { return Some(St::Nop); } let mut if_ex = false; if self.kw(b"if") { let e = self.kw(b"exists"); self.need(e)?; if_ex = true; } St::Drop { name: self.id()?, if_ex } }
            b"begin" => St::Begin,
            b"commit" | b"end" => St::Commit,
            b"rollback" => { if self.kw(b"to") { return None; } St::Rollback }
            b"pragma" | b"vacuum" | b"analyze" | b"attach" | b"detach" => St::Nop,
            _ => return None,
        })
    }
}

// ---- evaluation ----
struct Env<'a> { db: &'a Db, par: &'a [V] }
struct Src<'a> { cols: &'a [Vec<u8>], row: &'a [V] }

fn truth(v: V) -> Option<bool> { match v { V::Null => None, V::Int(i) => Some(i != 0), V::Real(r) => Some(r != 0.0), _ => Some(false) } }
fn b2v(b: Option<bool>) -> V { match b { None => V::Null, Some(b) => V::Int(b as i64) } }

fn cond(e: &Ex, env: &Env, s: &Src) -> Result<Option<bool>, c_int> {
    Ok(match e {
        Ex::And(a, b) => { match cond(a, env, s)? { Some(false) => Some(false), x => match cond(b, env, s)? { Some(false) => Some(false), y => if x == Some(true) && y == Some(true) { Some(true) } else { None } } } }
        Ex::Or(a, b) => { match cond(a, env, s)? { Some(true) => Some(true), x => match cond(b, env, s)? { Some(true) => Some(true), y => if x == Some(false) && y == Some(false) { Some(false) } else { None } } } }
        Ex::Not(a) => cond(a, env, s)?.map(|b| !b),
        Ex::IsNull(a, n) => Some(matches!(val(a, env, s)?, V::Null) == *n),
        Ex::Cmp(op, a, b) => {
            let (x, y) = (val(a, env, s)?, val(b, env, s)?);
            match op {
                b'=' => x.same(&y),
                b'!' => x.same(&y).map(|b| !b),
                _ => if matches!(x, V::Null) || matches!(y, V::Null) { None } else { let o = x.order(&y); Some(match op { b'<' => o == Ordering::Less, b'>' => o == Ordering::Greater, b'l' => o != Ordering::Greater, _ => o != Ordering::Less }) },
            }
        }
        Ex::In(a, l) => {
            let x = val(a, env, s)?;
            let mut r = Some(false);
            for e in l { match x.same(&val(e, env, s)?) { Some(true) => { r = Some(true); break; } None => r = None, _ => () } }
            r
        }
        Ex::InQ(a, q, cache) => {
            let x = val(a, env, s)?;
            if cache.borrow().is_none() {
                let r = query(q, env)?;
                *cache.borrow_mut() = Some(r.into_iter().map(|mut r| r.swap_remove(0)).collect());
            }
            let c = cache.borrow();
            let mut r = Some(false);
            for e in c.as_ref().unwrap() { match x.same(e) { Some(true) => { r = Some(true); break; } None => r = None, _ => () } }
            r
        }
        _ => truth(val(e, env, s)?),
    })
}
fn val(e: &Ex, env: &Env, s: &Src) -> Result<V, c_int> {
    Ok(match e {
        Ex::Col(n) => match s.cols.iter().position(|c| c == n) { Some(i) => s.row[i].clone(), None => return Err(ERROR) },
        Ex::Par(i) => env.par[*i].clone(),
        Ex::Lit(v) => v.clone(),
        Ex::Ifnull(l) => { let mut r = V::Null; for e in l { r = val(e, env, s)?; if !matches!(r, V::Null) { break; } } r }
        Ex::Add(a, b, m) => { let (x, y) = (val(a, env, s)?, val(b, env, s)?); if matches!(x, V::Null) || matches!(y, V::Null) { V::Null } else if *m { V::Int(x.int().wrapping_sub(y.int())) } else { V::Int(x.int().wrapping_add(y.int())) } }
        Ex::Sub(q) => match query(q, env)?.into_iter().next() { Some(mut r) => r.swap_remove(0), None => V::Null },
        Ex::Star | Ex::Max(..) | Ex::Count(_) => return Err(ERROR),
        _ => b2v(cond(e, env, s)?),
    })
}
fn aggregate(e: &Ex) -> bool { match e { Ex::Max(..) | Ex::Count(_) => true, Ex::Ifnull(l) => l.iter().any(aggregate), Ex::Add(a, b, _) | Ex::Cmp(_, a, b) => aggregate(a) || aggregate(b), _ => false } }
fn agg(e: &Ex, env: &Env, cols: &[Vec<u8>], rows: &[Vec<V>]) -> Result<V, c_int> {
    Ok(match e {
        Ex::Count(x) => { let mut n = 0; for r in rows { if matches!(**x, Ex::Star) || !matches!(val(x, env, &Src { cols, row: r })?, V::Null) { n += 1; } } V::Int(n) }
        Ex::Max(x, max) => { let mut m = V::Null; for r in rows { let v = val(x, env, &Src { cols, row: r })?; if matches!(v, V::Null) { continue; } if matches!(m, V::Null) || (v.order(&m) == Ordering::Greater) == *max && v.order(&m) != Ordering::Equal { m = v; } } m }
        Ex::Ifnull(l) => { let mut r = V::Null; for e in l { r = agg(e, env, cols, rows)?; if !matches!(r, V::Null) { break; } } r }
        Ex::Add(a, b, m) => { let (x, y) = (agg(a, env, cols, rows)?, agg(b, env, cols, rows)?); if matches!(x, V::Null) || matches!(y, V::Null) { V::Null } else if *m { V::Int(x.int() - y.int()) } else { V::Int(x.int() + y.int()) } }
        Ex::Cmp(b'=', a, b) => b2v(agg(a, env, cols, rows)?.same(&agg(b, env, cols, rows)?)),
        Ex::Lit(v) => v.clone(),
        Ex::Par(i) => env.par[*i].clone(),
        _ => return Err(ERROR),
    })
}
fn uncache(e: &Ex) {
    match e {
        Ex::InQ(a, q, c) => { *c.borrow_mut() = None; uncache(a); for (_, s) in &q.sels { if let Some(w) = &s.wher { uncache(w); } } }
        Ex::And(a, b) | Ex::Or(a, b) | Ex::Cmp(_, a, b) => { uncache(a); uncache(b); }
        Ex::Not(a) | Ex::IsNull(a, _) | Ex::In(a, _) => uncache(a),
        _ => (),
    }
}
fn row_eq(a: &[V], b: &[V]) -> bool { for i in 0..a.len() { match (&a[i], &b[i]) { (V::Null, V::Null) => (), (x, y) => if x.same(y) != Some(true) { return false; } } } true }

/// rows of a select, and the rows they come from
fn select(s: &Sel, env: &Env) -> Result<(Vec<Vec<V>>, Vec<Vec<V>>, Vec<Vec<u8>>), c_int> {
    let master;
    let (cols, rows): (&[Vec<u8>], &[Vec<V>]) = match &s.from {
        None => (&[], &[]),
        Some(n) if n == b"sqlite_master" || n == b"sqlite_schema" => {
            let m = |x: &[u8]| V::Text(x.to_vec());
            master = (vec![b"type".to_vec(), b"name".to_vec(), b"tbl_name".to_vec()], env.db.tables.iter().map(|t| vec![m(b"table"), m(&t.name), m(&t.name)]).collect::<Vec<_>>());
            (&master.0, &master.1)
        }
        Some(n) => { let t = &env.db.tables[env.db.table(n).ok_or(ERROR)?]; (&t.cols, &t.rows) }
    };
    if let Some(w) = &s.wher { uncache(w); }
    let mut keep: Vec<Vec<V>> = vec![];
    let none: Vec<Vec<V>> = vec![vec![]];
    for r in if s.from.is_none() { &none[..] } else { rows } {
        let ok = match &s.wher { None => true, Some(w) => cond(w, env, &Src { cols, row: r })? == Some(true) };
        if ok { keep.push(r.clone()); }
    }
    if unsafe { SQL_REVERSE } { keep.reverse(); }
    let mut out = vec![];
    if s.cols.iter().any(aggregate) {
        let mut r = vec![];
        for c in &s.cols { r.push(agg(c, env, cols, &keep)?); }
        return Ok((vec![r], vec![vec![]], vec![]));
    }
    for k in &keep {
        let mut r = vec![];
        for c in &s.cols { if let Ex::Star = c { r.extend(k.iter().cloned()); } else { r.push(val(c, env, &Src { cols, row: k })?); } }
        out.push(r);
    }
    if s.distinct { let mut d: Vec<Vec<V>> = vec![]; for r in out { if !d.iter().any(|x| row_eq(x, &r)) { d.push(r); } } return Ok((d, vec![], vec![])); }
    Ok((out, keep, cols.to_vec()))
}
fn query(q: &Query, env: &Env) -> Result<Vec<Vec<V>>, c_int> {
    let (mut out, keep, cols) = select(&q.sels[0].1, env)?;
    for (op, s) in &q.sels[1..] {
        let (o, _, _) = select(s, env)?;
        match op {
            1 => out.retain(|r| o.iter().any(|x| row_eq(x, r))),
            4 => out.retain(|r| !o.iter().any(|x| row_eq(x, r))),
            _ => out.extend(o),
        }
        if *op != 3 { let mut d: Vec<Vec<V>> = vec![]; for r in out { if !d.iter().any(|x| row_eq(x, &r)) { d.push(r); } } out = d; }
    }
    if !q.order.is_empty() {
        if q.sels.len() > 1 || keep.len() != out.len() { return Err(ERROR); }
        let mut idx: Vec<usize> = (0..out.len()).collect();
        let mut keys = vec![];
        for k in &keep { let mut v = vec![]; for (e, _) in &q.order { v.push(match e { Ex::Lit(V::Int(_)) => return Err(ERROR), _ => val(e, env, &Src { cols: &cols, row: k })? }); } keys.push(v); }
        idx.sort_by(|a, b| { for (i, (_, d)) in q.order.iter().enumerate() { let o = keys[*a][i].order(&keys[*b][i]); if o != Ordering::Equal { return if *d { o.reverse() } else { o }; } } Ordering::Equal });
        let mut s = vec![]; for i in idx { s.push(out[i].clone()); }
        out = s;
    }
    if let Some(l) = &q.limit { let n = val(l, env, &Src { cols: &[], row: &[] })?.int(); if n >= 0 { out.truncate(n as usize); } }
    Ok(out)
}

fn run(c: &mut Conn, st: &St, par: &[V]) -> Result<Vec<Vec<V>>, c_int> {
    let kind = match st { St::Query(_) => 0, St::Insert { .. } | St::Delete { .. } | St::Update { .. } => 1, St::Begin => 2, St::Commit => 3, St::Rollback => 4, St::Create { .. } | St::Drop { .. } => 5, St::Nop => 9 };
    if kind < 9 { if let Some(f) = unsafe { SQL_FAULT } { if f(kind) { return Err(IOERR); } } }
    let db = unsafe { &mut FILES[c.file].1 };
    match st {
        St::Query(q) => return query(q, &Env { db, par }),
        St::Nop => (),
        St::Begin => { if c.saved.is_some() { return Err(ERROR); } c.saved = Some(db.clone()); }
        St::Commit => { if c.saved.take().is_none() { return Err(ERROR); } }
        St::Rollback => match c.saved.take() { Some(s) => *db = s, None => return Err(ERROR) },
        St::Create { t, if_not } => { if db.table(&t.name).is_some() { return if *if_not { Ok(vec![]) } else { Err(ERROR) }; } db.tables.push(t.clone()); }
        St::Drop { name, if_ex } => match db.table(name) { Some(i) => { db.tables.remove(i); } None => if !*if_ex { return Err(ERROR); } },
        St::Delete { table, wher } => {
            let i = db.table(table).ok_or(ERROR)?;
            if let Some(w) = wher { uncache(w); }
            let mut keep = vec![]; let mut n = 0;
            for r in &db.tables[i].rows {
                let hit = match wher { None => true, Some(w) => cond(w, &Env { db, par }, &Src { cols: &db.tables[i].cols, row: r })? == Some(true) };
                if hit { n += 1; } else { keep.push(r.clone()); }
            }
            db.tables[i].rows = keep; c.changes = n;
        }
        St::Update { table, sets, wher } => {
            let i = db.table(table).ok_or(ERROR)?;
            if let Some(w) = wher { uncache(w); }
            let mut rows = vec![]; let mut n = 0;
            for r in &db.tables[i].rows {
                let env = Env { db, par }; let src = Src { cols: &db.tables[i].cols, row: r };
                let hit = match wher { None => true, Some(w) => cond(w, &env, &src)? == Some(true) };
                let mut x = r.clone();
                if hit { n += 1; for (cn, e) in sets { let k = db.tables[i].cols.iter().position(|y| y == cn).ok_or(ERROR)?; x[k] = val(e, &env, &src)?; } }
                rows.push(x);
            }
            for u in &db.tables[i].uniq { for a in 0..rows.len() { for b in 0..a { if u.iter().all(|k| rows[a][*k].same(&rows[b][*k]) == Some(true)) { return Err(CONSTRAINT); } } } }
            db.tables[i].rows = rows; c.changes = n;
        }
        St::Insert { table, cols, rows, how } => {
            let i = db.table(table).ok_or(ERROR)?;
            let mut n = 0;
            for r in rows {
                let mut vals = vec![];
                for e in r { vals.push(val(e, &Env { db, par }, &Src { cols: &[], row: &[] })?); }
                let t = &mut db.tables[i];
                let mut row = vec![V::Null; t.cols.len()];
                if cols.is_empty() { if vals.len() != row.len() { return Err(ERROR); } row = vals; }
                else { if vals.len() != cols.len() { return Err(ERROR); } for (cn, v) in cols.iter().zip(vals) { let k = t.cols.iter().position(|y| y == cn).ok_or(ERROR)?; row[k] = v; } }
                for k in 0..row.len() {
                    if t.notnull[k] && matches!(row[k], V::Null) { return Err(CONSTRAINT); }
                    if t.text[k] { if let V::Int(x) = row[k] { row[k] = V::Text(x.to_string().into_bytes()); } }
                }
                let clash: Vec<usize> = (0..t.rows.len()).filter(|j| t.uniq.iter().any(|u| u.iter().all(|k| t.rows[*j][*k].same(&row[*k]) == Some(true)))).collect();
                if !clash.is_empty() { match how { 0 => return Err(CONSTRAINT), 2 => continue, _ => for j in clash.into_iter().rev() { t.rows.remove(j); } } }
                t.rows.push(row); n += 1;
            }
            c.changes = n;
        }
    }
    Ok(vec![])
}

// ---- the C interface ----
pub struct Stmt { conn: *mut Conn, st: St, par: Vec<V>, ncols: usize, rows: Vec<Vec<V>>, pos: usize, ran: bool }

unsafe fn cstr(p: *const c_char) -> Vec<u8> { let mut v = vec![]; let mut i = 0; unsafe { while *p.add(i) != 0 { v.push(*p.add(i) as u8); i += 1; } } v }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_threadsafe() -> c_int { 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_libversion_number() -> c_int { 3045001 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_mutex_alloc(_: c_int) -> *mut c_void { Box::into_raw(Box::new(0u64)) as *mut c_void }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_mutex_free(p: *mut c_void) { unsafe { drop(Box::from_raw(p as *mut u64)) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_open_v2(name: *const c_char, db: *mut *mut Conn, _flags: c_int, _vfs: *const c_char) -> c_int {
    unsafe {
        let n = cstr(name);
        let found = if n.is_empty() || n == b":memory:" { None } else { FILES.iter().position(|(f, _)| *f == n) };
        let file = match found { Some(i) => i, None => { FILES.push((n, Db { tables: vec![] })); FILES.len() - 1 } };
        *db = Box::into_raw(Box::new(Conn { file, saved: None, err: 0, changes: 0 }));
    }
    OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_close(db: *mut Conn) -> c_int {
    if db.is_null() { return OK; }
    unsafe { let mut c = Box::from_raw(db); if let Some(s) = c.saved.take() { FILES[c.file].1 = s; } }
    OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_extended_result_codes(_: *mut Conn, _: c_int) -> c_int { OK }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_busy_timeout(_: *mut Conn, _: c_int) -> c_int { OK }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_db_filename(_: *mut Conn, _: *const c_char) -> *const c_char { c"".as_ptr() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_errcode(db: *mut Conn) -> c_int { unsafe { (*db).err } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_extended_errcode(db: *mut Conn) -> c_int { unsafe { (*db).err } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_errmsg(_: *mut Conn) -> *const c_char { c"sql error".as_ptr() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_errstr(_: c_int) -> *const c_char { c"sql error".as_ptr() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_error_offset(_: *mut Conn) -> c_int { -1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_get_autocommit(db: *mut Conn) -> c_int { unsafe { (*db).saved.is_none() as c_int } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_changes(db: *mut Conn) -> c_int { unsafe { (*db).changes } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_changes64(db: *mut Conn) -> i64 { unsafe { (*db).changes as i64 } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_last_insert_rowid(_: *mut Conn) -> i64 { 1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_prepare_v3(db: *mut Conn, sql: *const c_char, n: c_int, _flags: c_int, out: *mut *mut Stmt, tail: *mut *const c_char) -> c_int {
    unsafe {
        *out = core::ptr::null_mut();
        let s = if n < 0 { cstr(sql) } else { core::slice::from_raw_parts(sql as *const u8, n as usize).to_vec() };
        let Some((toks, used)) = lex(&s) else { SQL_UNKNOWN += 1; (*db).err = ERROR; return ERROR; };
        if !tail.is_null() { *tail = sql.add(used); }
        if toks.len() == 1 { return OK; }
        let mut p = Ps { t: toks, i: 0, np: 0 };
        let st = match p.stmt() { Some(s) => s, None => { SQL_UNKNOWN += 1; (*db).err = ERROR; return ERROR; } };
        if !matches!(st, St::Nop | St::Begin | St::Commit) && *p.peek() != Tk::End { SQL_UNKNOWN += 1; (*db).err = ERROR; return ERROR; }
        // an unknown table is an error now
        let d = &FILES[(*db).file].1;
        let mut ncols = 0;
        let miss = match &st {
            St::Query(q) => {
                for c in &q.sels[0].1.cols {
                    if let Ex::Star = c { if let Some(f) = &q.sels[0].1.from { if let Some(t) = d.table(f) { ncols += d.tables[t].cols.len(); } } } else { ncols += 1; }
                }
                q.sels.iter().any(|(_, s)| match &s.from { Some(f) => d.table(f).is_none() && f != b"sqlite_master" && f != b"sqlite_schema", None => false })
            }
            St::Insert { table, .. } | St::Delete { table, .. } | St::Update { table, .. } => d.table(table).is_none(),
            St::Drop { name, if_ex } => !*if_ex && d.table(name).is_none(),
            St::Create { t, if_not } => !*if_not && d.table(&t.name).is_some(),
            _ => false,
        };
        if miss { (*db).err = ERROR; return ERROR; }
        let par = vec![V::Null; p.np];
        *out = Box::into_raw(Box::new(Stmt { conn: db, st, par, ncols, rows: vec![], pos: 0, ran: false }));
        OK
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_finalize(s: *mut Stmt) -> c_int { if !s.is_null() { unsafe { drop(Box::from_raw(s)) } } OK }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_reset(s: *mut Stmt) -> c_int { if !s.is_null() { unsafe { (*s).rows = vec![]; (*s).pos = 0; (*s).ran = false; } } OK }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_clear_bindings(s: *mut Stmt) -> c_int { unsafe { for p in (*s).par.iter_mut() { *p = V::Null; } } OK }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_step(s: *mut Stmt) -> c_int {
    unsafe {
        let s = &mut *s;
        if !s.ran {
            match run(&mut *s.conn, &s.st, &s.par) { Ok(r) => { s.rows = r; s.pos = 0; s.ran = true; } Err(e) => { (*s.conn).err = e; return e; } }
        } else { s.pos += 1; }
        if s.pos < s.rows.len() { ROW } else { s.ran = false; s.rows = vec![]; s.pos = 0; DONE }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_parameter_count(s: *mut Stmt) -> c_int { unsafe { (*s).par.len() as c_int } }
unsafe fn bind(s: *mut Stmt, i: c_int, v: V) -> c_int {
    unsafe {
        let s = &mut *s;
        if s.ran { return MISUSE; }
        if i < 1 || i as usize > s.par.len() { return RANGE; }
        s.par[i as usize - 1] = v;
    }
    OK
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_null(s: *mut Stmt, i: c_int) -> c_int { unsafe { bind(s, i, V::Null) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_int64(s: *mut Stmt, i: c_int, v: i64) -> c_int { unsafe { bind(s, i, V::Int(v)) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_double(s: *mut Stmt, i: c_int, v: f64) -> c_int { unsafe { bind(s, i, V::Real(v)) } }
unsafe fn buf(p: *const c_char, n: u64) -> Vec<u8> { if n == 0 { vec![] } else { unsafe { core::slice::from_raw_parts(p as *const u8, n as usize).to_vec() } } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_text64(s: *mut Stmt, i: c_int, p: *const c_char, n: u64, _: *const c_void, _: u8) -> c_int { unsafe { bind(s, i, V::Text(buf(p, n))) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_blob64(s: *mut Stmt, i: c_int, p: *const c_void, n: u64, _: *const c_void) -> c_int { unsafe { bind(s, i, V::Blob(buf(p as *const c_char, n))) } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_bind_zeroblob(s: *mut Stmt, i: c_int, n: c_int) -> c_int { unsafe { bind(s, i, V::Blob(vec![0; n as usize])) } }
unsafe fn col<'a>(s: *mut Stmt, i: c_int) -> &'a V { unsafe { let s = &*s; if s.pos < s.rows.len() && (i as usize) < s.rows[s.pos].len() { &s.rows[s.pos][i as usize] } else { &V::Null } } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_count(s: *mut Stmt) -> c_int { unsafe { (*s).ncols as c_int } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_name(_: *mut Stmt, _: c_int) -> *const c_char { c"column".as_ptr() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_type(s: *mut Stmt, i: c_int) -> c_int { match unsafe { col(s, i) } { V::Int(_) => 1, V::Real(_) => 2, V::Text(_) => 3, V::Blob(_) => 4, V::Null => 5 } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_int64(s: *mut Stmt, i: c_int) -> i64 { unsafe { col(s, i) }.int() }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_double(s: *mut Stmt, i: c_int) -> f64 { match unsafe { col(s, i) } { V::Real(r) => *r, v => v.int() as f64 } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_text(s: *mut Stmt, i: c_int) -> *const u8 { match unsafe { col(s, i) } { V::Text(t) | V::Blob(t) => if t.is_empty() { c"".as_ptr() as *const u8 } else { t.as_ptr() }, _ => core::ptr::null() } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_blob(s: *mut Stmt, i: c_int) -> *const c_void { match unsafe { col(s, i) } { V::Text(t) | V::Blob(t) => if t.is_empty() { core::ptr::null() } else { t.as_ptr() as *const c_void }, _ => core::ptr::null() } }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sqlite3_column_bytes(s: *mut Stmt, i: c_int) -> c_int { match unsafe { col(s, i) } { V::Text(t) | V::Blob(t) => t.len() as c_int, _ => 0 } }
