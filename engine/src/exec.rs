//! Symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: usize,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    dst: u32,
    invoke_to: Option<u32>,
}
#[derive(Clone)]
struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    model: Vec<u8>,
    known: Rc<FxMap<E, u128>>,
    outs: Vec<(Val, u32)>,
    syms: Vec<(String, u32, u32)>, // name, first var, len
    nsym: u32,
    steps: u64,
    rng: u64,
    errno: u64,
    clock: u64,
    allow_panic: bool,
    forks: u32,
}

enum Stop {
    /// normal end of the path
    Done,
    /// assumption cannot hold
    Infeasible,
    /// property violated (kind, message); ends the path
    Bad(String, String),
    /// could not be analysed
    Incomplete(String),
}
type R<T> = Result<T, Stop>;

struct Viol {
    kind: String,
    msg: String,
    input: Vec<u8>,
    stack: Vec<String>,
    syms: Vec<(String, Vec<u8>)>,
    outs: Vec<u128>,
}
struct Test {
    input: Vec<u8>,
    outs: Vec<u128>,
    end: String,
}

struct Opts {
    max_paths: u64,
    max_steps: u64,
    timeout: f64,
    tests: usize,
    max_viol: usize,
    trace: bool,
    prof: bool,
    verbose: bool,
}

struct Exec {
    m: Module,
    a: Arena,
    s: Solver,
    work: Vec<State>,
    params: BTreeMap<i64, i64>,
    viols: Vec<Viol>,
    incomplete: BTreeMap<String, u64>,
    covers: BTreeMap<String, u64>,
    expected: BTreeSet<String>,
    tests: Vec<Test>,
    used: Vec<u64>,
    paths: u64,
    infeasible: u64,
    done: u64,
    forks: u64,
    asserts: u64,
    assert_queries: u64,
    steps: u64,
    opts: Opts,
    t0: Instant,
    isp: Vec<u8>, // per function: 0 unknown 1 normal 2 panic
    decisions: FxMap<(u32, u32, usize), (u64, u64)>,
    prof: Vec<u64>,
}

fn vi(v: &Val) -> Option<u64> {
    if let Val::I(x) = v {
        Some(*x)
    } else {
        None
    }
}

impl Exec {
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.a.konst(w, *x as u128),
            Val::W(x) => self.a.konst(w, **x),
            Val::S(e) => {
                debug_assert_eq!(self.a.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        let n = &self.a.n[e as usize];
        if n.op == Op::Const {
            mkval(n.k, n.w as u32)
        } else {
            Val::S(e)
        }
    }
    fn get(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::C(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, r: u32, v: Val) {
        if r != u32::MAX {
            st.frames.last_mut().unwrap().regs[r as usize] = v;
        }
    }
    fn concrete(v: &Val) -> Option<u128> {
        match v {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }

    // ---- forking ----------------------------------------------------
    fn adopt(&self, st: &mut State, m: &[(u32, u8)]) {
        for (v, x) in m {
            if st.model.len() <= *v as usize {
                st.model.resize(*v as usize + 1, 0);
            }
            st.model[*v as usize] = *x;
        }
    }
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.a.is_const(e) {
            return Ok(k);
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let w = self.a.w(e);
        let v = self.a.eval(e, &st.model);
        let kv = self.a.konst(w, v);
        let eq = self.a.eq(e, kv);
        let ne = self.a.not(eq);
        match self.s.check(&mut self.a, &st.pc, ne) {
            Sat::Sat(m) => {
                let mut o = st.clone();
                o.pc.push(ne);
                self.adopt(&mut o, &m);
                o.forks += 1;
                if w == 1 {
                    Rc::make_mut(&mut o.known).insert(e, 1 - v);
                }
                self.forks += 1;
                if self.opts.prof {
                    let fr = st.frames.last().unwrap();
                    let d = self.decisions.entry((fr.f.id, fr.blk, fr.ip)).or_default();
                    d.0 += 1;
                }
                self.work.push(o);
                st.pc.push(eq);
            }
            Sat::Unsat => {}
            Sat::Unknown => return Err(Stop::Incomplete("solver timeout at branch".into())),
        }
        Rc::make_mut(&mut st.known).insert(e, v);
        Ok(v)
    }
    fn cval(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => Ok(self.concretize(st, *e)? as u64),
            Val::A(_) => Err(Stop::Incomplete("aggregate concretize".into())),
        }
    }
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        Ok(self.cval(st, v)? & 1 == 1)
    }

    // ---- memory -----------------------------------------------------
    fn memerr(&self, e: MemErr) -> Stop {
        let s = match e {
            MemErr::Null(a) => format!("null-like pointer dereference {:#x}", a),
            MemErr::Bad(a) => format!("invalid pointer {:#x} (freed or never allocated)", a),
            MemErr::Oob(o, n, s) => format!("out-of-bounds access: offset {} length {} in object of {} bytes", o as i64, n, s),
            MemErr::ReadOnly(_) => "write to constant memory".into(),
            MemErr::BadFree(_) => "invalid or double free".into(),
        };
        Stop::Bad("memory".into(), s)
    }
    fn load_at(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if n == 0 {
            return Val::I(0);
        }
        if let Some(sym) = &o.sym {
            if sym[off..off + n].iter().any(|x| *x != 0) {
                if n > 16 {
                    panic!("wide symbolic load");
                }
                let mut r: Option<E> = None;
                for i in 0..n {
                    let b = if sym[off + i] != 0 { sym[off + i] } else { self.a.konst(8, o.b[off + i] as u128) };
                    r = Some(match r {
                        None => b,
                        Some(l) => self.a.concat(b, l),
                    });
                }
                return self.v(r.unwrap());
            }
        }
        if n <= 8 {
            let mut by = [0u8; 8];
            by[..n].copy_from_slice(&o.b[off..off + n]);
            Val::I(u64::from_le_bytes(by))
        } else {
            let mut by = [0u8; 16];
            by[..n].copy_from_slice(&o.b[off..off + n]);
            Val::W(Box::new(u128::from_le_bytes(by)))
        }
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        let o = match st.mem.read(addr, n) {
            Ok((o, off)) => {
                if o.sym.is_none() && n <= 8 {
                    let mut by = [0u8; 8];
                    by[..n as usize].copy_from_slice(&o.b[off..off + n as usize]);
                    let x = u64::from_le_bytes(by);
                    return Ok(Val::I(if w < 64 { x & ((1u64 << w) - 1) } else { x }));
                }
                (unsafe { &*(o as *const Obj) }, off)
            }
            Err(e) => return Err(self.memerr(e)),
        };
        let v = self.load_at(o.0, o.1, n as usize);
        if w % 8 == 0 && w != 0 {
            // W for >64 only
            if w <= 64 {
                return Ok(match v {
                    Val::W(x) => Val::I(*x as u64),
                    v => v,
                });
            }
            return Ok(match v {
                Val::I(x) => Val::W(Box::new(x as u128)),
                v => v,
            });
        }
        Ok(match v {
            Val::I(x) => mkval(x as u128 & mask(w), w),
            Val::W(x) => mkval(*x & mask(w), w),
            Val::S(e) => {
                let t = self.a.extract(e, w - 1, 0);
                self.v(t)
            }
            v => v,
        })
    }
    fn load_ty(&mut self, st: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 {
                    // packed bits
                    let v = self.load_int(st, addr, t.bits())?;
                    return Ok(self.int_to_vec(&v, *n, e.bits()));
                }
                let s = e.store_size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + i * s, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let o = t.offsets();
                let mut v = vec![];
                for (i, x) in o.iter().enumerate() {
                    v.push(self.load_ty(st, addr + x, &t.elem(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Incomplete(format!("load of {:?}", t))),
        }
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if let Val::S(e) = v {
            // split into bytes
            let e = if w as usize != n * 8 { self.a.zext(*e, n as u32 * 8) } else { *e };
            let mut bytes = [0u32; 16];
            for i in 0..n {
                bytes[i] = self.a.extract(e, i as u32 * 8 + 7, i as u32 * 8);
            }
            let (o, off) = match st.mem.write(addr, n as u64) {
                Ok(x) => x,
                Err(e) => return Err(self.memerr(e)),
            };
            let len = o.b.len();
            let sym = o.sym.get_or_insert_with(|| vec![0; len]);
            for i in 0..n {
                match self.a.is_const(bytes[i]) {
                    Some(k) => {
                        sym[off + i] = 0;
                        o.b[off + i] = k as u8;
                    }
                    None => sym[off + i] = bytes[i],
                }
            }
            return Ok(());
        }
        let x = match Self::concrete(v) {
            Some(x) => x,
            None => return Err(Stop::Incomplete("store aggregate as int".into())),
        };
        let (o, off) = match st.mem.write(addr, n as u64) {
            Ok(x) => x,
            Err(e) => return Err(self.memerr(e)),
        };
        let by = x.to_le_bytes();
        o.b[off..off + n].copy_from_slice(&by[..n]);
        if let Some(s) = &mut o.sym {
            for i in 0..n {
                s[off + i] = 0;
            }
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => self.store_int(st, addr, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(st, addr, 64, v),
            Ty::F32 => self.store_int(st, addr, 32, v),
            Ty::Vec(_, e) => {
                if let Val::A(x) = v {
                    if e.bits() % 8 != 0 {
                        let i = self.vec_to_int(v, e.bits());
                        return self.store_int(st, addr, t.bits(), &i);
                    }
                    let s = e.store_size();
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, addr + i as u64 * s, e, y)?;
                    }
                }
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                if let Val::A(x) = v {
                    let o = t.offsets();
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, addr + o[i], &t.elem(i), y)?;
                    }
                }
                Ok(())
            }
            _ => Err(Stop::Incomplete(format!("store of {:?}", t))),
        }
    }
    fn vec_to_int(&mut self, v: &Val, ew: u32) -> Val {
        if let Val::A(x) = v {
            if x.iter().all(|y| matches!(y, Val::I(_))) {
                let mut r = 0u128;
                for (i, y) in x.iter().enumerate() {
                    r |= (vi(y).unwrap() as u128) << (i as u32 * ew);
                }
                return mkval(r, ew * x.len() as u32);
            }
            let mut r = self.e(&x[0], ew);
            for y in x[1..].iter() {
                let h = self.e(y, ew);
                r = self.a.concat(h, r);
            }
            return self.v(r);
        }
        v.clone()
    }
    fn int_to_vec(&mut self, v: &Val, n: u64, ew: u32) -> Val {
        let tot = n as u32 * ew;
        let mut out = vec![];
        match Self::concrete(v) {
            Some(x) => {
                for i in 0..n as u32 {
                    out.push(mkval((x >> (i * ew)) & mask(ew), ew));
                }
            }
            None => {
                let e = self.e(v, tot);
                for i in 0..n as u32 {
                    let t = self.a.extract(e, i * ew + ew - 1, i * ew);
                    out.push(self.v(t));
                }
            }
        }
        Val::A(Rc::new(out))
    }
    /// Table-style read through a symbolic address: ITE over the candidate offsets.
    fn sym_read(&mut self, st: &mut State, e: E, t: &Ty) -> R<Option<Val>> {
        let (w, sc) = match t {
            Ty::Int(w) => (*w, true),
            Ty::Ptr => (64, true),
            _ => (0, false),
        };
        if !sc {
            return Ok(None);
        }
        let n = self.a.n[e as usize];
        if n.op != Op::Add {
            return Ok(None);
        }
        let base = match self.a.is_const(n.b) {
            Some(k) => k as u64,
            None => return Ok(None),
        };
        let mx = self.a.umax(n.a);
        let tz = self.a.tz(n.a).min(12);
        if mx >> tz > 1024 || mx > 65536 {
            return Ok(None);
        }
        let nb = ((w + 7) / 8) as u64;
        let (id, boff) = Mem::split(base);
        let size = match st.mem.get(id) {
            Some(o) => o.b.len() as u64,
            None => return Ok(None),
        };
        // must stay inside the object on every value
        let lim = (size as i64) - (nb as i64) - (boff as i64);
        if lim < 0 {
            return Ok(None);
        }
        if mx as i64 > lim {
            let l = self.a.konst(64, lim as u128);
            let oob = self.a.ult(l, n.a);
            match self.s.check(&mut self.a, &st.pc, oob) {
                Sat::Unsat => {}
                _ => return Ok(None), // let concretisation find it
            }
        }
        let mut r: Option<E> = None;
        let mut off = 0u64;
        while off as u128 <= mx && off as i64 <= lim {
            let v = self.load_int(st, base + off, w)?;
            let ve = self.e(&v, w);
            r = Some(match r {
                None => ve,
                Some(p) => {
                    let k = self.a.konst(64, off as u128);
                    let c = self.a.eq(n.a, k);
                    self.a.ite(c, ve, p)
                }
            });
            off += 1 << tz;
        }
        Ok(r.map(|e| self.v(e)))
    }

    // ---- operators --------------------------------------------------
    fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let sxx = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => {
                    let s = if y >= w as u64 { w - 1 } else { y as u32 };
                    (sxx(x) >> s) as u64
                }
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(Stop::Bad("arith".into(), "division by zero".into())),
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => sxx(x).wrapping_div(sxx(y)) as u64,
                BinOp::SRem => sxx(x).wrapping_rem(sxx(y)) as u64,
                BinOp::FAdd => return Ok(Val::I((f64::from_bits(x) + f64::from_bits(y)).to_bits())),
                BinOp::FSub => return Ok(Val::I((f64::from_bits(x) - f64::from_bits(y)).to_bits())),
                BinOp::FMul => return Ok(Val::I((f64::from_bits(x) * f64::from_bits(y)).to_bits())),
                BinOp::FDiv => return Ok(Val::I((f64::from_bits(x) / f64::from_bits(y)).to_bits())),
            };
            return Ok(Val::I(r & m));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match op {
            BinOp::Add => self.a.add(x, y),
            BinOp::Sub => self.a.sub(x, y),
            BinOp::Mul => self.a.bin(Op::Mul, x, y),
            BinOp::And => self.a.and(x, y),
            BinOp::Or => self.a.or(x, y),
            BinOp::Xor => self.a.bin(Op::Xor, x, y),
            BinOp::Shl => self.a.bin(Op::Shl, x, y),
            BinOp::LShr => self.a.bin(Op::LShr, x, y),
            BinOp::AShr => self.a.bin(Op::AShr, x, y),
            BinOp::UDiv => self.a.bin(Op::UDiv, x, y),
            BinOp::URem => self.a.bin(Op::URem, x, y),
            BinOp::SDiv => self.a.bin(Op::SDiv, x, y),
            BinOp::SRem => self.a.bin(Op::SRem, x, y),
            _ => return Err(Stop::Incomplete("symbolic floating point".into())),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sxx = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sxx(x) > sxx(y),
                Pred::Sge => sxx(x) >= sxx(y),
                Pred::Slt => sxx(x) < sxx(y),
                Pred::Sle => sxx(x) <= sxx(y),
            };
            return Val::I(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.a.eq(x, y),
            Pred::Ne => {
                let t = self.a.eq(x, y);
                self.a.not(t)
            }
            Pred::Ult => self.a.ult(x, y),
            Pred::Ugt => self.a.ult(y, x),
            Pred::Ule => {
                let t = self.a.ult(y, x);
                self.a.not(t)
            }
            Pred::Uge => {
                let t = self.a.ult(x, y);
                self.a.not(t)
            }
            Pred::Slt => self.a.slt(x, y),
            Pred::Sgt => self.a.slt(y, x),
            Pred::Sle => {
                let t = self.a.slt(y, x);
                self.a.not(t)
            }
            Pred::Sge => {
                let t = self.a.slt(x, y);
                self.a.not(t)
            }
        };
        self.v(r)
    }
    fn select(&mut self, t: &Ty, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let v = (0..x.len()).map(|i| self.select(&t.elem(i), c, &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                let w = t.bits();
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.a.ite(c, x, y);
                self.v(r)
            }
        }
    }
    fn lanes(v: &Val) -> &[Val] {
        if let Val::A(x) = v {
            x
        } else {
            panic!("not a vector")
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        if blk.phis.len() == 1 {
            let (d, v) = &blk.phis[0];
            for (p, o) in v {
                if *p == from {
                    let x = match o {
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                        Opnd::C(v) => v.clone(),
                    };
                    fr.regs[*d as usize] = x;
                    break;
                }
            }
        } else if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, v) in &blk.phis {
                for (p, o) in v {
                    if *p == from {
                        let x = match o {
                            Opnd::R(r) => fr.regs[*r as usize].clone(),
                            Opnd::C(v) => v.clone(),
                        };
                        vals.push((*d, x));
                        break;
                    }
                }
            }
            for (d, x) in vals {
                fr.regs[d as usize] = x;
            }
        }
        fr.blk = b;
        fr.ip = 0;
    }

    fn push_fn(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, invoke_to: Option<u32>) -> R<()> {
        let wi = f as usize / 64;
        self.used[wi] |= 1 << (f % 64);
        let b = self.m.body(f);
        if st.frames.len() > 2000 {
            return Err(Stop::Incomplete("call depth".into()));
        }
        let mut regs = vec![Val::I(0); b.nregs as usize];
        for (i, p) in b.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        st.frames.push(Frame { f: b, blk: 0, ip: 0, regs, allocas: vec![], dst, invoke_to });
        // entry block index is 0 by construction only if first label was seen first
        Ok(())
    }

    fn is_panic_fn(&mut self, f: u32) -> bool {
        match self.isp[f as usize] {
            1 => false,
            2 => true,
            _ => {
                let n = &self.m.fns[f as usize].name;
                let p = (n.contains("4core9panicking") && n.contains("panic")) || n.contains("9panicking13assert_failed") || n.contains("15rust_panic_with_hook") || n.contains("13begin_panic") || n.contains("rust_panic") || n.contains("__rust_start_panic") || n.contains("18handle_alloc_error") || n.contains("3std7process5abort") || n == "rust_begin_unwind";
                let p = p && !n.contains("panic_count") && !n.contains("drop_in_place");
                self.isp[f as usize] = if p { 2 } else { 1 };
                p
            }
        }
    }

    fn cstr(&mut self, st: &State, addr: u64) -> String {
        let mut s = vec![];
        let mut a = addr;
        loop {
            match st.mem.read(a, 1) {
                Ok((o, off)) => {
                    let c = o.b[off];
                    if c == 0 {
                        break;
                    }
                    s.push(c);
                    a += 1;
                }
                Err(_) => break,
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (b, s) = match st.mem.read(src, n) {
            Ok((o, off)) => {
                let (off, n) = (off, n as usize);
                (o.b[off..off + n].to_vec(), o.sym.as_ref().map(|s| s[off..off + n].to_vec()))
            }
            Err(e) => return Err(self.memerr(e)),
        };
        let (o, off) = match st.mem.write(dst, n) {
            Ok(x) => x,
            Err(e) => return Err(self.memerr(e)),
        };
        let n = n as usize;
        o.b[off..off + n].copy_from_slice(&b);
        let anysym = s.as_ref().map_or(false, |s| s.iter().any(|x| *x != 0));
        if anysym {
            let len = o.b.len();
            o.sym.get_or_insert_with(|| vec![0; len])[off..off + n].copy_from_slice(&s.unwrap());
        } else if let Some(d) = &mut o.sym {
            for x in &mut d[off..off + n] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn fill(&mut self, st: &mut State, dst: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let e = self.e(v, 8);
        let k = self.a.is_const(e);
        let (o, off) = match st.mem.write(dst, n) {
            Ok(x) => x,
            Err(e) => return Err(self.memerr(e)),
        };
        let n = n as usize;
        match k {
            Some(k) => {
                for x in &mut o.b[off..off + n] {
                    *x = k as u8;
                }
                if let Some(d) = &mut o.sym {
                    for x in &mut d[off..off + n] {
                        *x = 0;
                    }
                }
            }
            None => {
                let len = o.b.len();
                for x in &mut o.sym.get_or_insert_with(|| vec![0; len])[off..off + n] {
                    *x = e;
                }
            }
        }
        Ok(())
    }
    /// byte expressions of a region
    fn bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, s) = match st.mem.read(addr, n) {
            Ok((o, off)) => {
                let n = n as usize;
                (o.b[off..off + n].to_vec(), o.sym.as_ref().map(|s| s[off..off + n].to_vec()))
            }
            Err(e) => return Err(self.memerr(e)),
        };
        let mut v = vec![];
        for i in 0..n as usize {
            let x = s.as_ref().map_or(0, |s| s[i]);
            v.push(if x != 0 { x } else { self.a.konst(8, b[i] as u128) });
        }
        Ok(v)
    }
    fn errno(&mut self, st: &mut State, v: u32) -> R<()> {
        if st.errno == 0 {
            st.errno = st.mem.alloc(8, Kind::Global);
        }
        let a = st.errno;
        self.store_int(st, a, 32, &Val::I(v as u64))
    }
    fn rnd_fill(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (st.rng >> 33) & 0xff;
            self.store_int(st, p + i, 8, &Val::I(b))?;
        }
        Ok(())
    }

    fn ext(&mut self, st: &mut State, f: u32, args: &[Val], ret: &Ty) -> R<Val> {
        let name = self.m.fns[f as usize].name.clone();
        let z = Ok(Val::I(0));
        match name.as_str() {
            "malloc" => {
                let n = self.cval(st, &args[0])?;
                self.alloc_check(n)?;
                Ok(Val::I(st.mem.alloc(n, Kind::Heap)))
            }
            "calloc" => {
                let n = self.cval(st, &args[0])?;
                let k = self.cval(st, &args[1])?;
                let t = n.checked_mul(k).unwrap_or(u64::MAX);
                self.alloc_check(t)?;
                Ok(Val::I(st.mem.alloc(t, Kind::Heap)))
            }
            "posix_memalign" => {
                let n = self.cval(st, &args[2])?;
                let p = self.cval(st, &args[0])?;
                self.alloc_check(n)?;
                let a = st.mem.alloc(n, Kind::Heap);
                self.store_int(st, p, 64, &Val::I(a))?;
                z
            }
            "aligned_alloc" => {
                let n = self.cval(st, &args[1])?;
                self.alloc_check(n)?;
                Ok(Val::I(st.mem.alloc(n, Kind::Heap)))
            }
            "realloc" => {
                let n = self.cval(st, &args[1])?;
                let p = self.cval(st, &args[0])?;
                self.alloc_check(n)?;
                let a = st.mem.alloc(n, Kind::Heap);
                if p != 0 {
                    let old = match st.mem.read(p, 0) {
                        Ok((o, off)) => {
                            if off != 0 || o.kind != Kind::Heap {
                                return Err(self.memerr(MemErr::BadFree(p)));
                            }
                            o.b.len() as u64
                        }
                        Err(e) => return Err(self.memerr(e)),
                    };
                    self.copy(st, a, p, old.min(n))?;
                    if let Err(e) = st.mem.free(p) {
                        return Err(self.memerr(e));
                    }
                }
                Ok(Val::I(a))
            }
            "free" => {
                let p = self.cval(st, &args[0])?;
                if p != 0 {
                    if let Err(e) = st.mem.free(p) {
                        return Err(self.memerr(e));
                    }
                }
                z
            }
            "memcpy" | "memmove" => {
                let n = self.cval(st, &args[2])?;
                let d = self.cval(st, &args[0])?;
                let s = self.cval(st, &args[1])?;
                self.copy(st, d, s, n)?;
                Ok(Val::I(d))
            }
            "memset" => {
                let n = self.cval(st, &args[2])?;
                let d = self.cval(st, &args[0])?;
                let v = self.e(&args[1], 32);
                let v = self.a.extract(v, 7, 0);
                let v = self.v(v);
                self.fill(st, d, &v, n)?;
                Ok(Val::I(d))
            }
            "bcmp" | "memcmp" => {
                let n = self.cval(st, &args[2])?;
                let a = self.cval(st, &args[0])?;
                let b = self.cval(st, &args[1])?;
                let x = self.bytes(st, a, n)?;
                let y = self.bytes(st, b, n)?;
                if name == "bcmp" {
                    let mut r = self.a.t();
                    for i in (0..x.len()).rev() {
                        let q = self.a.eq(x[i], y[i]);
                        r = self.a.and(q, r);
                        if r == self.a.f() {
                            break;
                        }
                    }
                    let o = self.a.konst(32, 1);
                    let ze = self.a.konst(32, 0);
                    let r = self.a.ite(r, ze, o);
                    return Ok(self.v(r));
                }
                let mut r = self.a.konst(32, 0);
                let neg = self.a.konst(32, mask(32));
                let pos = self.a.konst(32, 1);
                for i in (0..x.len()).rev() {
                    let q = self.a.eq(x[i], y[i]);
                    let l = self.a.ult(x[i], y[i]);
                    let d = self.a.ite(l, neg, pos);
                    r = self.a.ite(q, r, d);
                }
                Ok(self.v(r))
            }
            "strlen" => {
                let a = self.cval(st, &args[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_int(st, a + n, 8)?;
                    let c = self.icmp(Pred::Eq, 8, &b, &Val::I(0));
                    if self.decide(st, &c)? {
                        return Ok(Val::I(n));
                    }
                    n += 1;
                }
            }
            "strcmp" => {
                let a = self.cval(st, &args[0])?;
                let b = self.cval(st, &args[1])?;
                let mut n = 0;
                loop {
                    let x = self.load_int(st, a + n, 8)?;
                    let y = self.load_int(st, b + n, 8)?;
                    let c = self.icmp(Pred::Eq, 8, &x, &y);
                    if !self.decide(st, &c)? {
                        let xe = self.e(&x, 8);
                        let ye = self.e(&y, 8);
                        let l = self.a.ult(xe, ye);
                        let neg = self.a.konst(32, mask(32));
                        let pos = self.a.konst(32, 1);
                        let r = self.a.ite(l, neg, pos);
                        return Ok(self.v(r));
                    }
                    let c = self.icmp(Pred::Eq, 8, &x, &Val::I(0));
                    if self.decide(st, &c)? {
                        return z;
                    }
                    n += 1;
                }
            }
            "memchr" => {
                let a = self.cval(st, &args[0])?;
                let n = self.cval(st, &args[2])?;
                let ce = self.e(&args[1], 32);
                let ce = self.a.extract(ce, 7, 0);
                let c = self.v(ce);
                for i in 0..n {
                    let b = self.load_int(st, a + i, 8)?;
                    let t = self.icmp(Pred::Eq, 8, &b, &c);
                    if self.decide(st, &t)? {
                        return Ok(Val::I(a + i));
                    }
                }
                z
            }
            "getenv" | "secure_getenv" => z,
            "dlsym" => {
                let np = self.cval(st, &args[1])?;
                let nm = self.cstr(st, np);
                match self.m.fn_by_name.get(&nm) {
                    Some(f) => Ok(Val::I(addr_of(self.m.fn_base + f))),
                    None => z,
                }
            }
            "getrandom" => {
                let p = self.cval(st, &args[0])?;
                let n = self.cval(st, &args[1])?;
                self.rnd_fill(st, p, n)?;
                Ok(Val::I(n))
            }
            "syscall" => {
                let k = self.cval(st, &args[0])?;
                if k == 318 {
                    let p = self.cval(st, &args[1])?;
                    let n = self.cval(st, &args[2])?;
                    self.rnd_fill(st, p, n)?;
                    return Ok(Val::I(n));
                }
                if k == 202 {
                    let op = self.cval(st, &args[2])? & 0x7f;
                    if op == 0 || op == 9 {
                        return Err(Stop::Bad("deadlock".into(), "thread blocks on a lock it already holds".into()));
                    }
                    return z;
                }
                Err(Stop::Incomplete(format!("syscall {}", k)))
            }
            "__errno_location" => {
                if st.errno == 0 {
                    self.errno(st, 0)?;
                }
                Ok(Val::I(st.errno))
            }
            "write" => {
                let p = self.cval(st, &args[1])?;
                let n = self.cval(st, &args[2])?;
                if self.opts.verbose {
                    let b = self.bytes(st, p, n)?;
                    let s: Vec<u8> = b.iter().map(|e| self.a.is_const(*e).unwrap_or(b'?' as u128) as u8).collect();
                    eprint!("{}", String::from_utf8_lossy(&s));
                }
                Ok(Val::I(n))
            }
            "writev" => {
                let p = self.cval(st, &args[1])?;
                let k = self.cval(st, &args[2])?;
                let mut tot = 0;
                for i in 0..k {
                    if let Val::I(l) = self.load_int(st, p + i * 16 + 8, 64)? {
                        tot += l;
                    }
                }
                Ok(Val::I(tot))
            }
            "open" | "open64" => {
                self.errno(st, 2)?;
                Ok(Val::I(0xffff_ffff))
            }
            "stat" | "stat64" | "fstat64" | "statx" | "mkdir" | "fcntl" | "sigaction" | "sigaltstack" | "mprotect" | "readlink" => {
                self.errno(st, 38)?;
                Ok(Val::I(mask(ret.bits()) as u64))
            }
            "mmap" | "mmap64" => Ok(Val::I(u64::MAX)),
            "close" | "poll" | "munmap" | "signal" | "pthread_attr_destroy" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "dl_iterate_phdr" | "pthread_getspecific" | "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" => z,
            "pthread_self" => Ok(Val::I(1)),
            "sysconf" => Ok(Val::I(4096)),
            "getauxval" => z,
            "clock_gettime" => {
                let p = self.cval(st, &args[1])?;
                st.clock += 1;
                let c = st.clock;
                self.store_int(st, p, 64, &Val::I(1_700_000_000 + c))?;
                self.store_int(st, p + 8, 64, &Val::I(0))?;
                z
            }
            "abort" | "_exit" | "exit" => Err(Stop::Bad("abort".into(), format!("{} called", name))),
            // ---- harness interface ----
            "vf_sym" => {
                let p = self.cval(st, &args[0])?;
                let n = self.cval(st, &args[1])?;
                let np = self.cval(st, &args[2])?;
                let nm = self.cstr(st, np);
                let first = st.nsym;
                for i in 0..n {
                    let v = self.a.var(st.nsym);
                    st.nsym += 1;
                    self.store_int(st, p + i, 8, &Val::S(v))?;
                }
                if st.model.len() < st.nsym as usize {
                    st.model.resize(st.nsym as usize, 0);
                }
                st.syms.push((nm, first, n as u32));
                z
            }
            "vf_assume" => {
                let c = self.e(&args[0], 32);
                let ze = self.a.konst(32, 0);
                let q = self.a.eq(c, ze);
                let c = self.a.not(q);
                if let Some(k) = self.a.is_const(c) {
                    return if k == 1 { z } else { Err(Stop::Infeasible) };
                }
                if self.a.eval(c, &st.model) == 1 {
                    st.pc.push(c);
                    Rc::make_mut(&mut st.known).insert(c, 1);
                    return z;
                }
                match self.s.check(&mut self.a, &st.pc, c) {
                    Sat::Sat(m) => {
                        st.pc.push(c);
                        self.adopt(st, &m);
                        Rc::make_mut(&mut st.known).insert(c, 1);
                        z
                    }
                    Sat::Unsat => Err(Stop::Infeasible),
                    Sat::Unknown => Err(Stop::Incomplete("solver timeout at assume".into())),
                }
            }
            "vf_assert" => {
                self.asserts += 1;
                let c = self.e(&args[0], 32);
                let ze = self.a.konst(32, 0);
                let bad = self.a.eq(c, ze);
                if self.a.is_const(bad) == Some(0) {
                    return z;
                }
                let mp = self.cval(st, &args[1])?;
                let msg = self.cstr(st, mp);
                self.assert_queries += 1;
                let r = if self.a.eval(bad, &st.model) == 1 { Sat::Sat(vec![]) } else { self.s.check(&mut self.a, &st.pc, bad) };
                match r {
                    Sat::Sat(m) => {
                        let mut o = st.clone();
                        self.adopt(&mut o, &m);
                        self.record(&o, "assert", &msg);
                        let good = self.a.not(bad);
                        match self.s.check(&mut self.a, &st.pc, good) {
                            Sat::Sat(m) => {
                                st.pc.push(good);
                                self.adopt(st, &m);
                                z
                            }
                            _ => Err(Stop::Infeasible),
                        }
                    }
                    Sat::Unsat => z,
                    Sat::Unknown => Err(Stop::Incomplete(format!("solver timeout at assert {}", msg))),
                }
            }
            "vf_cover" => {
                let mp = self.cval(st, &args[0])?;
                let msg = self.cstr(st, mp);
                *self.covers.entry(msg).or_default() += 1;
                z
            }
            "vf_expect" => {
                let mp = self.cval(st, &args[0])?;
                let msg = self.cstr(st, mp);
                self.expected.insert(msg);
                z
            }
            "vf_out" => {
                st.outs.push((args[0].clone(), 64));
                z
            }
            "vf_param" => {
                let k = self.cval(st, &args[0])? as i32 as i64;
                let v = self.params.get(&k).copied();
                match v {
                    Some(v) => Ok(Val::I(v as u64)),
                    None => Ok(args[1].clone()),
                }
            }
            "vf_concretize" => Ok(Val::I(self.cval(st, &args[0])?)),
            "vf_allow_panic" => {
                st.allow_panic = self.cval(st, &args[0])? != 0;
                z
            }
            "vf_end" => Err(Stop::Done),
            "vf_log" => {
                let p = self.cval(st, &args[0])?;
                let s = self.cstr(st, p);
                let v = match &args[1] {
                    Val::I(x) => format!("{:#x}", x),
                    Val::S(e) => format!("sym e{} (model {:#x})", e, self.a.eval(*e, &st.model)),
                    _ => "?".into(),
                };
                if self.opts.verbose {
                    eprintln!("[log] {} {}", s, v);
                }
                z
            }
            _ => Err(Stop::Incomplete(format!("unmodelled external function {}", name))),
        }
    }
    fn alloc_check(&self, n: u64) -> R<()> {
        if n > 64 << 20 {
            return Err(Stop::Bad("alloc".into(), format!("allocation of {} bytes", n)));
        }
        Ok(())
    }

    fn record(&mut self, st: &State, kind: &str, msg: &str) {
        let stack: Vec<String> = st.frames.iter().rev().take(40).map(|f| self.m.fns[f.f.id as usize].pretty.clone()).collect();
        let syms = st.syms.iter().map(|(n, a, l)| (n.clone(), (0..*l).map(|i| st.model.get((*a + i) as usize).copied().unwrap_or(0)).collect())).collect();
        let mut input = st.model.clone();
        input.resize(st.nsym as usize, 0);
        let outs = self.outs(st);
        if self.viols.iter().filter(|v| v.msg == msg && v.kind == kind).count() >= 2 {
            return;
        }
        self.viols.push(Viol { kind: kind.into(), msg: msg.into(), input, stack, syms, outs });
    }
    fn outs(&mut self, st: &State) -> Vec<u128> {
        let o = st.outs.clone();
        o.iter()
            .map(|(v, w)| {
                let e = self.e(v, *w);
                self.a.eval(e, &st.model)
            })
            .collect()
    }

    fn intr(&mut self, st: &mut State, k: Intr, id: u32, args: &[Val], c: &Call) -> R<Val> {
        let z = Ok(Val::I(0));
        if let Ty::Vec(n, et) = &c.ret {
            // lane-wise
            if !matches!(k, Intr::Nop | Intr::Tls) {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let a: Vec<Val> = args.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                    let mut c2 = c.clone();
                    c2.ret = (**et).clone();
                    for x in &mut c2.args {
                        if let Ty::Vec(_, e) = &x.0 {
                            x.0 = (**e).clone();
                        }
                    }
                    out.push(self.intr(st, k, id, &a, &c2)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let w = match &c.ret {
            Ty::Int(w) => *w,
            Ty::Struct(f, _) => f[0].bits(),
            _ => 64,
        };
        match k {
            Intr::Nop => z,
            Intr::Assume => z,
            Intr::Memcpy => {
                let n = self.cval(st, &args[2])?;
                if n == 0 {
                    return z;
                }
                let d = self.cval(st, &args[0])?;
                let s = self.cval(st, &args[1])?;
                self.copy(st, d, s, n)?;
                z
            }
            Intr::Memset => {
                let n = self.cval(st, &args[2])?;
                if n == 0 {
                    return z;
                }
                let d = self.cval(st, &args[0])?;
                self.fill(st, d, &args[1], n)?;
                z
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let p = match k {
                    Intr::Umax => Pred::Ugt,
                    Intr::Umin => Pred::Ult,
                    Intr::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let cnd = self.icmp(p, w, &args[0], &args[1]);
                let cnd = self.e(&cnd, 1);
                Ok(self.select(&Ty::Int(w), cnd, &args[0], &args[1]))
            }
            Intr::Abs => {
                let cnd = self.icmp(Pred::Slt, w, &args[0], &mkval(0, w));
                let n = self.binop(BinOp::Sub, w, &mkval(0, w), &args[0])?;
                let cnd = self.e(&cnd, 1);
                Ok(self.select(&Ty::Int(w), cnd, &n, &args[0]))
            }
            Intr::Fabs => match &args[0] {
                Val::I(x) => Ok(Val::I(*x & !(1 << 63))),
                _ => Err(Stop::Incomplete("symbolic fp".into())),
            },
            Intr::Bswap => {
                let e = self.e(&args[0], w);
                let n = w / 8;
                let mut r = self.a.extract(e, 7, 0);
                for i in 1..n {
                    let b = self.a.extract(e, i * 8 + 7, i * 8);
                    r = self.a.concat(r, b);
                }
                Ok(self.v(r))
            }
            Intr::Bitreverse => {
                let e = self.e(&args[0], w);
                let mut r = self.a.extract(e, 0, 0);
                for i in 1..w {
                    let b = self.a.extract(e, i, i);
                    r = self.a.concat(r, b);
                }
                Ok(self.v(r))
            }
            Intr::Ctpop => {
                if let Some(x) = Self::concrete(&args[0]) {
                    return Ok(mkval(x.count_ones() as u128, w));
                }
                let e = self.e(&args[0], w);
                let mut r = self.a.konst(w, 0);
                for i in 0..w {
                    let b = self.a.extract(e, i, i);
                    let b = self.a.zext(b, w);
                    r = self.a.add(r, b);
                }
                Ok(self.v(r))
            }
            Intr::Ctlz | Intr::Cttz => {
                if let Some(x) = Self::concrete(&args[0]) {
                    let r = if k == Intr::Ctlz {
                        if x == 0 {
                            w
                        } else {
                            x.leading_zeros() - (128 - w)
                        }
                    } else if x == 0 {
                        w
                    } else {
                        x.trailing_zeros()
                    };
                    return Ok(mkval(r as u128, w));
                }
                let e = self.e(&args[0], w);
                let mut r = self.a.konst(w, w as u128);
                for j in 0..w {
                    // last assignment wins: iterate from least to most significant for ctlz
                    let i = if k == Intr::Ctlz { j } else { w - 1 - j };
                    let b = self.a.extract(e, i, i);
                    let v = self.a.konst(w, if k == Intr::Ctlz { (w - 1 - i) as u128 } else { i as u128 });
                    r = self.a.ite(b, v, r);
                }
                Ok(self.v(r))
            }
            Intr::UsubSat => {
                let lt = self.icmp(Pred::Ult, w, &args[0], &args[1]);
                let d = self.binop(BinOp::Sub, w, &args[0], &args[1])?;
                let c = self.e(&lt, 1);
                Ok(self.select(&Ty::Int(w), c, &mkval(0, w), &d))
            }
            Intr::UaddSat => {
                let s = self.binop(BinOp::Add, w, &args[0], &args[1])?;
                let lt = self.icmp(Pred::Ult, w, &s, &args[0]);
                let c = self.e(&lt, 1);
                Ok(self.select(&Ty::Int(w), c, &mkval(mask(w), w), &s))
            }
            Intr::UaddOv | Intr::UsubOv => {
                let (r, o) = if k == Intr::UaddOv {
                    let s = self.binop(BinOp::Add, w, &args[0], &args[1])?;
                    let o = self.icmp(Pred::Ult, w, &s, &args[0]);
                    (s, o)
                } else {
                    let s = self.binop(BinOp::Sub, w, &args[0], &args[1])?;
                    let o = self.icmp(Pred::Ult, w, &args[0], &args[1]);
                    (s, o)
                };
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            Intr::UmulOv => {
                if w <= 64 {
                    if let (Val::I(x), Val::I(y)) = (&args[0], &args[1]) {
                        let p = *x as u128 * *y as u128;
                        return Ok(Val::A(Rc::new(vec![Val::I((p & mask(w)) as u64), Val::I((p >> w != 0) as u64)])));
                    }
                    let x = self.e(&args[0], w);
                    let y = self.e(&args[1], w);
                    let x2 = self.a.zext(x, 2 * w);
                    let y2 = self.a.zext(y, 2 * w);
                    let p = self.a.bin(Op::Mul, x2, y2);
                    let hi = self.a.extract(p, 2 * w - 1, w);
                    let ze = self.a.konst(w, 0);
                    let q = self.a.eq(hi, ze);
                    let o = self.a.not(q);
                    let lo = self.a.bin(Op::Mul, x, y);
                    return Ok(Val::A(Rc::new(vec![self.v(lo), self.v(o)])));
                }
                match (Self::concrete(&args[0]), Self::concrete(&args[1])) {
                    (Some(x), Some(y)) => {
                        let (p, o) = x.overflowing_mul(y);
                        Ok(Val::A(Rc::new(vec![mkval(p, w), Val::I(o as u64)])))
                    }
                    _ => Err(Stop::Incomplete("symbolic 128-bit umul.with.overflow".into())),
                }
            }
            Intr::SaddOv | Intr::SsubOv | Intr::SmulOv => {
                if let (Some(x), Some(y)) = (Self::concrete(&args[0]), Self::concrete(&args[1])) {
                    let (x, y) = (sext128(x, w), sext128(y, w));
                    let (r, o) = match k {
                        Intr::SaddOv => x.overflowing_add(y),
                        Intr::SsubOv => x.overflowing_sub(y),
                        _ => x.overflowing_mul(y),
                    };
                    let t = (r as u128) & mask(w);
                    let o = o || sext128(t, w) != r;
                    return Ok(Val::A(Rc::new(vec![mkval(t, w), Val::I(o as u64)])));
                }
                if w > 64 {
                    return Err(Stop::Incomplete("wide signed overflow".into()));
                }
                let x = self.e(&args[0], w);
                let y = self.e(&args[1], w);
                let x2 = self.a.sext(x, 2 * w);
                let y2 = self.a.sext(y, 2 * w);
                let p = match k {
                    Intr::SaddOv => self.a.add(x2, y2),
                    Intr::SsubOv => self.a.sub(x2, y2),
                    _ => self.a.bin(Op::Mul, x2, y2),
                };
                let lo = self.a.extract(p, w - 1, 0);
                let back = self.a.sext(lo, 2 * w);
                let q = self.a.eq(back, p);
                let o = self.a.not(q);
                Ok(Val::A(Rc::new(vec![self.v(lo), self.v(o)])))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = match Self::concrete(&args[2]) {
                    Some(s) => (s % w as u128) as u32,
                    None => {
                        let e = self.e(&args[2], w);
                        (self.concretize(st, e)? % w as u128) as u32
                    }
                };
                let s = if k == Intr::Fshr { (w - s) % w } else { s };
                let x = self.e(&args[0], w);
                let y = self.e(&args[1], w);
                if s == 0 {
                    return Ok(self.v(if k == Intr::Fshl { x } else { y }));
                }
                let h = self.a.extract(x, w - s - 1, 0);
                let l = self.a.extract(y, w - 1, w - s);
                let r = self.a.concat(h, l);
                Ok(self.v(r))
            }
            Intr::Ucmp | Intr::Scmp => {
                let aw = c.args[0].0.bits();
                let (lt, gt) = if k == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, aw, &args[0], &args[1]);
                let g = self.icmp(gt, aw, &args[0], &args[1]);
                let l = self.e(&l, 1);
                let g = self.e(&g, 1);
                let m1 = self.a.konst(w, mask(w));
                let p1 = self.a.konst(w, 1);
                let z0 = self.a.konst(w, 0);
                let r = self.a.ite(g, p1, z0);
                let r = self.a.ite(l, m1, r);
                Ok(self.v(r))
            }
            Intr::IsConstant => z,
            Intr::Expect => Ok(args[0].clone()),
            Intr::Trap => Err(Stop::Bad("abort".into(), "trap".into())),
            Intr::Tls => Ok(args[0].clone()),
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                let op = match k {
                    Intr::VecReduceOr => BinOp::Or,
                    Intr::VecReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                let l = Self::lanes(&args[0]).to_vec();
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = self.binop(op, w, &r, x)?;
                }
                Ok(r)
            }
            _ => Err(Stop::Incomplete(format!("unmodelled intrinsic {}", self.m.fns[id as usize].name))),
        }
    }

    fn do_call(&mut self, st: &mut State, c: &Call, invoke_to: Option<u32>) -> R<()> {
        let mut args: Vec<Val> = Vec::with_capacity(c.args.len());
        for (_, o, _) in &c.args {
            args.push(self.get(st, o));
        }
        let f = match &c.callee {
            Callee::Intr(k, id) => {
                let r = self.intr(st, *k, *id, &args, c)?;
                if c.ret != Ty::Void {
                    self.set(st, c.dst, r);
                }
                return Ok(());
            }
            Callee::Asm(s) => {
                let r = self.asm(s, &args, c)?;
                self.set(st, c.dst, r);
                return Ok(());
            }
            Callee::Fn(f) | Callee::Ext(f) => *f,
            Callee::Ptr(o) => {
                let v = self.get(st, o);
                let a = self.cval(st, &v)?;
                let id = (a >> 32) as u32;
                if id < self.m.fn_base || id >= self.m.fn_base + self.m.fns.len() as u32 || addr_of(id) != a {
                    return Err(Stop::Bad("memory".into(), format!("call through invalid function pointer {:#x}", a)));
                }
                id - self.m.fn_base
            }
        };
        if self.is_panic_fn(f) {
            let p = self.m.fns[f as usize].pretty.clone();
            return Err(Stop::Bad("panic".into(), p));
        }
        if self.m.fns[f as usize].start == 0 {
            if self.opts.trace {
                eprintln!("{:w$}ext {}", "", self.m.fns[f as usize].name, w = st.frames.len());
            }
            let r = self.ext(st, f, &args, &c.ret)?;
            if c.ret != Ty::Void {
                self.set(st, c.dst, r);
            }
            return Ok(());
        }
        for (i, (_, _, bv)) in c.args.iter().enumerate() {
            if let Some(n) = bv {
                let src = self.cval(st, &args[i])?;
                let p = st.mem.alloc(*n, Kind::Heap);
                self.copy(st, p, src, *n)?;
                args[i] = Val::I(p);
            }
        }
        // advance before entering
        st.frames.last_mut().unwrap().ip += 1;
        if self.opts.trace {
            let cs: Vec<String> = args
                .iter()
                .map(|v| match v {
                    Val::I(x) => format!("{:#x}", x),
                    Val::S(e) => format!("sym{}", e),
                    _ => "..".into(),
                })
                .collect();
            eprintln!("{:w$}{} ({})", "", self.m.fns[f as usize].pretty, cs.join(","), w = st.frames.len());
        }
        self.push_fn(st, f, args, c.dst, invoke_to)
    }
    fn asm(&mut self, s: &str, args: &[Val], c: &Call) -> R<Val> {
        if s.starts_with("pcmpeqb") {
            // two 128-bit vectors
            let et = if let Ty::Vec(_, e) = &c.args[0].0 { e.bits() } else { 64 };
            let n = if let Ty::Vec(n, _) = &c.args[0].0 { *n } else { 2 };
            let x = self.vec_to_int(&args[0], et);
            let y = self.vec_to_int(&args[1], et);
            let x = self.int_to_vec(&x, 16, 8);
            let y = self.int_to_vec(&y, 16, 8);
            let mut out = vec![];
            for i in 0..16 {
                let q = self.icmp(Pred::Eq, 8, &Self::lanes(&x)[i], &Self::lanes(&y)[i]);
                let q = self.e(&q, 1);
                let r = self.a.sext(q, 8);
                out.push(self.v(r));
            }
            let i = self.vec_to_int(&Val::A(Rc::new(out)), 8);
            return Ok(self.int_to_vec(&i, n, et));
        }
        if s.starts_with("pand") {
            let et = if let Ty::Vec(_, e) = &c.args[0].0 { e.bits() } else { 64 };
            let n = if let Ty::Vec(n, _) = &c.args[0].0 { *n } else { 2 };
            let x = self.vec_to_int(&args[0], et);
            let y = self.vec_to_int(&args[1], et);
            let x = self.int_to_vec(&x, 16, 8);
            let y = self.int_to_vec(&y, 16, 8);
            let mut out = vec![];
            for i in 0..16 {
                let a = self.e(&Self::lanes(&x)[i].clone(), 8);
                let b = self.e(&Self::lanes(&y)[i].clone(), 8);
                let r = self.a.bin(Op::And, a, b);
                out.push(self.v(r));
            }
            let i = self.vec_to_int(&Val::A(Rc::new(out)), 8);
            return Ok(self.int_to_vec(&i, n, et));
        }
        if s.starts_with("pmovmskb") {
            let et = if let Ty::Vec(_, e) = &c.args[0].0 { e.bits() } else { 64 };
            let x = self.vec_to_int(&args[0], et);
            let x = self.int_to_vec(&x, 16, 8);
            let mut r: Option<E> = None;
            for i in 0..16 {
                let b = self.e(&Self::lanes(&x)[i].clone(), 8);
                let t = self.a.extract(b, 7, 7);
                r = Some(match r {
                    None => t,
                    Some(l) => self.a.concat(t, l),
                });
            }
            let r = self.a.zext(r.unwrap(), c.ret.bits());
            return Ok(self.v(r));
        }
        if s.starts_with("/*") || s.is_empty() {
            return Ok(args.get(0).cloned().unwrap_or(Val::I(0)));
        }
        Err(Stop::Incomplete(format!("inline asm {}", s)))
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.drop_stack(*a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if let Some(v) = v {
            self.set(st, fr.dst, v);
        }
        if let Some(b) = fr.invoke_to {
            self.goto(st, b);
        }
        Ok(())
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            let f = st.frames.last().unwrap().f.clone();
            let depth = st.frames.len();
            // stay in this frame as long as possible without touching the Rc
            loop {
                let (blk, ip) = {
                    let fr = st.frames.last().unwrap();
                    (fr.blk, fr.ip)
                };
                st.steps += 1;
                if self.opts.prof {
                    self.prof[f.id as usize] += 1;
                }
                if st.steps & 0xffff == 0 {
                    if st.steps > self.opts.max_steps {
                        return Stop::Incomplete("step limit".into());
                    }
                    if self.t0.elapsed().as_secs_f64() > self.opts.timeout {
                        return Stop::Incomplete("time limit".into());
                    }
                }
                let ins = unsafe { &*(&f.blocks[blk as usize].ins[ip] as *const Ins) };
                match self.step(st, ins) {
                    Ok(()) => {}
                    Err(e) => return e,
                }
                if st.frames.len() != depth {
                    break;
                }
                // a tail of a different function at the same depth cannot happen without push/pop
                if st.frames.last().unwrap().f.id != f.id {
                    break;
                }
            }
        }
    }

    #[inline(always)]
    fn step(&mut self, st: &mut State, ins: &Ins) -> R<()> {
        match ins {
            Ins::Bin(op, t, x, y, d) => {
                let a = self.get(st, x);
                let b = self.get(st, y);
                let r = if let Ty::Vec(_, et) = t {
                    let (la, lb) = (Self::lanes(&a).to_vec(), Self::lanes(&b).to_vec());
                    let mut o = vec![];
                    for i in 0..la.len() {
                        o.push(self.binop(*op, et.bits(), &la[i], &lb[i])?);
                    }
                    Val::A(Rc::new(o))
                } else {
                    let w = t.bits();
                    if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                        let zc = self.icmp(Pred::Eq, w, &b, &mkval(0, w));
                        if self.decide(st, &zc)? {
                            return Err(Stop::Bad("arith".into(), "division by zero".into()));
                        }
                    }
                    self.binop(*op, w, &a, &b)?
                };
                self.set(st, *d, r);
            }
            Ins::ICmp(p, t, x, y, d) => {
                let a = self.get(st, x);
                let b = self.get(st, y);
                let r = if let Ty::Vec(_, et) = t {
                    let (la, lb) = (Self::lanes(&a).to_vec(), Self::lanes(&b).to_vec());
                    let mut o = vec![];
                    for i in 0..la.len() {
                        o.push(self.icmp(*p, et.bits(), &la[i], &lb[i]));
                    }
                    Val::A(Rc::new(o))
                } else {
                    self.icmp(*p, t.bits(), &a, &b)
                };
                self.set(st, *d, r);
            }
            Ins::FCmp(p, _, x, y, d) => {
                let a = self.get(st, x);
                let b = self.get(st, y);
                if let (Val::I(a), Val::I(b)) = (&a, &b) {
                    let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                    let r = match p.as_str() {
                        "oeq" | "ueq" => a == b,
                        "ogt" | "ugt" => a > b,
                        "oge" | "uge" => a >= b,
                        "olt" | "ult" => a < b,
                        "ole" | "ule" => a <= b,
                        "one" | "une" => a != b,
                        "uno" => a.is_nan() || b.is_nan(),
                        "ord" => !(a.is_nan() || b.is_nan()),
                        _ => return Err(Stop::Incomplete("fcmp".into())),
                    };
                    self.set(st, *d, Val::I(r as u64));
                } else {
                    return Err(Stop::Incomplete("symbolic fcmp".into()));
                }
            }
            Ins::Cast(c, ft, tt, x, d) => {
                let a = self.get(st, x);
                let r = self.cast(*c, ft, tt, &a)?;
                self.set(st, *d, r);
            }
            Ins::Load(t, p, d) => {
                let a = self.get(st, p);
                let r = match &a {
                    Val::I(x) => self.load_ty(st, *x, t)?,
                    Val::S(e) => match st.known.get(e) {
                        Some(k) => {
                            let k = *k as u64;
                            self.load_ty(st, k, t)?
                        }
                        None => match self.sym_read(st, *e, t)? {
                            Some(v) => v,
                            None => {
                                let x = self.concretize(st, *e)? as u64;
                                self.load_ty(st, x, t)?
                            }
                        },
                    },
                    _ => return Err(Stop::Incomplete("load ptr".into())),
                };
                self.set(st, *d, r);
            }
            Ins::Store(t, v, p) => {
                let a = self.get(st, p);
                let x = self.cval(st, &a)?;
                let v = self.get(st, v);
                self.store_ty(st, x, t, &v)?;
            }
            Ins::Gep(b, off, terms, d) => {
                let base = self.get(st, b);
                let mut sym = false;
                let mut acc = *off as u64;
                let mut be: Option<E> = None;
                match &base {
                    Val::I(x) => acc = acc.wrapping_add(*x),
                    Val::S(e) => {
                        sym = true;
                        be = Some(*e);
                    }
                    _ => return Err(Stop::Incomplete("gep base".into())),
                }
                for (o, w, s) in terms {
                    let i = self.get(st, o);
                    match &i {
                        Val::I(_) => acc = acc.wrapping_add((sx(&i, *w) as u64).wrapping_mul(*s)),
                        Val::S(e) => {
                            sym = true;
                            let x = self.a.sext(*e, 64);
                            let k = self.a.konst(64, *s as u128);
                            let m = self.a.bin(Op::Mul, x, k);
                            be = Some(match be {
                                None => m,
                                Some(p) => self.a.add(p, m),
                            });
                        }
                        _ => return Err(Stop::Incomplete("gep idx".into())),
                    }
                }
                let r = if !sym {
                    Val::I(acc)
                } else {
                    let k = self.a.konst(64, acc as u128);
                    let r = self.a.add(be.unwrap(), k);
                    self.v(r)
                };
                self.set(st, *d, r);
            }
            Ins::Alloca(sz, cnt, d) => {
                let n = match cnt {
                    Some(o) => {
                        let v = self.get(st, o);
                        self.cval(st, &v)?
                    }
                    None => 1,
                };
                let a = st.mem.alloc(sz * n, Kind::Stack);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(a);
                fr.regs[*d as usize] = Val::I(a);
            }
            Ins::Call(c) => {
                let depth = st.frames.len();
                self.do_call(st, c, None)?;
                if st.frames.len() != depth {
                    return Ok(());
                }
            }
            Ins::Invoke(c, to) => {
                let depth = st.frames.len();
                self.do_call(st, c, Some(*to))?;
                if st.frames.len() == depth {
                    self.goto(st, *to);
                }
                return Ok(());
            }
            Ins::Br(b) => {
                self.goto(st, *b);
                return Ok(());
            }
            Ins::CondBr(c, x, y) => {
                let v = self.get(st, c);
                let t = match v {
                    Val::I(k) => k & 1 == 1,
                    v => self.decide(st, &v)?,
                };
                self.goto(st, if t { *x } else { *y });
                return Ok(());
            }
            Ins::Switch(w, o, d, cases) => {
                let v = self.get(st, o);
                match Self::concrete(&v) {
                    Some(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        self.goto(st, t);
                    }
                    None => {
                        let e = self.e(&v, *w);
                        if let Some(k) = st.known.get(&e) {
                            let t = cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*d);
                            self.goto(st, t);
                            return Ok(());
                        }
                        // group the cases per target and decide target by target
                        let mut tg: Vec<u32> = vec![];
                        for c in cases {
                            if !tg.contains(&c.1) && c.1 != *d {
                                tg.push(c.1);
                            }
                        }
                        for t in tg {
                            let mut q = self.a.f();
                            for c in cases.iter().filter(|c| c.1 == t) {
                                let k = self.a.konst(*w, c.0);
                                let x = self.a.eq(e, k);
                                q = self.a.or(q, x);
                            }
                            let qv = self.v(q);
                            if self.decide(st, &qv)? {
                                self.goto(st, t);
                                return Ok(());
                            }
                        }
                        self.goto(st, *d);
                    }
                }
                return Ok(());
            }
            Ins::Ret(v) => {
                let r = match v {
                    Some((_, o)) => Some(self.get(st, o)),
                    None => None,
                };
                return self.ret(st, r);
            }
            Ins::Unreachable => return Err(Stop::Bad("unreachable".into(), "unreachable code reached (undefined behaviour)".into())),
            Ins::Select(ct, t, c, x, y, d) => {
                let cv = self.get(st, c);
                let a = self.get(st, x);
                let b = self.get(st, y);
                let r = if let Ty::Vec(..) = ct {
                    let lc = Self::lanes(&cv).to_vec();
                    let (la, lb) = (Self::lanes(&a).to_vec(), Self::lanes(&b).to_vec());
                    let et = t.elem(0);
                    let mut o = vec![];
                    for i in 0..lc.len() {
                        let ce = self.e(&lc[i], 1);
                        o.push(self.select(&et, ce, &la[i], &lb[i]));
                    }
                    Val::A(Rc::new(o))
                } else {
                    match cv {
                        Val::I(k) => {
                            if k & 1 == 1 {
                                a
                            } else {
                                b
                            }
                        }
                        Val::S(e) => {
                            if let Some(k) = st.known.get(&e) {
                                if *k == 1 {
                                    a
                                } else {
                                    b
                                }
                            } else {
                                self.select(t, e, &a, &b)
                            }
                        }
                        _ => return Err(Stop::Incomplete("select".into())),
                    }
                };
                self.set(st, *d, r);
            }
            Ins::ExtractValue(v, ix, d) => {
                let mut x = self.get(st, v);
                for i in ix {
                    x = if let Val::A(a) = &x { a[*i as usize].clone() } else { return Err(Stop::Incomplete("extractvalue".into())) };
                }
                self.set(st, *d, x);
            }
            Ins::InsertValue(t, v, x, ix, d) => {
                let a = self.get(st, v);
                let b = self.get(st, x);
                fn ins(t: &Ty, a: &Val, ix: &[u32], b: Val) -> Val {
                    if ix.is_empty() {
                        return b;
                    }
                    let mut v = match a {
                        Val::A(x) => (**x).clone(),
                        _ => match t.zero() {
                            Val::A(x) => (*x).clone(),
                            _ => vec![],
                        },
                    };
                    v[ix[0] as usize] = ins(&t.elem(ix[0] as usize), &v[ix[0] as usize], &ix[1..], b);
                    Val::A(Rc::new(v))
                }
                let r = ins(t, &a, ix, b);
                self.set(st, *d, r);
            }
            Ins::ExtractElem(v, i, d) => {
                let a = self.get(st, v);
                let i = self.get(st, i);
                let i = self.cval(st, &i)? as usize;
                let r = Self::lanes(&a).get(i).cloned().unwrap_or(Val::I(0));
                self.set(st, *d, r);
            }
            Ins::InsertElem(_, v, x, i, d) => {
                let a = self.get(st, v);
                let x = self.get(st, x);
                let i = self.get(st, i);
                let i = self.cval(st, &i)? as usize;
                let mut l = Self::lanes(&a).to_vec();
                l[i] = x;
                self.set(st, *d, Val::A(Rc::new(l)));
            }
            Ins::Shuffle(_, v, x, mk, d) => {
                let a = self.get(st, v);
                let b = self.get(st, x);
                let mk = self.get(st, mk);
                let la = Self::lanes(&a).to_vec();
                let lb = Self::lanes(&b).to_vec();
                let o = Self::lanes(&mk)
                    .iter()
                    .map(|i| {
                        let i = vi(i).unwrap_or(0) as usize;
                        if i < la.len() {
                            la[i].clone()
                        } else {
                            lb[i - la.len()].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, Val::A(Rc::new(o)));
            }
            Ins::Rmw(op, t, p, v, d) => {
                let a = self.get(st, p);
                let a = self.cval(st, &a)?;
                let v = self.get(st, v);
                let w = t.bits();
                let old = self.load_int(st, a, w)?;
                let bo = |b| Some(b);
                let nv = match op {
                    RmwOp::Xchg => v.clone(),
                    RmwOp::Umax | RmwOp::Umin | RmwOp::Max | RmwOp::Min => {
                        let pr = match op {
                            RmwOp::Umax => Pred::Ugt,
                            RmwOp::Umin => Pred::Ult,
                            RmwOp::Max => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(pr, w, &old, &v);
                        let c = self.e(&c, 1);
                        self.select(&Ty::Int(w), c, &old, &v)
                    }
                    o => {
                        let b = match o {
                            RmwOp::Add => bo(BinOp::Add),
                            RmwOp::Sub => bo(BinOp::Sub),
                            RmwOp::And | RmwOp::Nand => bo(BinOp::And),
                            RmwOp::Or => bo(BinOp::Or),
                            _ => bo(BinOp::Xor),
                        };
                        let mut r = self.binop(b.unwrap(), w, &old, &v)?;
                        if *o == RmwOp::Nand {
                            let e = self.e(&r, w);
                            let n = self.a.not(e);
                            r = self.v(n);
                        }
                        r
                    }
                };
                self.store_int(st, a, w, &nv)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg(t, p, c, n, d) => {
                let a = self.get(st, p);
                let a = self.cval(st, &a)?;
                let c = self.get(st, c);
                let n = self.get(st, n);
                let w = t.bits();
                let old = self.load_int(st, a, w)?;
                let q = self.icmp(Pred::Eq, w, &old, &c);
                if self.decide(st, &q)? {
                    self.store_int(st, a, w, &n)?;
                    self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(1)])));
                } else {
                    self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(0)])));
                }
            }
            Ins::Freeze(v, d) => {
                let x = self.get(st, v);
                self.set(st, *d, x);
            }
            Ins::FNeg(_, v, d) => {
                let x = self.get(st, v);
                match x {
                    Val::I(b) => self.set(st, *d, Val::I((-f64::from_bits(b)).to_bits())),
                    _ => return Err(Stop::Incomplete("fneg".into())),
                }
            }
            Ins::Nop => {}
            Ins::LandingPad | Ins::Resume => return Err(Stop::Incomplete("landing pad".into())),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn cast(&mut self, c: CastOp, ft: &Ty, tt: &Ty, a: &Val) -> R<Val> {
        match (c, ft, tt) {
            (CastOp::Bitcast, _, _) => {
                let i = match ft {
                    Ty::Vec(_, e) => self.vec_to_int(a, e.bits()),
                    _ => a.clone(),
                };
                Ok(match tt {
                    Ty::Vec(n, e) => self.int_to_vec(&i, *n, e.bits()),
                    _ => i,
                })
            }
            (CastOp::Fp, f, t) => match (a, f, t) {
                (Val::I(x), Ty::Int(_), Ty::F64) => Ok(Val::I((*x as f64).to_bits())),
                (Val::I(x), Ty::Int(_), Ty::F32) => Ok(Val::I((*x as f32).to_bits() as u64)),
                (Val::I(x), Ty::F32, Ty::F64) => Ok(Val::I((f32::from_bits(*x as u32) as f64).to_bits())),
                (Val::I(x), Ty::F64, Ty::Int(w)) => Ok(Val::I(f64::from_bits(*x) as u64 & mask(*w) as u64)),
                _ => Err(Stop::Incomplete("fp cast".into())),
            },
            (_, Ty::Vec(_, fe), Ty::Vec(_, te)) => {
                let l = Self::lanes(a).to_vec();
                let mut o = vec![];
                for x in l {
                    o.push(self.cast(c, fe, te, &x)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => {
                let fw = ft.bits();
                let tw = tt.bits();
                if let Some(x) = Self::concrete(a) {
                    let r = match c {
                        CastOp::SExt => sext128(x, fw) as u128,
                        _ => x,
                    };
                    return Ok(mkval(r & mask(tw), tw));
                }
                let e = self.e(a, fw);
                let r = if tw < fw {
                    self.a.extract(e, tw - 1, 0)
                } else if c == CastOp::SExt {
                    self.a.sext(e, tw)
                } else {
                    self.a.zext(e, tw)
                };
                Ok(self.v(r))
            }
        }
    }

    fn finish(&mut self, st: &State, s: Stop) {
        self.paths += 1;
        self.steps += st.steps;
        match s {
            Stop::Done => {
                self.done += 1;
                if self.tests.len() < self.opts.tests {
                    let outs = self.outs(st);
                    let mut input = st.model.clone();
                    input.resize(st.nsym as usize, 0);
                    self.tests.push(Test { input, outs, end: "done".into() });
                } else if self.opts.tests > 0 {
                    // deterministic reservoir
                    let k = (self.done.wrapping_mul(0x9E3779B97F4A7C15) >> 17) % self.done;
                    if (k as usize) < self.opts.tests {
                        let outs = self.outs(st);
                        let mut input = st.model.clone();
                        input.resize(st.nsym as usize, 0);
                        self.tests[k as usize] = Test { input, outs, end: "done".into() };
                    }
                }
            }
            Stop::Infeasible => self.infeasible += 1,
            Stop::Bad(k, m) => {
                if k == "panic" && st.allow_panic {
                    self.done += 1;
                    return;
                }
                // sanity: the model satisfies the path condition
                for c in &st.pc {
                    if self.a.eval(*c, &st.model) != 1 {
                        *self.incomplete.entry("internal: model does not satisfy path condition".into()).or_default() += 1;
                    }
                }
                self.record(st, &k, &m);
            }
            Stop::Incomplete(m) => {
                let stack: Vec<String> = st.frames.iter().rev().take(6).map(|f| self.m.fns[f.f.id as usize].pretty.clone()).collect();
                *self.incomplete.entry(format!("{} @ {}", m, stack.join(" < "))).or_default() += 1;
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: llsym prog.ll entry [--out f] [--param k=v] [--timeout s] [--max-paths n] [--max-steps n] [--tests n] [--query-timeout ms] [--dump dir] [--dump-max n] [--verbose] [--trace]");
        return 2;
    }
    let mut out: Option<String> = None;
    let mut params = BTreeMap::new();
    let mut opts = Opts { max_paths: u64::MAX, max_steps: 2_000_000_000, timeout: 600.0, tests: 32, max_viol: 8, trace: false, prof: false, verbose: false };
    let mut qt = 20000u32;
    let mut dump = None;
    let mut dump_max = 200usize;
    let mut i = 3;
    while i < args.len() {
        let nx = |i: usize| args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => {
                out = Some(nx(i));
                i += 1
            }
            "--param" => {
                let v = nx(i);
                let (a, b) = v.split_once('=').unwrap();
                params.insert(a.parse().unwrap(), b.parse().unwrap());
                i += 1
            }
            "--timeout" => {
                opts.timeout = nx(i).parse().unwrap();
                i += 1
            }
            "--max-paths" => {
                opts.max_paths = nx(i).parse().unwrap();
                i += 1
            }
            "--max-steps" => {
                opts.max_steps = nx(i).parse().unwrap();
                i += 1
            }
            "--tests" => {
                opts.tests = nx(i).parse().unwrap();
                i += 1
            }
            "--max-viol" => {
                opts.max_viol = nx(i).parse().unwrap();
                i += 1
            }
            "--query-timeout" => {
                qt = nx(i).parse().unwrap();
                i += 1
            }
            "--dump" => {
                dump = Some(nx(i));
                i += 1
            }
            "--dump-max" => {
                dump_max = nx(i).parse().unwrap();
                i += 1
            }
            "--verbose" => opts.verbose = true,
            "--prof" => opts.prof = true,
            "--trace" => opts.trace = true,
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = Module::load(&args[1]);
    let load_s = t0.elapsed().as_secs_f64();
    let nf = m.fns.len();
    let entry = match m.fn_by_name.get(&args[2]) {
        Some(f) if m.fns[*f as usize].start != 0 => *f,
        _ => {
            eprintln!("entry {} not found", args[2]);
            return 2;
        }
    };
    let mut mem = Mem::new(m.heap_base);
    for (k, g) in m.globals.iter().enumerate() {
        let kind = if g.constant { Kind::Const } else { Kind::Global };
        let mut b = g.init.clone();
        b.resize(g.size as usize, 0);
        mem.set(m.glob_base + k as u32, Obj { b, sym: None, kind });
    }
    let mut s = Solver::new(qt);
    if let Some(d) = dump {
        let _ = std::fs::create_dir_all(&d);
        s.dump = Some((d, dump_max));
    }
    let mut x = Exec {
        m,
        a: Arena::new(),
        s,
        work: vec![],
        params,
        viols: vec![],
        incomplete: Default::default(),
        covers: Default::default(),
        expected: Default::default(),
        tests: vec![],
        used: vec![0; nf / 64 + 1],
        paths: 0,
        infeasible: 0,
        done: 0,
        forks: 0,
        asserts: 0,
        assert_queries: 0,
        steps: 0,
        opts,
        t0,
        isp: vec![0; nf],
        decisions: Default::default(),
        prof: vec![0; nf],
    };
    let mut st = State {
        frames: vec![],
        mem,
        pc: vec![],
        model: vec![],
        known: Default::default(),
        outs: vec![],
        syms: vec![],
        nsym: 0,
        steps: 0,
        rng: 0x1234_5678_9abc_def1,
        errno: 0,
        clock: 0,
        allow_panic: false,
        forks: 0,
    };
    let _ = x.push_fn(&mut st, entry, vec![], u32::MAX, None);
    x.work.push(st);
    let mut last = Instant::now();
    while let Some(mut st) = x.work.pop() {
        if x.t0.elapsed().as_secs_f64() > x.opts.timeout || x.paths >= x.opts.max_paths {
            *x.incomplete.entry("path or time limit reached with states pending".into()).or_default() += 1 + x.work.len() as u64;
            break;
        }
        if x.viols.len() >= x.opts.max_viol {
            break;
        }
        let r = x.run_state(&mut st);
        x.finish(&st, r);
        if x.opts.verbose && last.elapsed().as_secs() >= 5 {
            last = Instant::now();
            eprintln!("[{:.0}s] paths {} pending {} steps {} queries {} z3 {} ({:.1}s) nodes {}", x.t0.elapsed().as_secs_f64(), x.paths, x.work.len(), x.steps, x.s.st.queries, x.s.st.z3_calls, x.s.st.z3_time, x.a.n.len());
        }
    }
    let missing: Vec<String> = x.expected.iter().filter(|c| !x.covers.contains_key(*c)).cloned().collect();
    let used: Vec<String> = (0..nf).filter(|f| x.used[f / 64] >> (f % 64) & 1 == 1).map(|f| x.m.fns[f].pretty.clone()).filter(|p| p.contains("kryoptic_lib") || p.starts_with("ossl")).collect();
    let status = if !x.viols.is_empty() {
        "violation"
    } else if !x.incomplete.is_empty() {
        "incomplete"
    } else if !missing.is_empty() {
        "vacuous"
    } else {
        "ok"
    };
    let mut j = String::from("{\n");
    j += &format!(" \"entry\": {}, \"status\": {},\n", js(&args[2]), js(status));
    j += &format!(" \"params\": {{{}}},\n", x.params.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"paths\": {}, \"completed\": {}, \"infeasible\": {}, \"forks\": {}, \"steps\": {}, \"asserts\": {}, \"assert_queries\": {},\n", x.paths, x.done, x.infeasible, x.forks, x.steps, x.asserts, x.assert_queries);
    let q = &x.s.st;
    j += &format!(" \"queries\": {}, \"z3_calls\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_unknown\": {}, \"cache_hits\": {}, \"model_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},\n", q.queries, q.z3_calls, q.z3_sat, q.z3_unsat, q.z3_unknown, q.cache_hits, q.model_hits, q.z3_time, q.max_query);
    j += &format!(" \"wall_s\": {:.2}, \"load_s\": {:.2}, \"expr_nodes\": {}, \"solver\": {},\n", x.t0.elapsed().as_secs_f64(), load_s, x.a.n.len(), js(&version()));
    j += &format!(" \"incomplete\": {{{}}},\n", x.incomplete.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"covers\": {{{}}}, \"missing_covers\": [{}],\n", x.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "), missing.iter().map(|m| js(m)).collect::<Vec<_>>().join(", "));
    j += &format!(
        " \"violations\": [{}],\n",
        x.viols
            .iter()
            .map(|v| format!(
                "\n  {{\"kind\": {}, \"msg\": {}, \"input\": \"{}\", \"inputs\": {{{}}}, \"outs\": [{}], \"stack\": [{}]}}",
                js(&v.kind),
                js(&v.msg),
                hex(&v.input),
                v.syms.iter().map(|(n, b)| format!("{}: \"{}\"", js(n), hex(b))).collect::<Vec<_>>().join(", "),
                v.outs.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(", "),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    j += &format!(" \"tests\": [{}],\n", x.tests.iter().map(|t| format!("\n  {{\"input\": \"{}\", \"outs\": [{}], \"end\": {}}}", hex(&t.input), t.outs.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(", "), js(&t.end))).collect::<Vec<_>>().join(","));
    j += &format!(" \"functions\": [{}]\n}}\n", used.iter().map(|u| js(u)).collect::<Vec<_>>().join(", "));
    match out {
        Some(o) => std::fs::write(o, &j).unwrap(),
        None => println!("{}", j),
    }
    eprintln!("{}: {} paths {} steps {} queries {} z3 {:.1}s wall {:.1}s viol {} incomplete {} missing-covers {}", args[2], status, x.paths, x.steps, x.s.st.queries, x.s.st.z3_time, x.t0.elapsed().as_secs_f64(), x.viols.len(), x.incomplete.len(), missing.len());
    if x.opts.verbose {
        for (k, v) in &x.incomplete {
            eprintln!("  incomplete: {} x{}", k, v);
        }
        for v in &x.viols {
            eprintln!("  violation: {} {} in {}", v.kind, v.msg, v.stack.iter().take(8).cloned().collect::<Vec<_>>().join(" < "));
            for (n, b) in &v.syms {
                eprintln!("     {} = {}", n, hex(b));
            }
        }
        let mut d: Vec<_> = x.decisions.iter().collect();
        d.sort_by_key(|a| std::cmp::Reverse(a.1 .0));
        for (k, v) in d.iter().take(25) {
            eprintln!("  fork x{} in {} block {}", v.0, x.m.fns[k.0 as usize].pretty, k.1);
        }
        if x.opts.prof {
            let mut d: Vec<(u64, usize)> = x.prof.iter().copied().enumerate().map(|(i, n)| (n, i)).filter(|a| a.0 > 0).collect();
            d.sort_by_key(|a| std::cmp::Reverse(a.0));
            for (n, i) in d.iter().take(15) {
                eprintln!("  steps {} in {}", n, x.m.fns[*i].pretty);
            }
        }
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
