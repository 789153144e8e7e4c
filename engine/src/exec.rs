//! Forking symbolic interpreter for the lowered LLVM IR.
use crate::expr::{self, sext, Exprs, Vars, E};
use crate::ir::*;
use crate::solver::{Pc, Solver};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub const PG: usize = 1024;
const STACK_BASE: u64 = 0x4000_0000;
const HEAP_BASE: u64 = 0x8000_0000;
const NCLASS: usize = 64;

#[derive(Clone)]
pub struct Page {
    data: [u8; PG],
    sym: Option<Box<[u32; PG]>>,
}
type Pg = Option<Rc<Page>>;

#[derive(Clone, Default)]
pub struct Mem {
    glob: Vec<Pg>,
    stack: Vec<Pg>,
    heap: Vec<Pg>,
    heap_top: u64,
    free: Vec<u64>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// path finished normally
    Done,
    /// the program panicked / aborted
    Panic(String),
    /// symbolic assertion can fail
    Assert(u32),
    /// assumption unsatisfiable: path is vacuous
    Infeasible,
    /// engine limitation: the run is inconclusive
    Error(String),
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

fn zero_page() -> Rc<Page> {
    Rc::new(Page { data: [0; PG], sym: None })
}

impl Mem {
    #[inline]
    fn page(&self, addr: u64) -> Option<&Rc<Page>> {
        let (v, o) = if addr >= HEAP_BASE {
            (&self.heap, addr - HEAP_BASE)
        } else if addr >= STACK_BASE {
            (&self.stack, addr - STACK_BASE)
        } else if addr >= GLOBAL_BASE {
            (&self.glob, addr - GLOBAL_BASE)
        } else {
            return None;
        };
        match v.get((o as usize) / PG) {
            Some(Some(p)) => Some(p),
            _ => None,
        }
    }
    #[inline]
    fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        let (v, o, grow) = if addr >= HEAP_BASE {
            let ok = addr < self.heap_top;
            (&mut self.heap, addr - HEAP_BASE, ok)
        } else if addr >= STACK_BASE {
            (&mut self.stack, addr - STACK_BASE, addr < STACK_BASE + 0x400_0000)
        } else if addr >= GLOBAL_BASE {
            (&mut self.glob, addr - GLOBAL_BASE, false)
        } else {
            return None;
        };
        let i = (o as usize) / PG;
        if i >= v.len() {
            if !grow {
                return None;
            }
            v.resize(i + 1, None);
        }
        if v[i].is_none() {
            if !grow {
                return None;
            }
            v[i] = Some(zero_page());
        }
        Some(Rc::make_mut(v[i].as_mut().unwrap()))
    }
    #[inline]
    fn byte(&self, addr: u64) -> R<(u8, E)> {
        match self.page(addr) {
            Some(p) => {
                let o = addr as usize % PG;
                Ok((p.data[o], p.sym.as_ref().map(|s| s[o]).unwrap_or(0)))
            }
            None => {
                // untouched but mapped memory reads as zero
                if self.mapped(addr) {
                    Ok((0, 0))
                } else {
                    err(format!("read of unmapped address {:#x}", addr))
                }
            }
        }
    }
    fn mapped(&self, addr: u64) -> bool {
        if addr >= HEAP_BASE {
            addr < self.heap_top
        } else {
            addr >= STACK_BASE && addr < STACK_BASE + 0x400_0000
        }
    }
    #[inline]
    fn set_byte(&mut self, addr: u64, v: u8, s: E) -> R<()> {
        match self.page_mut(addr) {
            Some(p) => {
                let o = addr as usize % PG;
                p.data[o] = v;
                if let Some(sy) = p.sym.as_mut() {
                    sy[o] = s;
                } else if s != 0 {
                    let mut b = Box::new([0u32; PG]);
                    b[o] = s;
                    p.sym = Some(b);
                }
                Ok(())
            }
            None => err(format!("write to unmapped address {:#x}", addr)),
        }
    }
    /// concrete fast read; None if any byte is symbolic or it crosses pages
    #[inline]
    fn fast_read(&self, addr: u64, n: usize) -> Option<u64> {
        let o = addr as usize % PG;
        if o + n > PG {
            return None;
        }
        let p = self.page(addr)?;
        if let Some(s) = &p.sym {
            for i in 0..n {
                if s[o + i] != 0 {
                    return None;
                }
            }
        }
        let d = &p.data;
        Some(match n {
            1 => d[o] as u64,
            8 => u64::from_le_bytes(d[o..o + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64,
            2 => u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64,
            _ => {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&d[o..o + n]);
                u64::from_le_bytes(b)
            }
        })
    }
    #[inline]
    fn fast_write(&mut self, addr: u64, n: usize, v: u64) -> bool {
        let o = addr as usize % PG;
        if o + n > PG {
            return false;
        }
        let p = match self.page_mut(addr) {
            Some(p) => p,
            None => return false,
        };
        if let Some(s) = &mut p.sym {
            for i in 0..n {
                s[o + i] = 0;
            }
        }
        p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        true
    }
    fn class(n: u64) -> (usize, u64) {
        // size classes: 16-byte steps to 256, then powers of two with 4 steps
        if n <= 256 {
            let k = ((n + 15) / 16).max(1);
            (k as usize, k * 16)
        } else {
            let p = 63 - (n - 1).leading_zeros() as u64; // 2^p < n <= 2^(p+1)
            let step = 1u64 << (p - 2);
            let k = (n + step - 1) / step; // 5..=8
            let c = 17 + (p - 8) * 4 + (k - 5);
            (c as usize, k * step)
        }
    }
    fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        if n > 1 << 26 || self.heap_top > HEAP_BASE + (1 << 27) {
            return Err(Stop::Panic(format!("memory bound: allocation of {} bytes", n)));
        }
        if self.free.is_empty() {
            self.free = vec![0; NCLASS];
        }
        if align <= 16 {
            let (c, sz) = Self::class(n);
            if c < NCLASS && self.free[c] != 0 {
                let a = self.free[c];
                let next = self.fast_read(a, 8).unwrap_or(0);
                self.free[c] = next;
                self.fast_write(a - 16, 8, n);
                return Ok(a);
            }
            let a = self.heap_top + 16;
            self.heap_top = a + sz;
            self.fast_write(a - 16, 8, n);
            self.fast_write(a - 8, 8, c as u64);
            Ok(a)
        } else {
            let a = (self.heap_top + 16 + align - 1) / align * align;
            self.heap_top = a + (n + 15) / 16 * 16;
            self.fast_write(a - 16, 8, n);
            self.fast_write(a - 8, 8, NCLASS as u64);
            Ok(a)
        }
    }
    fn msize(&self, a: u64) -> u64 {
        self.fast_read(a - 16, 8).unwrap_or(0)
    }
    fn mfree(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let c = self.fast_read(a - 8, 8).unwrap_or(NCLASS as u64) as usize;
        if c < NCLASS {
            let h = self.free[c];
            self.fast_write(a, 8, h);
            self.free[c] = a;
        }
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        if n <= 8 {
            if let Some(v) = self.fast_read(s, n as usize) {
                if self.fast_write(d, n as usize, v) {
                    return Ok(());
                }
            }
        }
        // chunked through a buffer (handles overlap)
        let mut buf = vec![0u8; n as usize];
        let mut sym: Vec<u32> = vec![];
        let mut i = 0usize;
        while i < n as usize {
            let a = s + i as u64;
            let o = a as usize % PG;
            let k = (PG - o).min(n as usize - i);
            match self.page(a) {
                Some(p) => {
                    buf[i..i + k].copy_from_slice(&p.data[o..o + k]);
                    if let Some(sy) = &p.sym {
                        if sy[o..o + k].iter().any(|x| *x != 0) {
                            if sym.is_empty() {
                                sym = vec![0; n as usize];
                            }
                            sym[i..i + k].copy_from_slice(&sy[o..o + k]);
                        }
                    }
                }
                None => {
                    if !self.mapped(a) {
                        return err(format!("memcpy from unmapped {:#x}", a));
                    }
                }
            }
            i += k;
        }
        let mut i = 0usize;
        while i < n as usize {
            let a = d + i as u64;
            let o = a as usize % PG;
            let k = (PG - o).min(n as usize - i);
            match self.page_mut(a) {
                Some(p) => {
                    p.data[o..o + k].copy_from_slice(&buf[i..i + k]);
                    if sym.is_empty() {
                        if let Some(sy) = &mut p.sym {
                            sy[o..o + k].fill(0);
                        }
                    } else {
                        if p.sym.is_none() {
                            p.sym = Some(Box::new([0; PG]));
                        }
                        p.sym.as_mut().unwrap()[o..o + k].copy_from_slice(&sym[i..i + k]);
                    }
                }
                None => return err(format!("memcpy to unmapped {:#x}", a)),
            }
            i += k;
        }
        Ok(())
    }
    fn set(&mut self, d: u64, v: u8, s: E, n: u64) -> R<()> {
        let mut i = 0usize;
        while i < n as usize {
            let a = d + i as u64;
            let o = a as usize % PG;
            let k = (PG - o).min(n as usize - i);
            match self.page_mut(a) {
                Some(p) => {
                    p.data[o..o + k].fill(v);
                    if s != 0 && p.sym.is_none() {
                        p.sym = Some(Box::new([0; PG]));
                    }
                    if let Some(sy) = &mut p.sym {
                        sy[o..o + k].fill(s);
                    }
                }
                None => return err(format!("memset of unmapped {:#x}", a)),
            }
            i += k;
        }
        Ok(())
    }
}

#[derive(Clone)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    sp: u64,
    ret_d: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Reg>,
    pub mem: Mem,
    sp: u64,
    pub pc: Pc,
    pub decisions: Vec<u64>,
    pub nsym: u32,
    pub obs: Vec<(u64, E)>,
    pub reach: u64,
    pub steps: u64,
    pub choices: Vec<(u32, u32)>,
    pub sip: bool,
}

fn dbg_fn(f: &Func, pc: usize) -> String {
    format!("{}@{}", f.name, pc)
}

pub struct Vm {
    pub m: Arc<Module>,
    pub x: Exprs,
    pub solver: Solver,
    pub work: Vec<State>,
    pub prefix: Vec<u64>,
    pub blocks: Vec<bool>,
    pub total_steps: u64,
    pub forks: u64,
    pub max_steps: u64,
    pub assert_queries: u64,
    pub assert_concrete: u64,
    pub assume_queries: u64,
    pub concretizations: u64,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub profile: bool,
    pub deadline: Option<std::time::Instant>,
}

macro_rules! g {
    ($regs:expr, $consts:expr, $base:expr, $o:expr) => {{
        let o = $o;
        if o & CBIT != 0 {
            unsafe { *$consts.get_unchecked((o & !CBIT) as usize) }
        } else {
            unsafe { *$regs.get_unchecked($base + o as usize) }
        }
    }};
}

#[inline]
fn m64(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

#[inline]
fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn binop_x(op: BinOp) -> expr::Op {
    match op {
        BinOp::Add => expr::Op::Add,
        BinOp::Sub => expr::Op::Sub,
        BinOp::Mul => expr::Op::Mul,
        BinOp::UDiv => expr::Op::UDiv,
        BinOp::SDiv => expr::Op::SDiv,
        BinOp::URem => expr::Op::URem,
        BinOp::SRem => expr::Op::SRem,
        BinOp::Shl => expr::Op::Shl,
        BinOp::LShr => expr::Op::LShr,
        BinOp::AShr => expr::Op::AShr,
        BinOp::And => expr::Op::And,
        BinOp::Or => expr::Op::Or,
        BinOp::Xor => expr::Op::Xor,
    }
}

#[inline]
fn bin64(op: BinOp, w: u8, a: u64, b: u64) -> Option<u64> {
    let m = m64(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u64 {
                0
            } else {
                (a << b) & m
            }
        }
        BinOp::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let k = b.min(w as u64 - 1);
            ((sx(a, w) >> k) as u64) & m
        }
        BinOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOp::SDiv => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_div(sx(b, w)) as u64) & m
        }
        BinOp::SRem => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_rem(sx(b, w)) as u64) & m
        }
    })
}

#[inline]
fn icmp64(p: Pred, w: u8, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

impl Reg {
    #[inline]
    fn c(v: u64) -> Reg {
        Reg { lo: v, hi: 0, s: 0 }
    }
    #[inline]
    fn wide(v: u128) -> Reg {
        Reg { lo: v as u64, hi: (v >> 64) as u64, s: 0 }
    }
    #[inline]
    fn u128(&self) -> u128 {
        self.lo as u128 | (self.hi as u128) << 64
    }
}

/// result of executing one instruction slow-path
enum Flow {
    Next,
    Jump,
}

impl Vm {
    pub fn new(m: Arc<Module>, timeout_ms: u32, shared: crate::solver::Shared) -> Vm {
        let nb = m.nblocks as usize;
        Vm {
            m,
            x: Exprs::new(),
            solver: Solver::new(timeout_ms, shared),
            work: vec![],
            prefix: vec![],
            blocks: vec![false; nb],
            total_steps: 0,
            forks: 0,
            max_steps: 300_000_000,
            assert_queries: 0,
            assert_concrete: 0,
            assume_queries: 0,
            concretizations: 0,
            fork_sites: HashMap::new(),
            profile: std::env::var("SYMEX_PROFILE").is_ok(),
            deadline: None,
        }
    }

    pub fn base_state(&self) -> State {
        let mut mem = Mem { heap_top: HEAP_BASE, ..Default::default() };
        let np = ((self.m.globals_end - GLOBAL_BASE) as usize + PG - 1) / PG + 1;
        let mut img = vec![0u8; np * PG];
        for gl in &self.m.globals {
            let o = (gl.addr - GLOBAL_BASE) as usize;
            img[o..o + gl.init.len()].copy_from_slice(&gl.init);
        }
        for i in 0..np {
            let mut p = Page { data: [0; PG], sym: None };
            p.data.copy_from_slice(&img[i * PG..(i + 1) * PG]);
            mem.glob.push(Some(Rc::new(p)));
        }
        State {
            frames: vec![],
            regs: vec![],
            mem,
            sp: STACK_BASE + 64,
            pc: Pc::default(),
            decisions: vec![],
            nsym: 0,
            obs: vec![],
            reach: 0,
            steps: 0,
            choices: vec![],
            sip: false,
        }
    }

    pub fn start(&self, st: &mut State, func: &str, args: &[u64]) {
        let fi = *self.m.fidx.get(func).unwrap_or_else(|| panic!("no function {}", func));
        let f = &self.m.funcs[fi as usize];
        st.frames.clear();
        st.regs.clear();
        st.regs.resize(f.nslots as usize + 8, Reg::default());
        for (i, a) in args.iter().enumerate() {
            st.regs[i] = Reg::c(*a);
        }
        st.frames.push(Frame { func: fi, pc: 0, base: 0, sp: st.sp, ret_d: 0 });
    }

    fn ex(&mut self, r: Reg, w: u32) -> E {
        if r.s != 0 {
            debug_assert_eq!(self.x.w(r.s), w);
            r.s
        } else {
            self.x.cst(r.u128(), w)
        }
    }
    fn mk(&self, e: E) -> Reg {
        match self.x.is_const(e) {
            Some(v) => Reg::wide(v),
            None => Reg { lo: 0, hi: 0, s: e },
        }
    }

    /// feasibility of c under pc: (can be true, can be false)
    fn feas(&mut self, st: &mut State, c: E) -> R<(bool, bool)> {
        if let Some(v) = self.x.is_const(c) {
            return Ok((v != 0, v == 0));
        }
        let (t, _) = self.solver.check(&mut self.x, &st.pc, c);
        let nc = self.x.not(c);
        let (f, _) = self.solver.check(&mut self.x, &st.pc, nc);
        match (t, f) {
            (Some(t), Some(f)) => Ok((t, f)),
            _ => err("solver returned unknown"),
        }
    }

    /// add c to pc, refreshing the witness model
    fn constrain(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.x.is_const(c) {
            return Ok(v != 0);
        }
        let (r, wit) = self.solver.check(&mut self.x, &st.pc, c);
        match r {
            None => err("solver returned unknown"),
            Some(false) => Ok(false),
            Some(true) => {
                let mut memo = HashMap::new();
                if self.x.eval(c, &st.pc.model, &mut memo) == 0 {
                    for (v, b) in wit {
                        if st.pc.model.len() <= v as usize {
                            st.pc.model.resize(v as usize + 1, 0);
                        }
                        st.pc.model[v as usize] = b;
                    }
                }
                self.solver.add(&mut self.x, &mut st.pc, c);
                Ok(true)
            }
        }
    }

    /// decide which of several alternatives to follow; pushes the others.
    /// Each alternative has a constraint and an action applied to the state.
    fn fork(&mut self, st: &mut State, alts: Vec<(E, Box<dyn Fn(&Vm, &mut State)>)>) -> R<()> {
        debug_assert!(!alts.is_empty());
        if alts.len() == 1 {
            let (c, act) = &alts[0];
            if !self.constrain(st, *c)? {
                return err("single alternative infeasible");
            }
            act(self, st);
            return Ok(());
        }
        let k = st.decisions.len();
        if k < self.prefix.len() {
            let i = (self.prefix[k] & 0xffff) as usize;
            let mut h = 0u64;
            for (c, _) in &alts {
                h = h.rotate_left(9) ^ self.x.ident(*c);
            }
            if self.prefix[k] >> 16 != h >> 16 || i >= alts.len() {
                return err("replay diverged");
            }
            let (c, act) = &alts[i];
            if !self.constrain(st, *c)? {
                return err("prefix replay diverged");
            }
            st.decisions.push(self.prefix[k]);
            act(self, st);
            return Ok(());
        }
        self.forks += alts.len() as u64 - 1;
        let mut h = 0u64;
        for (c, _) in &alts {
            h = h.rotate_left(9) ^ self.x.ident(*c);
        }
        let h = h >> 16 << 16;
        if self.profile {
            let fr = st.frames.last().unwrap();
            *self.fork_sites.entry((fr.func, fr.pc)).or_default() += 1;
        }
        for (i, (c, act)) in alts.iter().enumerate().skip(1).rev() {
            let mut s2 = st.clone();
            if !self.constrain(&mut s2, *c)? {
                return err("alternative infeasible");
            }
            s2.decisions.push(h | i as u64);
            act(self, &mut s2);
            self.work.push(s2);
        }
        let (c, act) = &alts[0];
        if !self.constrain(st, *c)? {
            return err("alternative infeasible");
        }
        st.decisions.push(h);
        act(self, st);
        Ok(())
    }

    /// all feasible values of e, closed by an unsat query
    fn values(&mut self, st: &mut State, e: E, max: usize) -> R<Vec<u128>> {
        let w = self.x.w(e);
        let mut out = vec![];
        let mut excl = self.x.tru();
        if let (Vars::One(v), Some(t)) = (self.x.vars[e as usize], self.x.tab[e as usize].clone()) {
            // candidate values from the value table; each is confirmed by the solver
            let d = self.solver.dom_of(&st.pc, v as usize);
            let mut cand: Vec<u64> = (0..256).filter(|i| d[i / 64] >> (i % 64) & 1 == 1).map(|i| t[i]).collect();
            cand.sort();
            cand.dedup();
            for v in cand {
                let k = self.x.cst(v as u128, w);
                let q = self.x.eq(e, k);
                let (r, _) = self.solver.check(&mut self.x, &st.pc, q);
                match r {
                    Some(true) => {
                        out.push(v as u128);
                        let nq = self.x.not(q);
                        excl = self.x.and(excl, nq);
                    }
                    Some(false) => {}
                    None => return err("solver returned unknown"),
                }
                if out.len() > max {
                    return err("too many values for a concretized term");
                }
            }
            let (r, _) = self.solver.check(&mut self.x, &st.pc, excl);
            if r != Some(false) {
                return err("value enumeration not closed");
            }
            return Ok(out);
        }
        loop {
            let (r, wit) = self.solver.check(&mut self.x, &st.pc, excl);
            match r {
                None => return err("solver returned unknown"),
                Some(false) => break,
                Some(true) => {
                    let mut model = st.pc.model.clone();
                    if self.x.is_const(excl).is_none() {
                        for (v, b) in wit {
                            if model.len() <= v as usize {
                                model.resize(v as usize + 1, 0);
                            }
                            model[v as usize] = b;
                        }
                    }
                    let mut memo = HashMap::new();
                    let v = self.x.eval(e, &model, &mut memo);
                    if out.contains(&v) {
                        return err("value enumeration repeats");
                    }
                    out.push(v);
                    let k = self.x.cst(v, w);
                    let q = self.x.eq(e, k);
                    let nq = self.x.not(q);
                    excl = self.x.and(excl, nq);
                    if out.len() > max {
                        return err("too many values for a concretized term");
                    }
                }
            }
        }
        out.sort();
        Ok(out)
    }

    /// make register `slot` concrete by forking over its feasible values;
    /// the current instruction is then re-executed.
    fn concretize(&mut self, st: &mut State, slot: usize, max: usize) -> R<()> {
        let e = st.regs[slot].s;
        self.concretizations += 1;
        let w = self.x.w(e);
        let vals = self.values(st, e, max)?;
        if vals.is_empty() {
            return err("no feasible value");
        }
        let mut alts: Vec<(E, Box<dyn Fn(&Vm, &mut State)>)> = vec![];
        for v in vals {
            let k = self.x.cst(v, w);
            let q = self.x.eq(e, k);
            alts.push((q, Box::new(move |_: &Vm, s: &mut State| s.regs[slot] = Reg::wide(v))));
        }
        self.fork(st, alts)
    }

    fn take_edge(&self, st: &mut State, func: u32, base: usize, e: u32) {
        let f = &self.m.funcs[func as usize];
        let ed = &f.edges[e as usize];
        let consts = &self.m.consts;
        let mv = &f.moves[ed.moves as usize..(ed.moves + ed.n) as usize];
        if mv.len() == 1 {
            let r = g!(st.regs, consts, base, mv[0].1);
            st.regs[base + mv[0].0 as usize] = r;
        } else if !mv.is_empty() {
            let mut tmp: [Reg; 16] = [Reg::default(); 16];
            if mv.len() <= 16 {
                for (i, (_, a)) in mv.iter().enumerate() {
                    tmp[i] = g!(st.regs, consts, base, *a);
                }
                for (i, (d, _)) in mv.iter().enumerate() {
                    st.regs[base + *d as usize] = tmp[i];
                }
            } else {
                let tmp: Vec<Reg> = mv.iter().map(|(_, a)| g!(st.regs, consts, base, *a)).collect();
                for (i, (d, _)) in mv.iter().enumerate() {
                    st.regs[base + *d as usize] = tmp[i];
                }
            }
        }
        st.frames.last_mut().unwrap().pc = ed.pc;
    }

    fn load(&mut self, st: &mut State, addr: u64, w: u32) -> R<Reg> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(v) = st.mem.fast_read(addr, n) {
                let v = if w < 64 { v & m64(w as u8) } else { v };
                return Ok(Reg::c(v));
            }
        }
        let mut bytes = [(0u8, 0u32); 16];
        let mut anys = false;
        for (i, b) in bytes.iter_mut().enumerate().take(n) {
            *b = st.mem.byte(addr.wrapping_add(i as u64))?;
            anys |= b.1 != 0;
        }
        if !anys {
            let mut v = 0u128;
            for i in 0..n {
                v |= (bytes[i].0 as u128) << (8 * i);
            }
            return Ok(Reg::wide(v & expr::mask(w)));
        }
        let mut e: E = 0;
        for b in bytes.iter().take(n) {
            let be = if b.1 != 0 { b.1 } else { self.x.cst(b.0 as u128, 8) };
            e = if e == 0 { be } else { self.x.concat(be, e) };
        }
        if (w as usize) < 8 * n {
            e = self.x.extract(e, 0, w);
        }
        Ok(self.mk(e))
    }

    fn store(&mut self, st: &mut State, addr: u64, w: u32, r: Reg) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if r.s == 0 {
            if n <= 8 {
                if st.mem.fast_write(addr, n, r.lo) {
                    return Ok(());
                }
            }
            let v = r.u128();
            for i in 0..n {
                st.mem.set_byte(addr.wrapping_add(i as u64), (v >> (8 * i)) as u8, 0)?;
            }
            return Ok(());
        }
        let e = self.x.zext(r.s, 8 * n as u32);
        for i in 0..n {
            let b = self.x.extract(e, 8 * i as u32, 8);
            match self.x.is_const(b) {
                Some(v) => st.mem.set_byte(addr.wrapping_add(i as u64), v as u8, 0)?,
                None => st.mem.set_byte(addr.wrapping_add(i as u64), 0, b)?,
            }
        }
        Ok(())
    }

    /// load through a one-variable symbolic address from concrete memory
    fn table_load(&mut self, st: &mut State, pe: E, w: u32) -> R<Option<Reg>> {
        if w > 64 {
            return Ok(None);
        }
        let (v, t) = match (self.x.vars[pe as usize], self.x.tab[pe as usize].clone()) {
            (Vars::One(v), Some(t)) => (v, t),
            _ => return Ok(None),
        };
        let d = self.solver.dom_of(&st.pc, v as usize);
        let mut o = [0u64; 256];
        let mut filler = None;
        for i in 0..256 {
            if d[i / 64] >> (i % 64) & 1 == 1 {
                let n = ((w + 7) / 8) as usize;
                let mut val = 0u64;
                for k in 0..n {
                    match st.mem.byte(t[i] + k as u64) {
                        Ok((b, 0)) => val |= (b as u64) << (8 * k),
                        _ => return Ok(None),
                    }
                }
                o[i] = val & m64(w as u8);
                filler.get_or_insert(o[i]);
            }
        }
        // values outside the current domain are unconstrained: any filler is sound
        let fl = filler.unwrap_or(0);
        for i in 0..256 {
            if d[i / 64] >> (i % 64) & 1 == 0 {
                o[i] = fl;
            }
        }
        let e = self.x.from_table(v as u32, w, o);
        Ok(Some(self.mk(e)))
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.exec(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn here(&self, st: &State) -> String {
        let mut s = String::new();
        for fr in st.frames.iter().rev().take(6) {
            s.push_str(&format!("{}@{} <- ", self.m.funcs[fr.func as usize].name, fr.pc));
        }
        s
    }

    /// run until something needs the slow path or the path ends
    fn exec(&mut self, st: &mut State) -> R<()> {
        let m = self.m.clone();
        let consts: &[Reg] = &m.consts;
        let mut fr = st.frames.last().unwrap().clone();
        let mut f: &Func = &m.funcs[fr.func as usize];
        let mut base = fr.base as usize;
        let mut pc = fr.pc as usize;
        let mut steps = 0u64;
        macro_rules! gr {
            ($o:expr) => {
                g!(st.regs, consts, base, $o)
            };
        }
        macro_rules! set {
            ($d:expr, $r:expr) => {{
                let r = $r;
                unsafe {
                    *st.regs.get_unchecked_mut(base + $d as usize) = r;
                }
            }};
        }
        macro_rules! save {
            () => {{
                st.frames.last_mut().unwrap().pc = pc as u32;
                st.steps += steps;
                self.total_steps += steps;
                #[allow(unused_assignments)]
                {
                    steps = 0;
                }
            }};
        }
        macro_rules! conc {
            // ensure operand is concrete, else fork & restart
            ($o:expr, $max:expr) => {{
                let r = gr!($o);
                if r.s != 0 {
                    save!();
                    return self.concretize(st, base + $o as usize, $max);
                }
                r
            }};
        }
        macro_rules! jump {
            ($e:expr) => {{
                let ed = unsafe { f.edges.get_unchecked($e as usize) };
                if ed.n != 0 {
                    self.take_edge(st, fr.func, base, $e);
                }
                pc = ed.pc as usize;
                self.blocks[(f.blk_base + ed.blk) as usize] = true;
                if steps > 1 << 22 {
                    save!();
                    self.check_budget(st)?;
                }
                continue;
            }};
        }
        loop {
            let ins = unsafe { f.code.get_unchecked(pc) };
            steps += 1;
            match ins {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (gr!(*a), gr!(*b));
                    if x.s | y.s == 0 && *w <= 64 {
                        match bin64(*op, *w, x.lo, y.lo) {
                            Some(v) => set!(*d, Reg::c(v)),
                            None => {
                                save!();
                                return err("division by zero");
                            }
                        }
                    } else {
                        let (p, q) = (self.ex(x, *w as u32), self.ex(y, *w as u32));
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && y.s == 0 && y.u128() == 0 {
                            save!();
                            return err("division by zero");
                        }
                        let e = self.x.bin(binop_x(*op), p, q);
                        set!(*d, self.mk(e));
                    }
                }
                Inst::ICmp { p, w, d, a, b } => {
                    let (x, y) = (gr!(*a), gr!(*b));
                    if x.s | y.s == 0 && *w <= 64 {
                        set!(*d, Reg::c(icmp64(*p, *w, x.lo, y.lo) as u64));
                    } else {
                        let e = self.icmp_x(*p, *w as u32, x, y);
                        set!(*d, self.mk(e));
                    }
                }
                Inst::Cast { op, from, to, d, a } => {
                    let x = gr!(*a);
                    if x.s == 0 {
                        let r = match op {
                            CastOp::Zext => x,
                            CastOp::Sext => {
                                if *to <= 64 {
                                    Reg::c(sx(x.lo, *from) as u64 & m64(*to))
                                } else {
                                    Reg::wide(sext(x.u128(), *from as u32) as u128 & expr::mask(*to as u32))
                                }
                            }
                            CastOp::Trunc => {
                                if *to <= 64 {
                                    Reg::c(x.lo & m64(*to))
                                } else {
                                    Reg::wide(x.u128() & expr::mask(*to as u32))
                                }
                            }
                            CastOp::Bit => x,
                        };
                        set!(*d, r);
                    } else {
                        let e = match op {
                            CastOp::Zext => self.x.zext(x.s, *to as u32),
                            CastOp::Sext => self.x.sext(x.s, *to as u32),
                            CastOp::Trunc => self.x.extract(x.s, 0, *to as u32),
                            CastOp::Bit => x.s,
                        };
                        set!(*d, self.mk(e));
                    }
                }
                Inst::Select { d, c, a, b, n, w0 } => {
                    let cr = gr!(*c);
                    if cr.s == 0 {
                        let src = if cr.lo != 0 { *a } else { *b };
                        if *n == 1 {
                            set!(*d, gr!(src));
                        } else {
                            for i in 0..*n {
                                set!(*d + i, gr!(src + i));
                            }
                        }
                    } else if *w0 != 0 {
                        let (x, y) = (gr!(*a), gr!(*b));
                        let (p, q) = (self.ex(x, *w0 as u32), self.ex(y, *w0 as u32));
                        let e = self.x.ite(cr.s, p, q);
                        set!(*d, self.mk(e));
                    } else {
                        conc!(*c, 4);
                    }
                }
                Inst::Load { d, p, w } => {
                    let pr = gr!(*p);
                    if pr.s != 0 {
                        save!();
                        if let Some(r) = self.table_load(st, pr.s, *w as u32)? {
                            set!(*d, r);
                            pc += 1;
                            continue;
                        }
                        return self.concretize(st, base + *p as usize, 512);
                    }
                    let n = ((*w as usize) + 7) / 8;
                    let fast = if n <= 8 { st.mem.fast_read(pr.lo, n) } else { None };
                    match fast {
                        Some(v) => set!(*d, Reg::c(if *w < 64 { v & m64(*w) } else { v })),
                        None => {
                            save!();
                            match self.load(st, pr.lo, *w as u32) {
                                Ok(r) => set!(*d, r),
                                Err(Stop::Error(s)) => return err(format!("{} at {}", s, self.here(st))),
                                Err(e) => return Err(e),
                            }
                        }
                    }
                }
                Inst::Store { v, p, w } => {
                    let pr = conc!(*p, 512);
                    let vr = gr!(*v);
                    let n = ((*w as usize) + 7) / 8;
                    if vr.s == 0 && n <= 8 && st.mem.fast_write(pr.lo, n, vr.lo) {
                    } else {
                        save!();
                        if let Err(Stop::Error(s)) = self.store(st, pr.lo, *w as u32, vr) {
                            return err(format!("{} at {}", s, self.here(st)));
                        }
                    }
                }
                Inst::LoadAgg { d, p, leaves, n } => {
                    let pr = conc!(*p, 512);
                    for i in 0..*n {
                        let lf = f.leaves[(*leaves + i) as usize];
                        let r = self.load(st, pr.lo + lf.off as u64, lf.w)?;
                        set!(*d + i, r);
                    }
                }
                Inst::StoreAgg { v, p, leaves, n } => {
                    let pr = conc!(*p, 512);
                    for i in 0..*n {
                        let lf = f.leaves[(*leaves + i) as usize];
                        let r = gr!(*v + i);
                        self.store(st, pr.lo + lf.off as u64, lf.w, r)?;
                    }
                }
                Inst::GepC { d, p, off } => {
                    let r = gr!(*p);
                    if r.s == 0 {
                        set!(*d, Reg::c(r.lo.wrapping_add(*off as u64)));
                    } else {
                        let k = self.x.cst(*off as u64 as u128, 64);
                        let e = self.x.bin(expr::Op::Add, r.s, k);
                        set!(*d, self.mk(e));
                    }
                }
                Inst::Gep1 { d, p, off, i, iw, scale } => {
                    let (r, ir) = (gr!(*p), gr!(*i));
                    if r.s | ir.s == 0 {
                        let idx = sx(ir.lo, *iw);
                        set!(*d, Reg::c(r.lo.wrapping_add(*off as u64).wrapping_add(idx.wrapping_mul(*scale) as u64)));
                    } else {
                        let e = self.gep_x(r, *off, &[(ir, *iw, *scale)]);
                        set!(*d, self.mk(e));
                    }
                }
                Inst::GepN { d, p, off, terms, n } => {
                    let r = gr!(*p);
                    let mut v = vec![];
                    for t in &f.terms[*terms as usize..(*terms + *n) as usize] {
                        v.push((gr!(t.0), t.1, t.2));
                    }
                    let e = self.gep_x(r, *off, &v);
                    set!(*d, self.mk(e));
                }
                Inst::Alloca { d, size, align } => {
                    let al = (*align).max(16) as u64;
                    st.sp = (st.sp + al - 1) / al * al;
                    let a = st.sp;
                    st.sp += size;
                    set!(*d, Reg::c(a));
                }
                Inst::Br { e } => jump!(*e),
                Inst::CondBr { c, t, f: fe } => {
                    let r = gr!(*c);
                    if r.s == 0 {
                        if r.lo != 0 {
                            jump!(*t)
                        } else {
                            jump!(*fe)
                        }
                    }
                    save!();
                    self.check_budget(st)?;
                    // a condition over several bytes is decided one byte at a time
                    let mut cond = r.s;
                    let slot = base + *c as usize;
                    while self.x.vars[cond as usize] == Vars::Many {
                        let u = match self.x.find_unary(cond) {
                            Some(u) => u,
                            None => break,
                        };
                        let (ut, uf) = self.feas(st, u)?;
                        let ct = self.x.assume_sub(cond, u, true);
                        let cf = self.x.assume_sub(cond, u, false);
                        match (ut, uf) {
                            (true, false) => cond = ct,
                            (false, true) => cond = cf,
                            (false, false) => return err("path condition became unsatisfiable"),
                            (true, true) => {
                                let nu = self.x.not(u);
                                let mkr = |x: &Exprs, e: E| match x.is_const(e) {
                                    Some(v) => Reg::wide(v),
                                    None => Reg { lo: 0, hi: 0, s: e },
                                };
                                let (rt, rf) = (mkr(&self.x, ct), mkr(&self.x, cf));
                                let alts: Vec<(E, Box<dyn Fn(&Vm, &mut State)>)> =
                                    vec![(u, Box::new(move |_: &Vm, s: &mut State| s.regs[slot] = rt)), (nu, Box::new(move |_: &Vm, s: &mut State| s.regs[slot] = rf))];
                                return self.fork(st, alts);
                            }
                        }
                    }
                    let r = match self.x.is_const(cond) {
                        Some(v) => {
                            if v != 0 {
                                jump!(*t)
                            } else {
                                jump!(*fe)
                            }
                        }
                        None => Reg { lo: 0, hi: 0, s: cond },
                    };
                    if show_multi() && self.x.vars[r.s as usize] == Vars::Many {
                        eprintln!("multi {} {:?}", self.x.show(r.s, 6), dbg_fn(f, pc));
                    }
                    let (ct, cf) = self.feas(st, r.s)?;
                    match (ct, cf) {
                        (true, false) => jump!(*t),
                        (false, true) => jump!(*fe),
                        (false, false) => return err("path condition became unsatisfiable"),
                        (true, true) => {
                            let (fi, t, fe) = (fr.func, *t, *fe);
                            let nc = self.x.not(r.s);
                            let e2b = |e: u32| -> Box<dyn Fn(&Vm, &mut State)> { Box::new(move |vm: &Vm, s: &mut State| vm.take_edge(s, fi, base, e)) };
                            self.mark(f, t);
                            self.mark(f, fe);
                            return self.fork(st, vec![(r.s, e2b(t)), (nc, e2b(fe))]);
                        }
                    }
                }
                Inst::Switch { v, w, tab } => {
                    let r = gr!(*v);
                    let (cases, def) = &f.switches[*tab as usize];
                    if r.s == 0 {
                        let k = r.u128();
                        let e = match cases.binary_search_by_key(&k, |x| x.0) {
                            Ok(i) => cases[i].1,
                            Err(_) => *def,
                        };
                        jump!(e);
                    }
                    save!();
                    self.check_budget(st)?;
                    let _ = w;
                    // group by edge
                    let wv = self.x.w(r.s);
                    let mut order: Vec<u32> = vec![];
                    let mut conds: HashMap<u32, E> = HashMap::new();
                    let mut none = self.x.tru();
                    for (k, e) in cases {
                        let kc = self.x.cst(*k, wv);
                        let q = self.x.eq(r.s, kc);
                        let nq = self.x.not(q);
                        none = self.x.and(none, nq);
                        if *e == *def {
                            continue;
                        }
                        match conds.get(e) {
                            Some(c) => {
                                let c = self.x.or(*c, q);
                                conds.insert(*e, c);
                            }
                            None => {
                                conds.insert(*e, q);
                                order.push(*e);
                            }
                        }
                    }
                    // default: not any of the non-default cases
                    let mut dcond = self.x.tru();
                    for e in &order {
                        let n = self.x.not(conds[e]);
                        dcond = self.x.and(dcond, n);
                    }
                    conds.insert(*def, dcond);
                    order.push(*def);
                    let mut alts: Vec<(E, Box<dyn Fn(&Vm, &mut State)>)> = vec![];
                    let fi = fr.func;
                    for e in order {
                        let c = conds[&e];
                        let (res, _) = self.solver.check(&mut self.x, &st.pc, c);
                        match res {
                            None => return err("solver returned unknown"),
                            Some(true) => {
                                self.mark(f, e);
                                alts.push((c, Box::new(move |vm: &Vm, s: &mut State| vm.take_edge(s, fi, base, e))));
                            }
                            Some(false) => {}
                        }
                    }
                    if alts.is_empty() {
                        return err("switch: no feasible case");
                    }
                    return self.fork(st, alts);
                }
                Inst::Call { d, callee, args, nargs, dn, w } => {
                    let cal = &f.callees[*callee as usize];
                    let aops = &f.args[*args as usize..(*args + *nargs) as usize];
                    let target = match cal {
                        Callee::Direct(i) => *i,
                        Callee::Indirect(o) => {
                            let r = conc!(*o, 64);
                            if r.lo < FUNC_BASE || r.lo >= FUNC_BASE + 16 * m.funcs.len() as u64 {
                                save!();
                                return err(format!("indirect call to {:#x} at {}", r.lo, self.here(st)));
                            }
                            ((r.lo - FUNC_BASE) / 16) as u32
                        }
                        Callee::Intrinsic(i) => {
                            save!();
                            match self.intrinsic(st, *i, base, *d, *dn, *w, aops)? {
                                Flow::Next => {
                                    pc += 1;
                                    continue;
                                }
                                Flow::Jump => return Ok(()),
                            }
                        }
                        Callee::External(e, nm) => {
                            save!();
                            match self.external(st, *e, *nm, base, *d, aops)? {
                                Flow::Next => {
                                    pc += 1;
                                    continue;
                                }
                                Flow::Jump => return Ok(()),
                            }
                        }
                    };
                    let tf = &m.funcs[target as usize];
                    if let Some(ic) = tf.intercept {
                        save!();
                        match self.external(st, ic, u32::MAX - target, base, *d, aops)? {
                            Flow::Next => {
                                pc += 1;
                                continue;
                            }
                            Flow::Jump => return Ok(()),
                        }
                    }
                    if st.frames.len() > 4000 {
                        save!();
                        return Err(Stop::Panic("call depth bound (unbounded recursion)".into()));
                    }
                    let nbase = base + f.nslots as usize;
                    let need = nbase + tf.nslots as usize + 4;
                    if st.regs.len() < need {
                        st.regs.resize(need, Reg::default());
                    }
                    for (i, o) in aops.iter().enumerate() {
                        let r = gr!(*o);
                        st.regs[nbase + i] = r;
                    }
                    // frame bookkeeping: the caller resumes after the call
                    {
                        let top = st.frames.last_mut().unwrap();
                        top.pc = pc as u32 + 1;
                    }
                    st.frames.push(Frame { func: target, pc: 0, base: nbase as u32, sp: st.sp, ret_d: *d });
                    fr = st.frames.last().unwrap().clone();
                    f = tf;
                    base = nbase;
                    pc = 0;
                    self.blocks[f.blk_base as usize] = true;
                    if steps > 1 << 20 {
                        save!();
                        self.check_budget(st)?;
                    }
                    continue;
                }
                Inst::Ret { a, n } => {
                    let done = st.frames.pop().unwrap();
                    st.sp = done.sp;
                    if st.frames.is_empty() {
                        st.steps += steps;
                        self.total_steps += steps;
                        return Err(Stop::Done);
                    }
                    let nf = st.frames.last().unwrap().clone();
                    let nb = nf.base as usize;
                    for i in 0..*n {
                        let r = gr!(*a + i);
                        st.regs[nb + done.ret_d as usize + i as usize] = r;
                    }
                    fr = nf;
                    f = &m.funcs[fr.func as usize];
                    base = nb;
                    pc = fr.pc as usize;
                    st.regs.truncate(base + f.nslots as usize + 4);
                    continue;
                }
                Inst::Unreachable => {
                    save!();
                    return err(format!("unreachable executed at {}", self.here(st)));
                }
                Inst::Copy { d, a, n } => {
                    if *n == 1 {
                        set!(*d, gr!(*a));
                    } else {
                        for i in 0..*n {
                            set!(*d + i, gr!(*a + i));
                        }
                    }
                }
                Inst::InsertVal { d, a, n, v, vn, off } => {
                    for i in 0..*n {
                        let r = if i >= *off && i < *off + *vn { gr!(*v + (i - *off)) } else { gr!(*a + i) };
                        set!(*d + i, r);
                    }
                }
                Inst::VBin { op, w, n, d, a, b } => {
                    for i in 0..*n {
                        let (x, y) = (gr!(*a + i), gr!(*b + i));
                        let r = if x.s | y.s == 0 && *w <= 64 {
                            match bin64(*op, *w, x.lo, y.lo) {
                                Some(v) => Reg::c(v),
                                None => return err("division by zero"),
                            }
                        } else {
                            let (p, q) = (self.ex(x, *w as u32), self.ex(y, *w as u32));
                            let e = self.x.bin(binop_x(*op), p, q);
                            self.mk(e)
                        };
                        set!(*d + i, r);
                    }
                }
                Inst::VICmp { p, w, n, d, a, b } => {
                    for i in 0..*n {
                        let (x, y) = (gr!(*a + i), gr!(*b + i));
                        let r = if x.s | y.s == 0 && *w <= 64 {
                            Reg::c(icmp64(*p, *w, x.lo, y.lo) as u64)
                        } else {
                            let e = self.icmp_x(*p, *w as u32, x, y);
                            self.mk(e)
                        };
                        set!(*d + i, r);
                    }
                }
                Inst::VCast { op, from, to, n, d, a } => {
                    for i in 0..*n {
                        let x = gr!(*a + i);
                        let e0 = self.ex(x, *from as u32);
                        let e = match op {
                            CastOp::Zext => self.x.zext(e0, *to as u32),
                            CastOp::Sext => self.x.sext(e0, *to as u32),
                            CastOp::Trunc => self.x.extract(e0, 0, *to as u32),
                            CastOp::Bit => e0,
                        };
                        set!(*d + i, self.mk(e));
                    }
                }
                Inst::VSelect { d, c, a, b, n, w } => {
                    for i in 0..*n {
                        let cr = gr!(*c + i);
                        let (x, y) = (gr!(*a + i), gr!(*b + i));
                        let r = if cr.s == 0 {
                            if cr.lo != 0 {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (p, q) = (self.ex(x, *w as u32), self.ex(y, *w as u32));
                            let e = self.x.ite(cr.s, p, q);
                            self.mk(e)
                        };
                        set!(*d + i, r);
                    }
                }
                Inst::VBitcast { d, dn, dw, a, n, aw } => {
                    let total = *n * *aw as u32;
                    let anys = (0..*n).any(|i| gr!(*a + i).s != 0);
                    if !anys {
                        // bit buffer
                        let mut bits = vec![0u64; (total as usize + 63) / 64 + 1];
                        let put = |bits: &mut Vec<u64>, pos: u32, v: u64, w: u32| {
                            let (q, o) = ((pos / 64) as usize, pos % 64);
                            bits[q] |= v << o;
                            if o != 0 && o + w > 64 {
                                bits[q + 1] |= v >> (64 - o);
                            }
                        };
                        for i in 0..*n {
                            let r = gr!(*a + i);
                            if *aw as u32 <= 64 {
                                put(&mut bits, i * *aw as u32, r.lo, *aw as u32);
                            } else {
                                put(&mut bits, i * *aw as u32, r.lo, 64);
                                put(&mut bits, i * *aw as u32 + 64, r.hi, *aw as u32 - 64);
                            }
                        }
                        let get = |bits: &Vec<u64>, pos: u32, w: u32| -> u64 {
                            let (q, o) = ((pos / 64) as usize, pos % 64);
                            let mut v = bits[q] >> o;
                            if o != 0 && o + w > 64 {
                                v |= bits[q + 1] << (64 - o);
                            }
                            v & m64(w as u8)
                        };
                        for i in 0..*dn {
                            let pos = i * *dw as u32;
                            let r = if *dw as u32 <= 64 {
                                Reg::c(get(&bits, pos, *dw as u32))
                            } else {
                                Reg { lo: get(&bits, pos, 64), hi: get(&bits, pos + 64, *dw as u32 - 64), s: 0 }
                            };
                            set!(*d + i, r);
                        }
                    } else {
                        if total > 128 {
                            return err("wide symbolic vector bitcast");
                        }
                        let mut e: E = 0;
                        for i in 0..*n {
                            let r = gr!(*a + i);
                            let x = self.ex(r, *aw as u32);
                            e = if e == 0 { x } else { self.x.concat(x, e) };
                        }
                        for i in 0..*dn {
                            let x = self.x.extract(e, i * *dw as u32, *dw as u32);
                            set!(*d + i, self.mk(x));
                        }
                    }
                }
                Inst::ExtractEl { d, a, n, i } => {
                    let ir = conc!(*i, 64);
                    if ir.lo >= *n as u64 {
                        return err("extractelement index");
                    }
                    set!(*d, gr!(*a + ir.lo as u32));
                }
                Inst::InsertEl { d, a, n, v, i } => {
                    let ir = conc!(*i, 64);
                    let vr = gr!(*v);
                    for k in 0..*n {
                        let r = if k as u64 == ir.lo { vr } else { gr!(*a + k) };
                        set!(*d + k, r);
                    }
                }
                Inst::Shuffle { d, a, b, an, mask, n } => {
                    let mut tmp = vec![];
                    for k in 0..*n {
                        let mi = f.masks[(*mask + k) as usize] as u32;
                        tmp.push(if mi < *an { gr!(*a + mi) } else if mi < 2 * *an { gr!(*b + (mi - *an)) } else { Reg::default() });
                    }
                    for (k, r) in tmp.into_iter().enumerate() {
                        set!(*d + k as u32, r);
                    }
                }
                Inst::FBin { op, dbl, d, a, b } => {
                    let x = conc!(*a, 256);
                    let y = conc!(*b, 256);
                    let r = if *dbl {
                        let (p, q) = (f64::from_bits(x.lo), f64::from_bits(y.lo));
                        match op {
                            FOp::Add => p + q,
                            FOp::Sub => p - q,
                            FOp::Mul => p * q,
                            FOp::Div => p / q,
                            FOp::Rem => p % q,
                            FOp::Neg => -p,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x.lo as u32), f32::from_bits(y.lo as u32));
                        match op {
                            FOp::Add => p + q,
                            FOp::Sub => p - q,
                            FOp::Mul => p * q,
                            FOp::Div => p / q,
                            FOp::Rem => p % q,
                            FOp::Neg => -p,
                        }
                        .to_bits() as u64
                    };
                    set!(*d, Reg::c(r));
                }
                Inst::FCmp { p, dbl, d, a, b } => {
                    let x = conc!(*a, 256);
                    let y = conc!(*b, 256);
                    let (l, r) = if *dbl { (f64::from_bits(x.lo), f64::from_bits(y.lo)) } else { (f32::from_bits(x.lo as u32) as f64, f32::from_bits(y.lo as u32) as f64) };
                    let un = l.is_nan() || r.is_nan();
                    let v = match p {
                        0 => false,
                        1 => l == r,
                        2 => l > r,
                        3 => l >= r,
                        4 => l < r,
                        5 => l <= r,
                        6 => !un && l != r,
                        7 => !un,
                        8 => un || l == r,
                        9 => un || l > r,
                        10 => un || l >= r,
                        11 => un || l < r,
                        12 => un || l <= r,
                        13 => l != r,
                        14 => un,
                        _ => true,
                    };
                    set!(*d, Reg::c(v as u64));
                }
                Inst::FConv { op, from, to, d, a } => {
                    let x = conc!(*a, 256);
                    let r = match op {
                        FCast::SiToFp => {
                            let v = sx(x.lo, *from);
                            if *to == 64 {
                                (v as f64).to_bits()
                            } else {
                                (v as f32).to_bits() as u64
                            }
                        }
                        FCast::UiToFp => {
                            if *to == 64 {
                                (x.lo as f64).to_bits()
                            } else {
                                (x.lo as f32).to_bits() as u64
                            }
                        }
                        FCast::FpToSi => {
                            let v = if *from == 64 { f64::from_bits(x.lo) } else { f32::from_bits(x.lo as u32) as f64 };
                            (v as i64 as u64) & m64(*to)
                        }
                        FCast::FpToUi => {
                            let v = if *from == 64 { f64::from_bits(x.lo) } else { f32::from_bits(x.lo as u32) as f64 };
                            (v as u64) & m64(*to)
                        }
                        FCast::FpExt => (f32::from_bits(x.lo as u32) as f64).to_bits(),
                        FCast::FpTrunc => (f64::from_bits(x.lo) as f32).to_bits() as u64,
                    };
                    set!(*d, Reg::c(r));
                }
                Inst::AtomicRmw { d, p, v, w, op } => {
                    let pr = conc!(*p, 64);
                    let old = self.load(st, pr.lo, *w as u32)?;
                    let vr = gr!(*v);
                    let (oe, ve) = (self.ex(old, *w as u32), self.ex(vr, *w as u32));
                    let ne = match op {
                        0 => ve,
                        1 => self.x.bin(expr::Op::Add, oe, ve),
                        2 => self.x.bin(expr::Op::Sub, oe, ve),
                        3 => self.x.bin(expr::Op::And, oe, ve),
                        4 => self.x.bin(expr::Op::Or, oe, ve),
                        _ => self.x.bin(expr::Op::Xor, oe, ve),
                    };
                    let nr = self.mk(ne);
                    self.store(st, pr.lo, *w as u32, nr)?;
                    set!(*d, old);
                }
                Inst::CmpXchg { d, p, c, v, w } => {
                    let pr = conc!(*p, 64);
                    let old = self.load(st, pr.lo, *w as u32)?;
                    let cr = conc!(*c, 64);
                    if old.s != 0 {
                        return err("symbolic cmpxchg");
                    }
                    let eq = old.lo == cr.lo;
                    if eq {
                        let vr = gr!(*v);
                        self.store(st, pr.lo, *w as u32, vr)?;
                    }
                    set!(*d, old);
                    set!(*d + 1, Reg::c(eq as u64));
                }
                Inst::Unsupported { msg } => {
                    save!();
                    return err(format!("unsupported: {} at {}", f.msgs[*msg as usize], self.here(st)));
                }
            }
            pc += 1;
        }
    }

    fn mark(&mut self, f: &Func, e: u32) {
        let b = f.blk_base + f.edges[e as usize].blk;
        self.blocks[b as usize] = true;
    }

    fn check_budget(&self, st: &State) -> R<()> {
        if st.steps > self.max_steps {
            return Err(Stop::Panic("no termination within the step bound".into()));
        }
        if let Some(d) = self.deadline {
            if std::time::Instant::now() > d {
                return err("deadline");
            }
        }
        Ok(())
    }

    fn icmp_x(&mut self, p: Pred, w: u32, x: Reg, y: Reg) -> E {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        use expr::Op::*;
        match p {
            Pred::Eq => self.x.eq(a, b),
            Pred::Ne => {
                let e = self.x.eq(a, b);
                self.x.not(e)
            }
            Pred::Ult => self.x.cmp(Ult, a, b),
            Pred::Ule => self.x.cmp(Ule, a, b),
            Pred::Ugt => self.x.cmp(Ult, b, a),
            Pred::Uge => self.x.cmp(Ule, b, a),
            Pred::Slt => self.x.cmp(Slt, a, b),
            Pred::Sle => self.x.cmp(Sle, a, b),
            Pred::Sgt => self.x.cmp(Slt, b, a),
            Pred::Sge => self.x.cmp(Sle, b, a),
        }
    }

    fn gep_x(&mut self, r: Reg, off: i64, terms: &[(Reg, u8, i64)]) -> E {
        let mut e = self.ex(r, 64);
        let mut off = off as u64;
        for (ir, iw, scale) in terms {
            if ir.s == 0 {
                off = off.wrapping_add(sx(ir.lo, *iw).wrapping_mul(*scale) as u64);
            } else {
                let i = self.x.sext(ir.s, 64);
                let k = self.x.cst(*scale as u64 as u128, 64);
                let t = self.x.bin(expr::Op::Mul, i, k);
                e = self.x.bin(expr::Op::Add, e, t);
            }
        }
        let k = self.x.cst(off as u128, 64);
        self.x.bin(expr::Op::Add, e, k)
    }

    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, st: &mut State, i: Intr, base: usize, d: u32, dn: u32, w: u8, args: &[Op]) -> R<Flow> {
        let m = self.m.clone();
        let consts: &[Reg] = &m.consts;
        macro_rules! ga {
            ($k:expr) => {
                g!(st.regs, consts, base, args[$k])
            };
        }
        macro_rules! conc {
            ($k:expr, $max:expr) => {{
                let r = ga!($k);
                if r.s != 0 {
                    self.concretize(st, base + args[$k] as usize, $max)?;
                    return Ok(Flow::Jump);
                }
                r
            }};
        }
        macro_rules! set {
            ($r:expr) => {{
                let r = $r;
                st.regs[base + d as usize] = r;
            }};
        }
        let wu = w as u32;
        use Intr::*;
        match i {
            Nop => {}
            Memcpy => {
                let dp = conc!(0, 256);
                let sp = conc!(1, 256);
                let n = conc!(2, 256);
                if let Err(Stop::Error(s)) = st.mem.copy(dp.lo, sp.lo, n.lo) {
                    return err(format!("{} at {}", s, self.here(st)));
                }
            }
            Memset => {
                let dp = conc!(0, 256);
                let n = conc!(2, 256);
                let v = ga!(1);
                st.mem.set(dp.lo, v.lo as u8, v.s, n.lo)?;
            }
            Umax | Umin | Smax | Smin => {
                let (a, b) = (ga!(0), ga!(1));
                let (p, q) = (self.ex(a, wu), self.ex(b, wu));
                let c = match i {
                    Umax => self.x.cmp(expr::Op::Ult, q, p),
                    Umin => self.x.cmp(expr::Op::Ult, p, q),
                    Smax => self.x.cmp(expr::Op::Slt, q, p),
                    _ => self.x.cmp(expr::Op::Slt, p, q),
                };
                let e = self.x.ite(c, p, q);
                set!(self.mk(e));
            }
            UsubSat | UaddSat => {
                let (a, b) = (ga!(0), ga!(1));
                let (p, q) = (self.ex(a, wu), self.ex(b, wu));
                let e = if i == UsubSat {
                    let c = self.x.cmp(expr::Op::Ult, p, q);
                    let s = self.x.bin(expr::Op::Sub, p, q);
                    let z = self.x.cst(0, wu);
                    self.x.ite(c, z, s)
                } else {
                    let s = self.x.bin(expr::Op::Add, p, q);
                    let c = self.x.cmp(expr::Op::Ult, s, p);
                    let z = self.x.cst(u128::MAX, wu);
                    self.x.ite(c, z, s)
                };
                set!(self.mk(e));
            }
            UaddOv | UsubOv | UmulOv | SaddOv | SsubOv | SmulOv => {
                let (a, b) = (ga!(0), ga!(1));
                let (p, q) = (self.ex(a, wu), self.ex(b, wu));
                let op = match i {
                    UaddOv | SaddOv => expr::Op::Add,
                    UsubOv | SsubOv => expr::Op::Sub,
                    _ => expr::Op::Mul,
                };
                let r = self.x.bin(op, p, q);
                let o = match i {
                    UaddOv => self.x.cmp(expr::Op::Ult, r, p),
                    UsubOv => self.x.cmp(expr::Op::Ult, p, q),
                    _ => {
                        if wu > 64 {
                            if a.s | b.s != 0 {
                                return err("wide symbolic overflow intrinsic");
                            }
                            // concrete 128-bit
                            let (u, v) = (a.u128(), b.u128());
                            let ov = match i {
                                UmulOv => u.checked_mul(v).is_none() || (wu < 128 && u * v > expr::mask(wu)),
                                SaddOv => (sext(u, wu)).checked_add(sext(v, wu)).is_none(),
                                SsubOv => (sext(u, wu)).checked_sub(sext(v, wu)).is_none(),
                                _ => (sext(u, wu)).checked_mul(sext(v, wu)).is_none(),
                            };
                            self.x.cst(ov as u128, 1)
                        } else {
                            let ww = 2 * wu;
                            let sg = i != UmulOv;
                            let (pw, qw) = if sg { (self.x.sext(p, ww), self.x.sext(q, ww)) } else { (self.x.zext(p, ww), self.x.zext(q, ww)) };
                            let rw = self.x.bin(op, pw, qw);
                            let rx = if sg { self.x.sext(r, ww) } else { self.x.zext(r, ww) };
                            let e = self.x.eq(rw, rx);
                            self.x.not(e)
                        }
                    }
                };
                st.regs[base + d as usize] = self.mk(r);
                st.regs[base + d as usize + 1] = self.mk(o);
            }
            SsubSat | SaddSat => {
                let (a, b) = (conc!(0, 256), conc!(1, 256));
                let (u, v) = (sext(a.u128(), wu), sext(b.u128(), wu));
                let r = if i == SsubSat { u - v } else { u + v };
                let mx = (1i128 << (wu - 1)) - 1;
                let r = r.max(-mx - 1).min(mx);
                set!(Reg::wide(r as u128 & expr::mask(wu)));
            }
            Bswap => {
                let a = ga!(0);
                if a.s == 0 {
                    let n = wu / 8;
                    let mut r = 0u128;
                    for k in 0..n {
                        r = (r << 8) | ((a.u128() >> (8 * k)) & 255);
                    }
                    set!(Reg::wide(r));
                } else {
                    let n = wu / 8;
                    let mut e = self.x.extract(a.s, 0, 8);
                    for k in 1..n {
                        let b = self.x.extract(a.s, 8 * k, 8);
                        e = self.x.concat(e, b);
                    }
                    set!(self.mk(e));
                }
            }
            Bitreverse | Cttz | Ctlz | Ctpop | Abs => {
                let a = ga!(0);
                let f = move |v: u64| -> u64 {
                    match i {
                        Bitreverse => v.reverse_bits() >> (64 - wu),
                        Cttz => {
                            if v == 0 {
                                wu as u64
                            } else {
                                v.trailing_zeros() as u64
                            }
                        }
                        Ctlz => (v.leading_zeros() - (64 - wu)) as u64,
                        Ctpop => v.count_ones() as u64,
                        _ => (sx(v, w).wrapping_abs() as u64) & m64(w),
                    }
                };
                if wu > 64 {
                    return err("wide bit intrinsic");
                }
                if a.s == 0 {
                    set!(Reg::c(f(a.lo)));
                } else if let Some(e) = self.x.unary_fn(a.s, wu, f) {
                    set!(self.mk(e));
                } else if i == Cttz || i == Ctlz {
                    // chain of ites over bit positions
                    let mut e = self.x.cst(wu as u128, wu);
                    for k in 0..wu {
                        let pos = if i == Cttz { wu - 1 - k } else { k };
                        let bit = self.x.extract(a.s, pos, 1);
                        let v = if i == Cttz { pos } else { wu - 1 - pos };
                        let vc = self.x.cst(v as u128, wu);
                        e = self.x.ite(bit, vc, e);
                    }
                    set!(self.mk(e));
                } else if i == Ctpop {
                    let mut e = self.x.cst(0, wu);
                    for k in 0..wu {
                        let bit = self.x.extract(a.s, k, 1);
                        let z = self.x.zext(bit, wu);
                        e = self.x.bin(expr::Op::Add, e, z);
                    }
                    set!(self.mk(e));
                } else if i == Abs {
                    let z = self.x.cst(0, wu);
                    let c = self.x.cmp(expr::Op::Slt, a.s, z);
                    let n = self.x.bin(expr::Op::Sub, z, a.s);
                    let e = self.x.ite(c, n, a.s);
                    set!(self.mk(e));
                } else {
                    conc!(0, 256);
                }
            }
            Fshl | Fshr => {
                let (a, b) = (ga!(0), ga!(1));
                let k = conc!(2, 64);
                let k = (k.lo % wu as u64) as u32;
                let (p, q) = (self.ex(a, wu), self.ex(b, wu));
                let e = if k == 0 {
                    if i == Fshl {
                        p
                    } else {
                        q
                    }
                } else {
                    let l = if i == Fshl { k } else { wu - k };
                    // (p << l) | (q >> (w-l))
                    let hi = self.x.extract(p, 0, wu - l);
                    let lo = self.x.extract(q, wu - l, l);
                    self.x.concat(hi, lo)
                };
                set!(self.mk(e));
            }
            Ucmp | Scmp => {
                let (a, b) = (ga!(0), ga!(1));
                let (p, q) = (self.ex(a, wu), self.ex(b, wu));
                let op = if i == Ucmp { expr::Op::Ult } else { expr::Op::Slt };
                let lt = self.x.cmp(op, p, q);
                let gt = self.x.cmp(op, q, p);
                // result type is i8 in practice
                let (mm, z, o) = (self.x.cst(u128::MAX, 8), self.x.cst(0, 8), self.x.cst(1, 8));
                let t = self.x.ite(gt, o, z);
                let e = self.x.ite(lt, mm, t);
                set!(self.mk(e));
            }
            Expect | CopyArg0 => {
                for k in 0..dn as usize {
                    st.regs[base + d as usize + k] = ga!(k);
                }
            }
            IsConstant => set!(Reg::c(0)),
            ThreadLocal => set!(ga!(0)),
            LoadRelative => {
                let a = conc!(0, 64);
                let o = conc!(1, 64);
                let r = self.load(st, a.lo.wrapping_add(o.lo), 32)?;
                set!(Reg::c(a.lo.wrapping_add(sx(r.lo, 32) as u64)));
            }
            Trap => return Err(Stop::Panic("trap".into())),
            FAbs | Floor | Ceil | Round | TruncF | MaxNum | MinNum => {
                let a = conc!(0, 256);
                let b = if args.len() > 1 { conc!(1, 256) } else { Reg::default() };
                let f = |x: f64, y: f64| match i {
                    FAbs => x.abs(),
                    Floor => x.floor(),
                    Ceil => x.ceil(),
                    Round => x.round(),
                    TruncF => x.trunc(),
                    MaxNum => x.max(y),
                    _ => x.min(y),
                };
                if w == 64 {
                    set!(Reg::c(f(f64::from_bits(a.lo), f64::from_bits(b.lo)).to_bits()));
                } else {
                    set!(Reg::c((f(f32::from_bits(a.lo as u32) as f64, f32::from_bits(b.lo as u32) as f64) as f32).to_bits() as u64));
                }
            }
            FptoSiSat | FptoUiSat => {
                let a = conc!(0, 256);
                let rw = ga!(1).lo as u32;
                let v = if w == 64 { f64::from_bits(a.lo) } else { f32::from_bits(a.lo as u32) as f64 };
                let r = if i == FptoSiSat {
                    let mx = (1i128 << (rw - 1)) - 1;
                    ((v as i128).max(-mx - 1).min(mx)) as u128
                } else {
                    (v as u128).min(expr::mask(rw))
                };
                set!(Reg::wide(r & expr::mask(rw)));
            }
            VecReduceAdd | VecReduceOr | VecReduceAnd => {
                let mut e = {
                    let r = ga!(0);
                    self.ex(r, wu)
                };
                for k in 1..args.len() {
                    let r = ga!(k);
                    let q = self.ex(r, wu);
                    e = self.x.bin(
                        match i {
                            VecReduceAdd => expr::Op::Add,
                            VecReduceOr => expr::Op::Or,
                            _ => expr::Op::And,
                        },
                        e,
                        q,
                    );
                }
                set!(self.mk(e));
            }
            Unsupported => return err(format!("unsupported intrinsic at {}", self.here(st))),
        }
        Ok(Flow::Next)
    }

    fn external(&mut self, st: &mut State, e: Ext, nm: u32, base: usize, d: u32, args: &[Op]) -> R<Flow> {
        let m = self.m.clone();
        let consts: &[Reg] = &m.consts;
        macro_rules! ga {
            ($k:expr) => {
                g!(st.regs, consts, base, args[$k])
            };
        }
        macro_rules! conc {
            ($k:expr, $max:expr) => {{
                let r = ga!($k);
                if r.s != 0 {
                    self.concretize(st, base + args[$k] as usize, $max)?;
                    return Ok(Flow::Jump);
                }
                r
            }};
        }
        macro_rules! set {
            ($r:expr) => {{
                let r = $r;
                st.regs[base + d as usize] = r;
            }};
        }
        use Ext::*;
        match e {
            SymBytes => {
                let p = conc!(0, 4).lo;
                let n = conc!(1, 4).lo;
                for i in 0..n {
                    let v = self.x.var(st.nsym);
                    st.nsym += 1;
                    if st.nsym > 62 {
                        return err("too many symbolic bytes");
                    }
                    st.pc.model.resize(st.nsym as usize, 0);
                    st.mem.set_byte(p + i, 0, v)?;
                }
            }
            SymAssume => {
                let c = ga!(0);
                if c.s == 0 {
                    if c.lo & 1 == 0 {
                        return Err(Stop::Infeasible);
                    }
                } else {
                    self.assume_queries += 1;
                    let c1 = if self.x.w(c.s) == 1 { c.s } else { self.x.extract(c.s, 0, 1) };
                    if !self.constrain(st, c1)? {
                        return Err(Stop::Infeasible);
                    }
                }
            }
            SymAssert => {
                let c = ga!(0);
                let id = conc!(1, 4).lo as u32;
                if c.s == 0 {
                    self.assert_concrete += 1;
                    // all branch conditions of this path are solver-decided; the
                    // assertion folded to a constant on it
                    if c.lo & 1 == 0 {
                        return Err(Stop::Assert(id));
                    }
                } else {
                    self.assert_queries += 1;
                    let c1 = if self.x.w(c.s) == 1 { c.s } else { self.x.extract(c.s, 0, 1) };
                    let nc = self.x.not(c1);
                    let (r, _) = self.solver.check(&mut self.x, &st.pc, nc);
                    match r {
                        None => return err("solver returned unknown"),
                        Some(true) => {
                            self.constrain(st, nc)?;
                            return Err(Stop::Assert(id));
                        }
                        Some(false) => {
                            self.solver.add(&mut self.x, &mut st.pc, c1);
                        }
                    }
                }
            }
            SymChoice => {
                let n = conc!(0, 4).lo as u32;
                if n == 0 || n > 256 {
                    return err("sym_choice range");
                }
                // one input byte records the choice, so that replay sees it
                let slot = base + d as usize;
                let vi = st.nsym;
                let v = self.x.var(vi);
                st.nsym += 1;
                if st.nsym > 62 {
                    return err("too many symbolic bytes");
                }
                st.pc.model.resize(st.nsym as usize, 0);
                st.frames.last_mut().unwrap().pc += 1;
                let mut alts: Vec<(E, Box<dyn Fn(&Vm, &mut State)>)> = vec![];
                for i in 0..n {
                    let k = self.x.cst(i as u128, 8);
                    let q = self.x.eq(v, k);
                    alts.push((q, Box::new(move |_: &Vm, s: &mut State| s.regs[slot] = Reg::c(i as u64))));
                }
                self.fork(st, alts)?;
                return Ok(Flow::Jump);
            }
            SymConcretize => {
                let r = conc!(0, 256);
                set!(r);
            }
            SymObs => {
                let r = ga!(0);
                st.obs.push((r.lo, r.s));
            }
            SymReach => {
                let id = conc!(0, 4).lo;
                st.reach |= 1 << (id & 63);
            }
            Malloc => {
                let n = conc!(0, 64).lo;
                set!(Reg::c(st.mem.malloc(n, 16)?));
            }
            Calloc => {
                let n = conc!(0, 64).lo * conc!(1, 64).lo;
                let a = st.mem.malloc(n, 16)?;
                st.mem.set(a, 0, 0, n)?;
                set!(Reg::c(a));
            }
            Realloc => {
                let p = conc!(0, 64).lo;
                let n = conc!(1, 64).lo;
                if p == 0 {
                    set!(Reg::c(st.mem.malloc(n, 16)?));
                } else {
                    let old = st.mem.msize(p);
                    let a = st.mem.malloc(n, 16)?;
                    st.mem.copy(a, p, old.min(n))?;
                    st.mem.mfree(p);
                    set!(Reg::c(a));
                }
            }
            Free => {
                let p = conc!(0, 64).lo;
                st.mem.mfree(p);
            }
            PosixMemalign => {
                let p = conc!(0, 64).lo;
                let al = conc!(1, 64).lo;
                let n = conc!(2, 64).lo;
                let a = st.mem.malloc(n, al)?;
                st.mem.fast_write(p, 8, a);
                set!(Reg::c(0));
            }
            AlignedAlloc => {
                let al = conc!(0, 64).lo;
                let n = conc!(1, 64).lo;
                set!(Reg::c(st.mem.malloc(n, al)?));
            }
            Bcmp | Memcmp => {
                let p = conc!(0, 64).lo;
                let q = conc!(1, 64).lo;
                let n = conc!(2, 64).lo;
                // build the result from the last byte backwards
                let mut pairs = vec![];
                let mut anys = false;
                for i in 0..n {
                    let a = st.mem.byte(p + i)?;
                    let b = st.mem.byte(q + i)?;
                    if a.1 == 0 && b.1 == 0 {
                        if a.0 != b.0 {
                            pairs.push((a, b));
                            break;
                        }
                        continue;
                    }
                    if a.1 == b.1 {
                        continue;
                    }
                    anys = true;
                    pairs.push((a, b));
                }
                if !anys {
                    let r = match pairs.first() {
                        None => 0i32,
                        Some((a, b)) => {
                            if a.0 < b.0 {
                                -1
                            } else {
                                1
                            }
                        }
                    };
                    set!(Reg::c(r as u32 as u64));
                } else if e == Bcmp {
                    let mut c = self.x.tru();
                    for (a, b) in pairs {
                        let x = if a.1 != 0 { a.1 } else { self.x.cst(a.0 as u128, 8) };
                        let y = if b.1 != 0 { b.1 } else { self.x.cst(b.0 as u128, 8) };
                        let q = self.x.eq(x, y);
                        // prune by feasibility of each byte equality
                        let (r, _) = self.solver.check(&mut self.x, &st.pc, q);
                        if r == Some(false) {
                            c = self.x.fls();
                            break;
                        }
                        c = self.x.and(c, q);
                    }
                    let (z, o) = (self.x.cst(0, 32), self.x.cst(1, 32));
                    let r = self.x.ite(c, z, o);
                    set!(self.mk(r));
                } else {
                    let mut r = self.x.cst(0, 32);
                    for (a, b) in pairs.into_iter().rev() {
                        let x = if a.1 != 0 { a.1 } else { self.x.cst(a.0 as u128, 8) };
                        let y = if b.1 != 0 { b.1 } else { self.x.cst(b.0 as u128, 8) };
                        let lt = self.x.cmp(expr::Op::Ult, x, y);
                        let eq = self.x.eq(x, y);
                        let (mn, o) = (self.x.cst(u128::MAX, 32), self.x.cst(1, 32));
                        let t = self.x.ite(lt, mn, o);
                        r = self.x.ite(eq, r, t);
                    }
                    set!(self.mk(r));
                }
            }
            MemchrFn | MemrchrFn => {
                // naive byte search: builds the result by forking per byte
                let p = conc!(0, 64).lo;
                let needle = ga!(1);
                if needle.s != 0 {
                    // symbolic needle in a concrete haystack: one table term
                    let n = conc!(2, 64).lo;
                    if let (Vars::One(v), Some(t)) = (self.x.vars[needle.s as usize], self.x.tab[needle.s as usize].clone()) {
                        let mut hay = vec![];
                        for i in 0..n {
                            let b = st.mem.byte(p + i)?;
                            if b.1 != 0 {
                                break;
                            }
                            hay.push(b.0);
                        }
                        if hay.len() as u64 == n {
                            let mut o = [0u64; 256];
                            for i in 0..256 {
                                let c = t[i] as u8;
                                let at = if e == MemchrFn { hay.iter().position(|&h| h == c) } else { hay.iter().rposition(|&h| h == c) };
                                o[i] = at.map_or(0, |k| p + k as u64);
                            }
                            let r = self.x.from_table(v as u32, 64, o);
                            set!(self.mk(r));
                            return Ok(Flow::Next);
                        }
                    }
                }
                let c = conc!(1, 64).lo as u8;
                let n = conc!(2, 64).lo;
                let idx: Vec<u64> = if e == MemchrFn { (0..n).collect() } else { (0..n).rev().collect() };
                let mut none = self.x.tru();
                let mut alts: Vec<(E, u64)> = vec![];
                for i in idx {
                    let b = st.mem.byte(p + i)?;
                    let q = if b.1 == 0 {
                        self.x.cst((b.0 == c) as u128, 1)
                    } else {
                        let k = self.x.cst(c as u128, 8);
                        self.x.eq(b.1, k)
                    };
                    let here = self.x.and(none, q);
                    if self.x.is_const(here) != Some(0) {
                        let (r, _) = self.solver.check(&mut self.x, &st.pc, here);
                        if r == Some(true) {
                            alts.push((here, p + i));
                        }
                    }
                    let nq = self.x.not(q);
                    none = self.x.and(none, nq);
                    if self.x.is_const(none) == Some(0) {
                        break;
                    }
                }
                if self.x.is_const(none) != Some(0) {
                    let (r, _) = self.solver.check(&mut self.x, &st.pc, none);
                    if r == Some(true) {
                        alts.push((none, 0));
                    }
                }
                let slot = base + d as usize;
                st.frames.last_mut().unwrap().pc += 1;
                let alts: Vec<(E, Box<dyn Fn(&Vm, &mut State)>)> = alts.into_iter().map(|(c, v)| (c, Box::new(move |_: &Vm, s: &mut State| s.regs[slot] = Reg::c(v)) as Box<dyn Fn(&Vm, &mut State)>)).collect();
                self.fork(st, alts)?;
                return Ok(Flow::Jump);
            }
            Strlen => {
                let p = conc!(0, 64).lo;
                let mut n = 0;
                loop {
                    let b = st.mem.byte(p + n)?;
                    if b.1 != 0 {
                        return err("symbolic strlen");
                    }
                    if b.0 == 0 {
                        break;
                    }
                    n += 1;
                }
                set!(Reg::c(n));
            }
            MemcpyFn => {
                let dp = conc!(0, 64);
                let sp = conc!(1, 64);
                let n = conc!(2, 64);
                st.mem.copy(dp.lo, sp.lo, n.lo)?;
                set!(dp);
            }
            Abort => return Err(Stop::Panic("abort".into())),
            Panic => return Err(Stop::Panic(self.here(st))),
            Getrandom => {
                let p = conc!(0, 64).lo;
                let n = conc!(1, 64).lo;
                st.mem.set(p, 0x5a, 0, n)?;
                set!(Reg::c(n));
            }
            SipWrite => {
                // SipHasher::write(self, bytes, len): with symbolic bytes the
                // hash is left unchanged (any hash function is admissible);
                // with concrete bytes mix them in cheaply
                let p = conc!(0, 64).lo;
                let b = conc!(1, 64).lo;
                let n = conc!(2, 64).lo;
                let _ = (p, b, n);
                st.sip = true;
            }
            RetZero => set!(Reg::c(0)),
            Sysconf => set!(Reg::c(u64::MAX)),
            Getenv => {
                // the modelled environment: HOME=/home/user, nothing else
                let p = conc!(0, 64).lo;
                let mut name = vec![];
                loop {
                    let b = st.mem.byte(p + name.len() as u64)?;
                    if b.1 != 0 {
                        return err("getenv of a symbolic name");
                    }
                    if b.0 == 0 {
                        break;
                    }
                    name.push(b.0);
                }
                if name == b"HOME" {
                    let v = b"/home/user\0";
                    let a = st.mem.malloc(v.len() as u64, 16)?;
                    for (i, c) in v.iter().enumerate() {
                        st.mem.fast_write(a + i as u64, 1, *c as u64);
                    }
                    set!(Reg::c(a));
                } else {
                    set!(Reg::c(0));
                }
            }
            RetMinus1 => set!(Reg::c(u64::MAX)),
            Write => {
                let n = ga!(2);
                set!(n);
            }
            Unsupported => {
                let n = if nm > u32::MAX / 2 { self.m.funcs[(u32::MAX - nm) as usize].name.clone() } else { self.m.ext_names[nm as usize].clone() };
                return err(format!("external function {} at {}", n, self.here(st)));
            }
        }
        Ok(Flow::Next)
    }

    pub fn assume_model(&self, st: &State) -> Vec<u8> {
        let mut v = st.pc.model.clone();
        v.resize(st.nsym as usize, 0);
        v
    }
}

/// SYMEX_MULTI=1 prints every branch condition over more than one input byte.
fn show_multi() -> bool {
    static M: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *M.get_or_init(|| std::env::var("SYMEX_MULTI").is_ok())
}
