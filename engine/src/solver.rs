//! Z3 (libz3, QF_BV) as the decision procedure.  Every branch feasibility,
//! every pointer/length enumeration and every assertion is decided here;
//! identical queries are answered from a cache of Z3 verdicts.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::{Arc, Mutex};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}
extern "C" fn on_err(_c: P, _e: c_int) {}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];

/// path constraint store
#[derive(Clone, Default)]
pub struct Pc {
    /// per input byte: interned domain id (0 = unconstrained)
    pub dom: Vec<u32>,
    /// constraints over several bytes
    pub multi: Vec<E>,
    /// constraints over several bytes, union-find-free: var masks
    pub model: Vec<u8>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub unary_queries: u64,
    pub multi_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_ns: u64,
    pub max_ns: u64,
}

/// verdicts of one-byte queries (domain of the byte, truth set of the
/// condition), shared by all workers; every entry is a Z3 verdict
pub type Shared = Arc<Vec<Mutex<HashMap<(Dom, Dom), (bool, u8)>>>>;
pub fn new_shared() -> Shared {
    Arc::new((0..64).map(|_| Mutex::new(HashMap::new())).collect())
}

pub struct Solver {
    shared: Shared,
    c: P,
    s: P,
    asts: Vec<P>,
    bsort: P,
    pub stats: Stats,
    doms: Vec<Dom>,
    dommap: HashMap<Dom, u32>,
    domast: Vec<HashMap<u32, P>>,
    cache: HashMap<(Vec<(u16, u32)>, Vec<E>, E), (Option<bool>, Vec<(u16, u8)>)>,
    pub disagreements: Vec<String>,
    inc: bool,
}

fn popc(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}

impl Solver {
    pub fn new(timeout_ms: u32, shared: Shared) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let bsort = Z3_mk_bool_sort(c);
            Z3_inc_ref(c, bsort);
            Solver {
                shared,
                c,
                s,
                asts: vec![],
                bsort,
                stats: Stats::default(),
                doms: vec![FULL],
                dommap: [(FULL, 0)].into_iter().collect(),
                domast: vec![HashMap::new()],
                cache: HashMap::new(),
                disagreements: vec![],
                inc: false,
            }
        }
    }
    fn bv(&self, n: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, n) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if v <= u64::MAX as u128 && w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.bv(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.bv(w))
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe {
            Z3_inc_ref(self.c, a);
        }
        a
    }
    /// Z3 term for e; width-1 terms are Bool
    fn ast(&mut self, x: &Exprs, e: E) -> P {
        if (e as usize) < self.asts.len() && !self.asts[e as usize].is_null() {
            return self.asts[e as usize];
        }
        let n = x.nodes[e as usize];
        let w = n.w as u32;
        let c = self.c;
        let ch = |s: &mut Self, i: E| s.ast(x, i);
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if w == 1 {
                        if n.val == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.val, w)
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("b{}", n.val)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.bv(8))
                }
                Op::Not => {
                    let a = ch(self, n.a);
                    if w == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_bvnot(c, a)
                    }
                }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let a = ch(self, n.a);
                    let b = ch(self, n.b);
                    let v = [a, b];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Eq => {
                    let a = ch(self, n.a);
                    let b = ch(self, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ite => {
                    let a = ch(self, n.a);
                    let b = ch(self, n.b);
                    let d = ch(self, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Table => {
                    let t = x.tables[n.val as usize].clone();
                    let a = ch(self, n.a);
                    // group indices by value; the most frequent value is the default
                    let mut g: HashMap<u64, Vec<u64>> = HashMap::new();
                    for i in 0..256u64 {
                        g.entry(t[i as usize]).or_default().push(i);
                    }
                    let mut gs: Vec<_> = g.into_iter().collect();
                    gs.sort_by_key(|x| (std::cmp::Reverse(x.1.len()), x.0));
                    let mk = |s: &Self, v: u64| {
                        if w == 1 {
                            if v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else {
                            s.num(v as u128, w)
                        }
                    };
                    let mut r = self.keep(mk(self, gs[0].0));
                    for (v, idx) in &gs[1..] {
                        let mut ors = vec![];
                        for i in idx {
                            ors.push(self.keep(Z3_mk_eq(c, a, self.keep(self.num(*i as u128, 8)))));
                        }
                        let cond = self.keep(Z3_mk_or(c, ors.len() as u32, ors.as_ptr()));
                        r = self.keep(Z3_mk_ite(c, cond, self.keep(mk(self, *v)), r));
                    }
                    r
                }
                _ => {
                    let a = ch(self, n.a);
                    let a = self.tobv(x, n.a, a);
                    let b = if n.b != 0 {
                        let b = ch(self, n.b);
                        self.tobv(x, n.b, b)
                    } else {
                        std::ptr::null_mut()
                    };
                    let aw = x.w(n.a);
                    let r = match n.op {
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Extract => Z3_mk_extract(c, n.val as u32 + w - 1, n.val as u32, a),
                        Op::ZExt => Z3_mk_zero_ext(c, w - aw, a),
                        Op::SExt => Z3_mk_sign_ext(c, w - aw, a),
                        _ => unreachable!(),
                    };
                    // width-1 bit-vector results become Bool
                    if w == 1 && matches!(n.op, Op::Extract | Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                        let r = self.keep(r);
                        Z3_mk_eq(c, r, self.keep(Z3_mk_unsigned_int64(c, 1, self.bv(1))))
                    } else {
                        r
                    }
                }
            }
        };
        assert!(!r.is_null(), "z3 term {:?} err {}", n, unsafe { Z3_get_error_code(self.c) });
        let r = self.keep(r);
        if self.asts.len() <= e as usize {
            self.asts.resize(e as usize + 1024, std::ptr::null_mut());
        }
        self.asts[e as usize] = r;
        r
    }
    fn tobv(&mut self, x: &Exprs, e: E, a: P) -> P {
        if x.w(e) == 1 {
            unsafe {
                let one = self.keep(Z3_mk_unsigned_int64(self.c, 1, self.bv(1)));
                let z = self.keep(Z3_mk_unsigned_int64(self.c, 0, self.bv(1)));
                self.keep(Z3_mk_ite(self.c, a, one, z))
            }
        } else {
            a
        }
    }
    fn domid(&mut self, d: Dom) -> u32 {
        if let Some(&i) = self.dommap.get(&d) {
            return i;
        }
        let i = self.doms.len() as u32;
        self.doms.push(d);
        self.domast.push(HashMap::new());
        self.dommap.insert(d, i);
        i
    }
    /// "byte v is in domain d" as a union of intervals
    fn dom_ast(&mut self, x: &mut Exprs, v: u16, d: u32) -> P {
        if let Some(p) = self.domast[d as usize].get(&(v as u32)) {
            return *p;
        }
        let ve = x.var(v as u32);
        let va = self.ast(x, ve);
        let dom = self.doms[d as usize];
        let has = |i: usize| dom[i / 64] >> (i % 64) & 1 == 1;
        let mut parts = vec![];
        let mut i = 0;
        unsafe {
            while i < 256 {
                if has(i) {
                    let mut j = i;
                    while j + 1 < 256 && has(j + 1) {
                        j += 1
                    }
                    if i == j {
                        parts.push(self.keep(Z3_mk_eq(self.c, va, self.keep(self.num(i as u128, 8)))));
                    } else {
                        let a = self.keep(Z3_mk_bvule(self.c, self.keep(self.num(i as u128, 8)), va));
                        let b = self.keep(Z3_mk_bvule(self.c, va, self.keep(self.num(j as u128, 8))));
                        let v = [a, b];
                        parts.push(self.keep(Z3_mk_and(self.c, 2, v.as_ptr())));
                    }
                    i = j + 1;
                } else {
                    i += 1
                }
            }
            let r = if parts.is_empty() {
                Z3_mk_false(self.c)
            } else if parts.len() == 1 {
                parts[0]
            } else { Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()) };
            let r = self.keep(r);
            self.domast[d as usize].insert(v as u32, r);
            r
        }
    }

    fn truth(x: &Exprs, e: E) -> Option<(u16, Dom)> {
        if let (Vars::One(v), Some(t)) = (x.vars[e as usize], &x.tab[e as usize]) {
            let mut d = [0u64; 4];
            for i in 0..256 {
                if t[i] != 0 {
                    d[i / 64] |= 1 << (i % 64)
                }
            }
            Some((v, d))
        } else {
            None
        }
    }

    /// add a constraint known to be consistent with pc
    pub fn add(&mut self, x: &mut Exprs, pc: &mut Pc, c: E) {
        if x.is_const(c).is_some() {
            return;
        }
        let n = x.nodes[c as usize];
        if x.vars[c as usize] == Vars::Many && n.w == 1 {
            if n.op == Op::And {
                self.add(x, pc, n.a);
                self.add(x, pc, n.b);
                return;
            }
            if n.op == Op::Not {
                let k = x.nodes[n.a as usize];
                if k.op == Op::Or && k.w == 1 {
                    let p = x.not(k.a);
                    let q = x.not(k.b);
                    self.add(x, pc, p);
                    self.add(x, pc, q);
                    return;
                }
            }
        }
        if let Some((v, d)) = Self::truth(x, c) {
            let v = v as usize;
            if pc.dom.len() <= v {
                pc.dom.resize(v + 1, 0);
            }
            let old = self.doms[pc.dom[v] as usize];
            let nd = [old[0] & d[0], old[1] & d[1], old[2] & d[2], old[3] & d[3]];
            pc.dom[v] = self.domid(nd);
        } else if !pc.multi.contains(&c) {
            pc.multi.push(c);
        }
    }
    pub fn ensure_model_len(&self, pc: &mut Pc, n: usize) {
        if pc.model.len() < n {
            pc.model.resize(n, 0);
        }
    }

    /// is pc ∧ c satisfiable?  Some(true)+witness bytes / Some(false) / None
    pub fn check(&mut self, x: &mut Exprs, pc: &Pc, c: E) -> (Option<bool>, Vec<(u16, u8)>) {
        if let Some(v) = x.is_const(c) {
            return (Some(v != 0), vec![]);
        }
        if let (Vars::One(v), true) = (x.vars[c as usize], pc.multi.is_empty() || pc.multi.iter().all(|&m| x.vset[m as usize] & x.vset[c as usize] == 0)) {
            if let (Some((_, d)), true) = (Self::truth(x, c), v < 63) {
                return self.check_unary(x, pc, v, d);
            }
        }
        // relevant cluster
        let mut vs = x.vset[c as usize];
        let mut used: Vec<E> = vec![];
        if !pc.multi.is_empty() {
            loop {
                let mut ch = false;
                for &m in &pc.multi {
                    if x.vset[m as usize] & vs != 0 && !used.contains(&m) {
                        used.push(m);
                        vs |= x.vset[m as usize];
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
            used.sort();
        }
        let mut ds: Vec<(u16, u32)> = vec![];
        for v in 0..64u32 {
            if vs >> v & 1 == 1 {
                let hi = if v == 63 { pc.dom.len().max(64) } else { v as usize + 1 };
                for k in v as usize..hi {
                    let d = pc.dom.get(k).copied().unwrap_or(0);
                    if d != 0 {
                        ds.push((k as u16, d));
                    }
                }
            }
        }
        let key = (ds, used, c);
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let unary = key.1.is_empty() && x.vars[c as usize] != Vars::Many;
        if unary {
            self.stats.unary_queries += 1
        } else {
            self.stats.multi_queries += 1
        }
        let mut asserts = vec![];
        for &(v, d) in &key.0 {
            asserts.push(self.dom_ast(x, v, d));
        }
        for &m in &key.1 {
            asserts.push(self.ast(x, m));
        }
        asserts.push(self.ast(x, c));
        let t0 = Instant::now();
        let (res, wit) = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asserts {
                Z3_solver_assert(self.c, self.s, *a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let mut wit = vec![];
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for v in 0..63u32 {
                    if vs >> v & 1 == 1 {
                        let ve = x.var(v);
                        let a = self.ast(x, ve);
                        let mut out = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut out) {
                            Z3_inc_ref(self.c, out);
                            let mut u = 0u64;
                            if Z3_get_numeral_uint64(self.c, out, &mut u) {
                                wit.push((v as u16, u as u8));
                            }
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            let r = match r {
                1 => Some(true),
                -1 => Some(false),
                _ => None,
            };
            (r, wit)
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.solver_ns += dt;
        self.stats.max_ns = self.stats.max_ns.max(dt);
        match res {
            Some(true) => self.stats.sat += 1,
            Some(false) => self.stats.unsat += 1,
            None => self.stats.unknown += 1,
        }
        // self-check of the one-byte tables against Z3's verdict
        if unary {
            if let Some((v, d)) = Self::truth(x, c) {
                let od = self.doms[pc.dom.get(v as usize).copied().unwrap_or(0) as usize];
                let nd = [od[0] & d[0], od[1] & d[1], od[2] & d[2], od[3] & d[3]];
                if res.is_some() && res != Some(popc(&nd) > 0) {
                    self.disagreements.push(format!("byte {} verdict {:?} table {:?}", v, res, nd));
                }
            }
        }
        if res == Some(true) {
            // the witness must satisfy the query under the evaluator
            let mut model = pc.model.clone();
            for &(v, b) in &wit {
                if model.len() <= v as usize {
                    model.resize(v as usize + 1, 0);
                }
                model[v as usize] = b;
            }
            let mut memo = HashMap::new();
            let mut ok = x.eval(c, &model, &mut memo) != 0;
            for &m in &key.1 {
                ok &= x.eval(m, &model, &mut memo) != 0;
            }
            if !ok {
                self.disagreements.push(format!("witness does not satisfy term {}", c));
            }
        }
        let r = (res, wit);
        self.cache.insert(key, r.clone());
        r
    }
    /// one-byte query: is there a value of byte v in its current domain for
    /// which the condition (given by its truth set d) holds?
    fn check_unary(&mut self, x: &mut Exprs, pc: &Pc, v: u16, d: Dom) -> (Option<bool>, Vec<(u16, u8)>) {
        let di = pc.dom.get(v as usize).copied().unwrap_or(0);
        let od = self.doms[di as usize];
        let key = (od, d);
        let sh = (od[0] ^ od[1].rotate_left(7) ^ od[2].rotate_left(13) ^ od[3].rotate_left(29) ^ d[0].rotate_left(5) ^ d[1].rotate_left(31) ^ d[2] ^ d[3]).wrapping_mul(0x9E3779B97F4A7C15) >> 58;
        if let Some(&(r, w)) = self.shared[sh as usize].lock().unwrap().get(&key) {
            self.stats.cache_hits += 1;
            return (Some(r), if r { vec![(v, w)] } else { vec![] });
        }
        self.stats.unary_queries += 1;
        let ti = self.domid(d);
        // the byte's name does not matter: variable 0 stands for it
        let a = self.dom_ast(x, 0, di);
        let b = self.dom_ast(x, 0, ti);
        let ve = x.var(0);
        let va = self.ast(x, ve);
        let t0 = Instant::now();
        let mut wit = 0u64;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            Z3_solver_assert(self.c, self.s, b);
            let r = Z3_solver_check(self.c, self.s);
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, va, true, &mut out) {
                    Z3_inc_ref(self.c, out);
                    Z3_get_numeral_uint64(self.c, out, &mut wit);
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.solver_ns += dt;
        self.stats.max_ns = self.stats.max_ns.max(dt);
        let nd = [od[0] & d[0], od[1] & d[1], od[2] & d[2], od[3] & d[3]];
        match r {
            1 => {
                self.stats.sat += 1;
                let w = wit as usize & 255;
                if nd[w / 64] >> (w % 64) & 1 == 0 {
                    self.disagreements.push(format!("witness {} outside {:?}", w, nd));
                }
                self.shared[sh as usize].lock().unwrap().insert(key, (true, wit as u8));
                (Some(true), vec![(v, wit as u8)])
            }
            -1 => {
                self.stats.unsat += 1;
                if popc(&nd) > 0 {
                    self.disagreements.push(format!("unsat but {:?}", nd));
                }
                self.shared[sh as usize].lock().unwrap().insert(key, (false, 0));
                (Some(false), vec![])
            }
            _ => {
                self.stats.unknown += 1;
                (None, vec![])
            }
        }
    }
    pub fn dom_of(&self, pc: &Pc, v: usize) -> Dom {
        self.doms[pc.dom.get(v).copied().unwrap_or(0) as usize]
    }
    /// does the whole path condition hold under its model?
    pub fn model_ok(&self, x: &Exprs, pc: &Pc) -> bool {
        for (v, d) in pc.dom.iter().enumerate() {
            let b = pc.model.get(v).copied().unwrap_or(0) as usize;
            if self.doms[*d as usize][b / 64] >> (b % 64) & 1 == 0 {
                return false;
            }
        }
        let mut memo = HashMap::new();
        pc.multi.iter().all(|m| x.eval(*m, &pc.model, &mut memo) != 0)
    }
    pub fn touch(&mut self) {
        self.inc = !self.inc;
        let _ = self.bsort;
    }
}
