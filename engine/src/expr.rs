//! Hash-consed bit-vector terms over 8-bit symbolic input bytes.
//!
//! Terms over exactly one input byte additionally carry their value table
//! (256 entries): it is used to give semantically equal one-byte terms one
//! canonical node (as a BDD package would), never to decide a branch.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // 0 = "no expression"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat, // a = high, b = low
    Extract, // lo in val
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Table, // one-variable table: a = var expr, val = table index
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub val: u128,
}

pub type Tab = Rc<[u64; 256]>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vars {
    None,
    One(u16),
    Many,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<Vars>,
    pub vset: Vec<u64>, // bitmask of vars (first 64 input bytes)
    pub tab: Vec<Option<Tab>>,
    tabmap: HashMap<(u16, u16, Tab), E>,
    pub tables: Vec<Tab>,
    /// value of every term under four fixed input assignments: an ordering
    /// and identity key that does not depend on term numbering
    pub fp: Vec<[u128; 4]>,
}

fn fixed(m: usize, v: u64) -> u8 {
    let mut h = (v + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ (m as u64 + 1).wrapping_mul(0xD6E8FEB86659FD93);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    (h >> 40) as u8
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn eval_op(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128, val: u128, bw: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Not => !a & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let k = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> k) as u128) & m
        }
        Op::Concat => ((a << bw) | b) & m,
        Op::Extract => (a >> val) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Const => val,
        Op::Var | Op::Table => unreachable!(),
    }
}

impl Exprs {
    pub fn new() -> Exprs {
        let mut x = Exprs { nodes: vec![], map: HashMap::new(), vars: vec![], vset: vec![], tab: vec![], tabmap: HashMap::new(), tables: vec![], fp: vec![[u128::MAX; 4]] };
        // id 0 is reserved
        x.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, val: u128::MAX });
        x.vars.push(Vars::None);
        x.vset.push(0);
        x.tab.push(None);
        x
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.val)
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        // variable set
        let (mut vs, mut vars) = (0u64, Vars::None);
        if n.op == Op::Var {
            let i = n.val as u16;
            vs = 1u64 << (i as u32).min(63);
            vars = Vars::One(i);
        } else {
            for ch in [n.a, n.b, n.c] {
                if ch != 0 {
                    vs |= self.vset[ch as usize];
                    vars = match (vars, self.vars[ch as usize]) {
                        (Vars::None, x) => x,
                        (x, Vars::None) => x,
                        (Vars::One(p), Vars::One(q)) if p == q => Vars::One(p),
                        _ => Vars::Many,
                    };
                }
            }
        }
        let mut tab: Option<Tab> = None;
        if let Vars::One(v) = vars {
            if n.w <= 64 && n.op != Op::Var {
                let mut t = [0u64; 256];
                let mut ok = true;
                if n.op == Op::Table {
                    let src = self.tables[n.val as usize].clone();
                    let it = self.tab[n.a as usize].clone();
                    match it {
                        Some(it) => {
                            for i in 0..256 {
                                t[i] = src[it[i] as usize & 255];
                            }
                        }
                        None => ok = false,
                    }
                } else {
                    let g = |e: E| -> Option<(Option<Tab>, u128)> {
                        if e == 0 {
                            return Some((None, 0));
                        }
                        let k = &self.nodes[e as usize];
                        if k.op == Op::Const {
                            return Some((None, k.val));
                        }
                        self.tab[e as usize].clone().map(|t| (Some(t), 0))
                    };
                    match (g(n.a), g(n.b), g(n.c)) {
                        (Some(a), Some(b), Some(c)) => {
                            let aw = self.w(n.a);
                            let bw = if n.b != 0 { self.w(n.b) } else { 0 };
                            for i in 0..256 {
                                let f = |x: &(Option<Tab>, u128)| match &x.0 {
                                    Some(t) => t[i] as u128,
                                    None => x.1,
                                };
                                t[i] = eval_op(n.op, n.w as u32, aw, f(&a), f(&b), f(&c), n.val, bw) as u64;
                            }
                        }
                        _ => ok = false,
                    }
                }
                if ok {
                    let first = t[0];
                    if t.iter().all(|x| *x == first) {
                        let e = self.cst(first as u128, n.w as u32);
                        self.map.insert(n, e);
                        return e;
                    }
                    let t: Tab = Rc::new(t);
                    let key = (v, n.w, t.clone());
                    if let Some(&e) = self.tabmap.get(&key) {
                        self.map.insert(n, e);
                        return e;
                    }
                    let id = self.nodes.len() as E;
                    self.tabmap.insert(key, id);
                    tab = Some(t);
                }
            } else if n.op == Op::Var {
                let mut t = [0u64; 256];
                for (i, x) in t.iter_mut().enumerate() {
                    *x = i as u64
                }
                let t: Tab = Rc::new(t);
                self.tabmap.insert((v, 8, t.clone()), self.nodes.len() as E);
                tab = Some(t);
            }
        }
        let id = self.nodes.len() as E;
        let mut fp = [0u128; 4];
        for (m, o) in fp.iter_mut().enumerate() {
            *o = match n.op {
                Op::Const => n.val,
                Op::Var => fixed(m, n.val as u64) as u128,
                Op::Table => self.tables[n.val as usize][self.fp[n.a as usize][m] as usize & 255] as u128,
                _ => {
                    let g = |c: E| if c != 0 { self.fp[c as usize][m] } else { 0 };
                    let aw = self.w(n.a);
                    let bw = if n.b != 0 { self.w(n.b) } else { 0 };
                    eval_op(n.op, n.w as u32, aw, g(n.a), g(n.b), g(n.c), n.val, bw)
                }
            };
        }
        self.fp.push(fp);
        self.nodes.push(n);
        self.vars.push(vars);
        self.vset.push(vs);
        self.tab.push(tab);
        self.map.insert(n, id);
        id
    }
    /// operand order of commutative operators
    fn after(&self, a: E, b: E) -> bool {
        let (x, y) = ((self.vset[a as usize], self.fp[a as usize]), (self.vset[b as usize], self.fp[b as usize]));
        if x == y {
            a > b
        } else {
            x > y
        }
    }
    /// numbering-independent identity of a condition
    pub fn ident(&self, e: E) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut mix = |v: u64| h = (h ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
        mix(self.vset[e as usize]);
        match (&self.tab[e as usize], self.vars[e as usize]) {
            (Some(t), Vars::One(v)) => {
                mix(v as u64);
                for i in 0..256 {
                    mix(t[i]);
                }
            }
            _ => {
                for v in self.fp[e as usize] {
                    mix(v as u64);
                    mix((v >> 64) as u64);
                }
            }
        }
        h
    }
    fn n(&mut self, op: Op, w: u32, a: E, b: E, c: E, val: u128) -> E {
        self.intern(Node { op, w: w as u16, a, b, c, val })
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        self.n(Op::Const, w, 0, 0, 0, v)
    }
    pub fn var(&mut self, i: u32) -> E {
        self.n(Op::Var, 8, 0, 0, 0, i as u128)
    }
    pub fn tru(&mut self) -> E {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.cst(0, 1)
    }
    /// arbitrary function of a one-variable term
    pub fn unary_fn(&mut self, e: E, w: u32, f: impl Fn(u64) -> u64) -> Option<E> {
        let t = self.tab[e as usize].clone()?;
        let v = match self.vars[e as usize] {
            Vars::One(v) => v,
            _ => return None,
        };
        let mut o = [0u64; 256];
        for i in 0..256 {
            o[i] = f(t[i]) & mask(w) as u64;
        }
        Some(self.from_table(v as u32, w, o))
    }
    pub fn from_table(&mut self, v: u32, w: u32, o: [u64; 256]) -> E {
        let ve = self.var(v);
        if o.iter().all(|x| *x == o[0]) {
            return self.cst(o[0] as u128, w);
        }
        let t: Tab = Rc::new(o);
        if let Some(&e) = self.tabmap.get(&(v as u16, w as u16, t.clone())) {
            return e;
        }
        self.tables.push(t);
        let i = self.tables.len() as u128 - 1;
        self.n(Op::Table, w, ve, 0, 0, i)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.is_const(a) {
            return self.cst(!v, w);
        }
        if self.nodes[a as usize].op == Op::Not {
            return self.nodes[a as usize].a;
        }
        self.n(Op::Not, w, a, 0, 0, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst((x == y) as u128, 1);
        }
        if w == 1 {
            if let Some(y) = self.is_const(b) {
                return if y == 1 { a } else { self.not(a) };
            }
        }
        if let Some(y) = self.is_const(b) {
            let na = self.nodes[a as usize];
            match na.op {
                Op::Concat => {
                    let lw = self.w(na.b);
                    let hw = self.w(na.a);
                    let yl = self.cst(y, lw);
                    let yh = self.cst(y >> lw, hw);
                    let p = self.eq(na.a, yh);
                    if self.is_const(p) == Some(0) {
                        return p;
                    }
                    let q = self.eq(na.b, yl);
                    return self.and(p, q);
                }
                Op::ZExt => {
                    let sw = self.w(na.a);
                    if y >> sw != 0 {
                        return self.fls();
                    }
                    let yl = self.cst(y, sw);
                    return self.eq(na.a, yl);
                }
                Op::Ite => {
                    if let (Some(p), Some(q)) = (self.is_const(na.b), self.is_const(na.c)) {
                        return match (p == y, q == y) {
                            (true, true) => self.tru(),
                            (true, false) => na.a,
                            (false, true) => self.not(na.a),
                            (false, false) => self.fls(),
                        };
                    }
                    // one constant arm
                    if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                let p = self.eq(na.a, nb.a);
                let q = self.eq(na.b, nb.b);
                return self.and(p, q);
            }
        }
        let (a, b) = if self.is_const(b).is_none() && self.after(a, b) { (b, a) } else { (a, b) };
        self.n(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.cmp(Op::Ult, a, b)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let w = self.w(a);
            let v = eval_op(op, 1, w, x, y, 0, 0, 0);
            return self.cst(v, 1);
        }
        if a == b {
            let r = matches!(op, Op::Ule | Op::Sle);
            return self.cst(r as u128, 1);
        }
        let w = self.w(a);
        // zext on one side vs const
        if op == Op::Ult || op == Op::Ule {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.cmp(op, na.a, nb.a);
            }
            if let (Op::ZExt, Some(y)) = (na.op, self.is_const(b)) {
                let sw = self.w(na.a);
                if y > mask(sw) {
                    return self.tru();
                }
                let k = self.cst(y, sw);
                return self.cmp(op, na.a, k);
            }
            if let (Some(x), Op::ZExt) = (self.is_const(a), nb.op) {
                let sw = self.w(nb.a);
                if x > mask(sw) {
                    return self.fls();
                }
                let k = self.cst(x, sw);
                return self.cmp(op, k, nb.a);
            }
            if op == Op::Ult && self.is_const(b) == Some(0) {
                return self.fls();
            }
            if op == Op::Ule && self.is_const(a) == Some(0) {
                return self.tru();
            }
        } else {
            // signed comparison of zero-extended values = unsigned
            let pos = |s: &Self, e: E| -> bool {
                let n = &s.nodes[e as usize];
                n.op == Op::ZExt || (n.op == Op::Const && n.val >> (w - 1) == 0)
            };
            if pos(self, a) && pos(self, b) {
                return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
        }
        // distribute over ite with const arms
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && self.is_const(b).is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let p = self.cmp(op, na.b, b);
            let q = self.cmp(op, na.c, b);
            return self.ite(na.a, p, q);
        }
        self.n(op, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_const(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if self.nodes[c as usize].op == Op::Not {
            let c2 = self.nodes[c as usize].a;
            return self.ite(c2, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        self.n(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(v, w);
        }
        let na = self.nodes[a as usize];
        if na.op == Op::ZExt {
            return self.zext(na.a, w);
        }
        self.n(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(sext(v, aw) as u128, w);
        }
        let na = self.nodes[a as usize];
        if na.op == Op::ZExt {
            return self.zext(na.a, w);
        }
        self.n(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.is_const(hi), self.is_const(lo)) {
            return self.cst((x << lw) | y, w);
        }
        if self.is_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.val == nl.val + lw as u128 {
            return self.extract(nh.a, nl.val as u32, w);
        }
        // hi = extract(x, k..), lo = concat(extract(x, ..k), rest)
        if nh.op == Op::ZExt {
            // concat(zext(x), lo) = zext(concat(x, lo))
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        if nl.op == Op::Concat {
            let nlh = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.val == nlh.val + self.w(nl.a) as u128 {
                let ww = hw + self.w(nl.a);
                let h = self.extract(nh.a, nlh.val as u32, ww);
                return self.concat(h, nl.b);
            }
            if let (Some(_), Some(_)) = (self.is_const(hi), self.is_const(nl.a)) {
                let h = self.concat(hi, nl.a);
                return self.concat(h, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // right-nest: concat(concat(a,b),lo) -> concat(a, concat(b,lo))
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        // low extract of a zext'd value adjacent to a zero const handled above
        if nl.op == Op::ZExt {
            let pad = lw - self.w(nl.a);
            let z = self.cst(0, pad);
            let h = self.concat(hi, z);
            return self.n(Op::Concat, w, h, nl.a, 0, 0);
        }
        self.n(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(v >> lo, w);
        }
        let na = self.nodes[a as usize];
        match na.op {
            Op::Extract => return self.extract(na.a, na.val as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + w <= lw {
                    return self.extract(na.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(na.a, lo - lw, w);
                }
                let l = self.extract(na.b, lo, lw - lo);
                let h = self.extract(na.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let sw = self.w(na.a);
                if lo >= sw {
                    return self.cst(0, w);
                }
                if lo + w <= sw {
                    return self.extract(na.a, lo, w);
                }
                let x = self.extract(na.a, lo, sw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let sw = self.w(na.a);
                if lo + w <= sw {
                    return self.extract(na.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(na.a, w);
                }
            }
            Op::Ite => {
                if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                    let x = self.extract(na.b, lo, w);
                    let y = self.extract(na.c, lo, w);
                    return self.ite(na.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, lo, w);
                let y = self.extract(na.b, lo, w);
                return self.bin(na.op, x, y);
            }
            Op::Not => {
                let x = self.extract(na.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, 0, w);
                let y = self.extract(na.b, 0, w);
                return self.bin(na.op, x, y);
            }
            _ => {}
        }
        self.n(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            let v = eval_op(op, w, w, x, y, 0, 0, w);
            return self.cst(v, w);
        }
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul);
        let (a, b) = if comm && self.is_const(a).is_some() { (b, a) } else { (a, b) };
        let cb = self.is_const(b);
        let m = mask(w);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                match cb {
                    Some(0) => return b,
                    Some(x) if x == m => return a,
                    Some(x) => {
                        let na = self.nodes[a as usize];
                        // mask of low bits
                        if (x + 1).is_power_of_two() {
                            let k = x.count_ones();
                            let l = self.extract(a, 0, k);
                            return self.zext(l, w);
                        }
                        match na.op {
                            Op::Concat => {
                                let lw = self.w(na.b);
                                let xl = self.cst(x, lw);
                                let xh = self.cst(x >> lw, w - lw);
                                let h = self.and(na.a, xh);
                                let l = self.and(na.b, xl);
                                return self.concat(h, l);
                            }
                            Op::ZExt => {
                                let sw = self.w(na.a);
                                let xl = self.cst(x, sw);
                                let l = self.and(na.a, xl);
                                return self.zext(l, w);
                            }
                            Op::And => {
                                if let Some(y) = self.is_const(na.b) {
                                    let k = self.cst(x & y, w);
                                    return self.and(na.a, k);
                                }
                            }
                            _ => {}
                        }
                    }
                    None => {}
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.fls();
                    }
                }
            }
            Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Or { a } else { self.cst(0, w) };
                }
                match cb {
                    Some(0) => return a,
                    Some(x) if x == m => {
                        return if op == Op::Or { b } else { self.not(a) };
                    }
                    _ => {}
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.tru();
                    }
                    if op == Op::Xor {
                        // keep
                    }
                } else if let Some(e) = self.or_disjoint(a, b) {
                    return e;
                }
            }
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                let na = self.nodes[a as usize];
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.is_const(na.b) {
                            let k = self.cst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite {
                        if self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                            let p = self.bin(Op::Add, na.b, b);
                            let q = self.bin(Op::Add, na.c, b);
                            return self.ite(na.a, p, q);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.cst((0u128).wrapping_sub(y), w);
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => match cb {
                Some(0) => return b,
                Some(1) => return a,
                Some(x) if x.is_power_of_two() => {
                    let k = self.cst(x.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, k);
                }
                _ => {}
            },
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let l = self.extract(a, 0, w - k as u32);
                    let z = self.cst(0, k as u32);
                    return self.concat(l, z);
                }
                if self.is_const(a) == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let h = self.extract(a, k as u32, w - k as u32);
                    return self.zext(h, w);
                }
                if self.is_const(a) == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k < w as u128 {
                        let h = self.extract(a, k as u32, w - k as u32);
                        return self.sext(h, w);
                    }
                }
            }
            Op::UDiv if cb == Some(1) => return a,
            _ => {}
        }
        let (a, b) = if comm && cb.is_none() && self.after(a, b) { (b, a) } else { (a, b) };
        self.n(op, w, a, b, 0, 0)
    }
    /// a | b (or a ^ b, a + b) where the known-zero parts do not overlap
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        // shape: one has k low zero bits (Concat(p, 0:k) or const), other fits in k bits (zext)
        let lowzeros = |s: &Self, e: E| -> u32 {
            let n = &s.nodes[e as usize];
            match n.op {
                Op::Const => {
                    if n.val == 0 {
                        w
                    } else {
                        n.val.trailing_zeros()
                    }
                }
                Op::Concat => {
                    let l = &s.nodes[n.b as usize];
                    if l.op == Op::Const && l.val == 0 {
                        l.w as u32
                    } else {
                        0
                    }
                }
                Op::ZExt => {
                    let c = &s.nodes[n.a as usize];
                    if c.op == Op::Concat {
                        let l = &s.nodes[c.b as usize];
                        if l.op == Op::Const && l.val == 0 {
                            return l.w as u32;
                        }
                    }
                    0
                }
                _ => 0,
            }
        };
        let sigbits = |s: &Self, e: E| -> u32 {
            let n = &s.nodes[e as usize];
            match n.op {
                Op::Const => 128 - n.val.leading_zeros(),
                Op::ZExt => s.w(n.a),
                _ => w,
            }
        };
        for (x, y) in [(a, b), (b, a)] {
            let k = lowzeros(self, x);
            if k > 0 && k < w && sigbits(self, y) <= k {
                let h = self.extract(x, k, w - k);
                let l = self.extract(y, 0, k);
                return Some(self.concat(h, l));
            }
        }
        None
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return format!("{:#x}:{}", n.val, n.w),
            Op::Var => return format!("b{}", n.val),
            _ => {}
        }
        if let Vars::One(v) = self.vars[e as usize] {
            return format!("f{}(b{}):{}", e, v, n.w);
        }
        if depth == 0 {
            return "..".into();
        }
        let mut s = format!("({:?}:{}", n.op, n.w);
        for c in [n.a, n.b, n.c] {
            if c != 0 {
                s.push(' ');
                s += &self.show(c, depth - 1);
            }
        }
        s.push(')');
        s
    }
    /// the first (by input byte, then truth table) one-byte 1-bit subterm of
    /// a many-byte term
    pub fn find_unary(&self, e: E) -> Option<E> {
        let mut stack = vec![e];
        let mut seen: Vec<E> = vec![];
        let mut best: Option<E> = None;
        while let Some(e) = stack.pop() {
            if self.vars[e as usize] == Vars::None || seen.contains(&e) {
                continue;
            }
            seen.push(e);
            if seen.len() > 400 {
                return None;
            }
            let n = &self.nodes[e as usize];
            if let Vars::One(v) = self.vars[e as usize] {
                if let (1, Some(t)) = (n.w, &self.tab[e as usize]) {
                    let better = match best {
                        None => true,
                        Some(b) => match (self.vars[b as usize], &self.tab[b as usize]) {
                            (Vars::One(bv), Some(bt)) => (v, &t[..]) < (bv, &bt[..]),
                            _ => true,
                        },
                    };
                    if better {
                        best = Some(e)
                    }
                }
                continue;
            }
            for c in [n.c, n.b, n.a] {
                if c != 0 {
                    stack.push(c)
                }
            }
        }
        best
    }
    /// e with subterm t (and its negation) replaced by the constant v
    pub fn assume_sub(&mut self, e: E, t: E, v: bool) -> E {
        let nt = self.not(t);
        let mut memo = HashMap::new();
        self.assume_rec(e, t, nt, v, &mut memo)
    }
    fn assume_rec(&mut self, e: E, t: E, nt: E, v: bool, memo: &mut HashMap<E, E>) -> E {
        if e == t {
            return self.cst(v as u128, 1);
        }
        if e == nt {
            return self.cst(!v as u128, 1);
        }
        if self.vars[e as usize] != Vars::Many {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let a = if n.a != 0 { self.assume_rec(n.a, t, nt, v, memo) } else { 0 };
        let b = if n.b != 0 { self.assume_rec(n.b, t, nt, v, memo) } else { 0 };
        let c = if n.c != 0 { self.assume_rec(n.c, t, nt, v, memo) } else { 0 };
        let w = n.w as u32;
        let r = if (a, b, c) == (n.a, n.b, n.c) {
            e
        } else {
            match n.op {
                Op::Not => self.not(a),
                Op::Eq => self.eq(a, b),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.cmp(n.op, a, b),
                Op::Ite => self.ite(a, b, c),
                Op::ZExt => self.zext(a, w),
                Op::SExt => self.sext(a, w),
                Op::Concat => self.concat(a, b),
                Op::Extract => self.extract(a, n.val as u32, w),
                Op::Table => e,
                _ => self.bin(n.op, a, b),
            }
        };
        memo.insert(e, r);
        r
    }

    /// evaluate under an assignment of input bytes
    pub fn eval(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.val,
            Op::Var => return model.get(n.val as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if let (Vars::One(v), Some(t)) = (self.vars[e as usize], &self.tab[e as usize]) {
            return t[model.get(v as usize).copied().unwrap_or(0) as usize] as u128;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let a = if n.a != 0 { self.eval(n.a, model, memo) } else { 0 };
        if n.op == Op::Table {
            return self.tables[n.val as usize][a as usize & 255] as u128;
        }
        let b = if n.b != 0 { self.eval(n.b, model, memo) } else { 0 };
        let c = if n.c != 0 { self.eval(n.c, model, memo) } else { 0 };
        let aw = self.w(n.a);
        let bw = if n.b != 0 { self.w(n.b) } else { 0 };
        let v = eval_op(n.op, n.w as u32, aw, a, b, c, n.val, bw);
        memo.insert(e, v);
        v
    }
}
