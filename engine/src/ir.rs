//! Parser for LLVM textual IR (as printed by rustc's LLVM) and lowering to a
//! compact register bytecode.  Only what fat-LTO'd Rust programs contain.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, TyId),
    Vector(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Token,
    Opaque,
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Global(String),
    Undef,
    Zero,
    Agg(Vec<(TyId, Const)>),
    Bytes(Vec<u8>),
    Splat(TyId, Box<Const>),
    Gep(TyId, Box<Const>, Vec<(TyId, Const)>),
    Cast(String, TyId, Box<Const>, TyId),
    Bin(String, TyId, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum V {
    Local(u32),
    C(Const),
}

/// Operand: index of a register slot, or (high bit set) of a constant-pool slot.
pub type Op = u32;
pub const CBIT: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FCast {
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    Bswap,
    Bitreverse,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    UaddOv,
    UsubOv,
    UmulOv,
    SaddOv,
    SsubOv,
    SmulOv,
    Cttz,
    Ctlz,
    Ctpop,
    Abs,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Expect,
    IsConstant,
    ThreadLocal,
    LoadRelative,
    Trap,
    FAbs,
    Floor,
    Ceil,
    Round,
    TruncF,
    FptoSiSat,
    FptoUiSat,
    VecReduceAdd,
    VecReduceOr,
    VecReduceAnd,
    CopyArg0,
    MaxNum,
    MinNum,
    Unsupported,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    SymBytes,
    SymAssume,
    SymAssert,
    SymChoice,
    SymObs,
    SymReach,
    SymConcretize,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Bcmp,
    Memcmp,
    Strlen,
    MemcpyFn,
    Abort,
    Panic,
    Getrandom,
    RetZero,
    Getenv,
    Sysconf,
    RetMinus1,
    Write,
    SipWrite,
    MemchrFn,
    MemrchrFn,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Intrinsic(Intr),
    External(Ext, u32),
}

/// scalar descriptor used for aggregate loads/stores
#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub off: u32,
    pub w: u32,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, d: u32, a: Op, b: Op },
    ICmp { p: Pred, w: u8, d: u32, a: Op, b: Op },
    Cast { op: CastOp, from: u8, to: u8, d: u32, a: Op },
    Select { d: u32, c: Op, a: Op, b: Op, n: u32, w0: u8 },
    VSelect { d: u32, c: Op, a: Op, b: Op, n: u32, w: u8 },
    Load { d: u32, p: Op, w: u8 },
    Store { v: Op, p: Op, w: u8 },
    LoadAgg { d: u32, p: Op, leaves: u32, n: u32 },
    StoreAgg { v: Op, p: Op, leaves: u32, n: u32 },
    GepC { d: u32, p: Op, off: i64 },
    Gep1 { d: u32, p: Op, off: i64, i: Op, iw: u8, scale: i64 },
    GepN { d: u32, p: Op, off: i64, terms: u32, n: u32 },
    Alloca { d: u32, size: u64, align: u32 },
    Br { e: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u8, tab: u32 },
    Call { d: u32, callee: u32, args: u32, nargs: u32, dn: u32, w: u8 },
    Ret { a: Op, n: u32 },
    Unreachable,
    Copy { d: u32, a: Op, n: u32 },
    VBin { op: BinOp, w: u8, n: u32, d: u32, a: Op, b: Op },
    VICmp { p: Pred, w: u8, n: u32, d: u32, a: Op, b: Op },
    VCast { op: CastOp, from: u8, to: u8, n: u32, d: u32, a: Op },
    /// bitcast between vectors/scalars: concat all source lanes then split
    VBitcast { d: u32, dn: u32, dw: u8, a: Op, n: u32, aw: u8 },
    ExtractEl { d: u32, a: Op, n: u32, i: Op },
    InsertEl { d: u32, a: Op, n: u32, v: Op, i: Op },
    Shuffle { d: u32, a: Op, b: Op, an: u32, mask: u32, n: u32 },
    InsertVal { d: u32, a: Op, n: u32, v: Op, vn: u32, off: u32 },
    FBin { op: FOp, dbl: bool, d: u32, a: Op, b: Op },
    FCmp { p: u8, dbl: bool, d: u32, a: Op, b: Op },
    FConv { op: FCast, from: u8, to: u8, d: u32, a: Op },
    AtomicRmw { d: u32, p: Op, v: Op, w: u8, op: u8 },
    CmpXchg { d: u32, p: Op, c: Op, v: Op, w: u8 },
    Unsupported { msg: u32 },
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: u32,
    pub n: u32,
    pub blk: u32,
}

#[derive(Default)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nslots: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub moves: Vec<(u32, Op)>,
    pub switches: Vec<(Vec<(u128, u32)>, u32)>,
    pub callees: Vec<Callee>,
    pub args: Vec<Op>,
    pub leaves: Vec<Leaf>,
    pub terms: Vec<(Op, u8, i64)>,
    pub masks: Vec<i32>,
    pub msgs: Vec<String>,
    pub dbg: Vec<u32>,
    pub blk_start: Vec<u32>,
    pub blk_base: u32,
    pub intercept: Option<Ext>,
    pub ret_n: u32,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Reg {
    pub lo: u64,
    pub hi: u64,
    pub s: u32,
}

pub struct Global {
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
}

pub struct Module {
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub globals: Vec<Global>,
    pub consts: Vec<Reg>,
    constmap: HashMap<(u64, u64), u32>,
    pub globals_end: u64,
    pub ext_names: Vec<String>,
    pub nblocks: u32,
    pub md: HashMap<u32, String>,
    undef_off: u32,
}

pub const FUNC_BASE: u64 = 0x1000;
pub const GLOBAL_BASE: u64 = 0x100_0000;

pub struct Lx<'a> {
    s: &'a [u8],
    p: usize,
    /// true: whitespace skipping stays on the current line
    line: bool,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' if !self.line => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at ...{}", c as char, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.p.saturating_sub(120);
        let b = (self.p + 120).min(self.s.len());
        format!("{} <<HERE>> {}", String::from_utf8_lossy(&self.s[a..self.p]), String::from_utf8_lossy(&self.s[self.p..b]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.p]) }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        let mut p = st;
        while p < self.s.len() && is_id(self.s[p]) {
            p += 1
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..p]) }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let b = self.qstr();
            String::from_utf8_lossy(&b).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn qstr(&mut self) -> Vec<u8> {
        assert_eq!(self.s[self.p], b'"');
        self.p += 1;
        let mut o = vec![];
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if self.s[self.p] == b'\\' {
                        o.push(b'\\');
                        self.p += 1;
                    } else {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                        o.push(h(self.s[self.p]) * 16 + h(self.s[self.p + 1]));
                        self.p += 2;
                    }
                }
                c => o.push(c),
            }
        }
        o
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.qstr();
                    continue;
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let st = self.p;
        if self.s[self.p] == b'-' {
            self.p += 1
        }
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            self.p += 1
        }
        let t = std::str::from_utf8(&self.s[st..self.p]).unwrap();
        if let Ok(v) = t.parse::<i128>() {
            v
        } else if let Ok(v) = t.parse::<u128>() {
            v as i128
        } else {
            panic!("int {:?} at {}", t, self.ctx())
        }
    }
    /// skip to the end of the line, returning a `!dbg !N` found there
    fn rest_dbg(&mut self) -> u32 {
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1
        }
        let l = &self.s[st..self.p];
        find_dbg(l)
    }
}

fn find_dbg(l: &[u8]) -> u32 {
    let pat = b"!dbg !";
    if l.len() < pat.len() {
        return 0;
    }
    for i in 0..=l.len() - pat.len() {
        if l[i] == b'!' && &l[i..i + pat.len()] == pat {
            let mut v = 0u32;
            for &c in &l[i + pat.len()..] {
                if c.is_ascii_digit() {
                    v = v * 10 + (c - b'0') as u32
                } else {
                    break;
                }
            }
            return v;
        }
    }
    0
}

const ATTRS_ARG: &[&str] = &["align"];

struct AInst {
    res: Option<u32>,
    kind: K,
    dbg: u32,
}

enum K {
    Bin(BinOp, TyId, V, V),
    FBin(FOp, TyId, V, V),
    ICmp(Pred, TyId, V, V),
    FCmp(u8, TyId, V, V),
    Cast(String, TyId, V, TyId),
    Select(TyId, V, TyId, V, V),
    Load(TyId, V),
    Store(TyId, V, V),
    Gep(TyId, V, Vec<(TyId, V)>),
    Alloca(u64, u32),
    Br(String),
    CondBr(V, String, String),
    Switch(TyId, V, Vec<(Const, String)>, String),
    Call(TyId, V, Vec<(TyId, V)>, Option<String>),
    Ret(TyId, Option<V>),
    Unreachable,
    Phi(TyId, Vec<(V, String)>),
    ExtractVal(TyId, V, Vec<u64>),
    InsertVal(TyId, V, TyId, V, Vec<u64>),
    ExtractEl(TyId, V, TyId, V),
    InsertEl(TyId, V, TyId, V, TyId, V),
    Shuffle(TyId, V, V, TyId, Const),
    Freeze(TyId, V),
    AtomicRmw(String, V, TyId, V),
    CmpXchg(V, TyId, V, V),
    Fence,
    Other(String),
}

const DEBUG_LOWER: bool = false;
struct FnParse {
    names: HashMap<String, u32>,
    tys: Vec<Option<TyId>>,
}
impl FnParse {
    fn id(&mut self, n: String) -> u32 {
        if let Some(&i) = self.names.get(&n) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.names.insert(n, i);
        self.tys.push(None);
        i
    }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len() as u32;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }

    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, e) => self.align(*e),
            Ty::Vector(..) => self.size(t).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size rounded up to alignment (alloc size)
    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Vector(n, e) => {
                let w = self.scalar_w(*e) as u64;
                (*n as u64 * w + 7) / 8
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let a = if *packed { 1 } else { self.align(*x) };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    o += self.size(*x);
                }
                (o + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> u64 {
        match &self.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align(*x) };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return o;
                    }
                    o += self.size(*x);
                }
                panic!("field")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => self.size(*e) * i as u64,
            _ => panic!("field_off of non-aggregate"),
        }
    }
    pub fn scalar_w(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            x => panic!("scalar_w {:?}", x),
        }
    }
    fn leaves(&self, t: TyId, base: u64, out: &mut Vec<Leaf>) {
        match self.types[t as usize].clone() {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => out.push(Leaf { off: base as u32, w: self.scalar_w(t) }),
            Ty::Array(n, e) => {
                let s = self.size(e);
                for i in 0..n {
                    self.leaves(e, base + i * s, out)
                }
            }
            Ty::Vector(n, e) => {
                let w = self.scalar_w(e);
                let s = (w as u64 + 7) / 8;
                for i in 0..n as u64 {
                    out.push(Leaf { off: (base + i * s) as u32, w })
                }
            }
            Ty::Struct(f, _) => {
                for (i, x) in f.iter().enumerate() {
                    let o = self.field_off(t, i);
                    self.leaves(*x, base + o, out)
                }
            }
            _ => {}
        }
    }
    fn nslots(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => 1,
            Ty::Array(n, e) => *n as u32 * self.nslots(*e),
            Ty::Vector(n, e) => *n * self.nslots(*e),
            Ty::Struct(f, _) => f.iter().map(|x| self.nslots(*x)).sum(),
            _ => 0,
        }
    }
    fn slot_off(&self, t: TyId, idx: &[u64]) -> (u32, TyId) {
        let mut cur = t;
        let mut off = 0;
        for &i in idx {
            match self.types[cur as usize].clone() {
                Ty::Struct(f, _) => {
                    for x in &f[..i as usize] {
                        off += self.nslots(*x)
                    }
                    cur = f[i as usize];
                }
                Ty::Array(_, e) | Ty::Vector(_, e) => {
                    off += self.nslots(e) * i as u32;
                    cur = e;
                }
                _ => panic!("slot_off"),
            }
        }
        (off, cur)
    }

    // ---------- types ----------
    fn parse_ty(&mut self, l: &mut Lx) -> TyId {
        let c = l.peek();
        let t = match c {
            b'[' => {
                l.p += 1;
                let n = l.int() as u64;
                assert!(l.eat_word("x"));
                let e = self.parse_ty(l);
                l.expect(b']');
                self.ty(Ty::Array(n, e))
            }
            b'<' => {
                l.p += 1;
                if l.peek() == b'{' {
                    let t = self.parse_struct(l, true);
                    l.expect(b'>');
                    t
                } else {
                    let n = l.int() as u32;
                    assert!(l.eat_word("x"));
                    let e = self.parse_ty(l);
                    l.expect(b'>');
                    self.ty(Ty::Vector(n, e))
                }
            }
            b'{' => self.parse_struct(l, false),
            b'%' => {
                l.p += 1;
                let n = l.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n))
            }
            _ => {
                let w = l.word();
                match w {
                    "void" => self.ty(Ty::Void),
                    "ptr" => {
                        if l.peek_word() == "addrspace" {
                            l.word();
                            l.skip_parens();
                        }
                        self.ty(Ty::Ptr)
                    }
                    "float" => self.ty(Ty::Float),
                    "double" => self.ty(Ty::Double),
                    "label" => self.ty(Ty::Label),
                    "metadata" => self.ty(Ty::Meta),
                    "token" => self.ty(Ty::Token),
                    "opaque" => self.ty(Ty::Opaque),
                    _ if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
                        let n = w[1..].parse().unwrap();
                        self.ty(Ty::Int(n))
                    }
                    _ => panic!("type {:?} at {}", w, l.ctx()),
                }
            }
        };
        // function type suffix in calls: handled by caller
        t
    }
    fn parse_struct(&mut self, l: &mut Lx, packed: bool) -> TyId {
        l.expect(b'{');
        let mut f = vec![];
        if l.peek() != b'}' {
            loop {
                f.push(self.parse_ty(l));
                if !l.eat(b',') {
                    break;
                }
            }
        }
        l.expect(b'}');
        self.ty(Ty::Struct(f, packed))
    }

    fn parse_const(&mut self, l: &mut Lx, t: TyId) -> Const {
        let c = l.peek();
        match c {
            b'@' => {
                l.p += 1;
                Const::Global(l.name())
            }
            b'+' | b'-' if c == b'+' || matches!(l.s.get(l.p + 1), Some(b'i') | Some(b'n') | Some(b's') | Some(b'q')) => {
                // +inf, -inf, +nan(0x..), +qnan, +snan(0x..)
                l.p += 1;
                let w = l.word().to_string();
                let mut pay = 0u64;
                if l.s.get(l.p) == Some(&b'(') {
                    l.p += 1;
                    let x = l.word().to_string();
                    pay = u64::from_str_radix(x.trim_start_matches("0x"), 16).unwrap_or(0);
                    l.expect(b')');
                }
                let neg = c == b'-';
                if let Ty::Float = self.types[t as usize] {
                    let v = match w.as_str() {
                        "inf" => 0x7f80_0000u32,
                        "snan" => 0x7f80_0000 | pay as u32,
                        _ => 0x7fc0_0000 | pay as u32,
                    };
                    Const::Int((v | (neg as u32) << 31) as u128)
                } else {
                    let v = match w.as_str() {
                        "inf" => 0x7ff0_0000_0000_0000u64,
                        "snan" => 0x7ff0_0000_0000_0000 | pay,
                        _ => 0x7ff8_0000_0000_0000 | pay,
                    };
                    Const::Int((v | (neg as u64) << 63) as u128)
                }
            }
            b'-' | b'0'..=b'9' => {
                // float hex?
                if c == b'0' && l.s.get(l.p + 1) == Some(&b'x') {
                    let w = l.word();
                    let bits = u64::from_str_radix(&w[2..].trim_start_matches(|c: char| c == 'K' || c == 'L' || c == 'H' || c == 'R'), 16).unwrap();
                    return match self.types[t as usize] {
                        Ty::Float => Const::Int((f64::from_bits(bits) as f32).to_bits() as u128),
                        _ => Const::Int(bits as u128),
                    };
                }
                match self.types[t as usize] {
                    Ty::Float | Ty::Double => {
                        l.ws();
                        let st = l.p;
                        while l.p < l.s.len() && (l.s[l.p].is_ascii_alphanumeric() || b"+-.".contains(&l.s[l.p])) {
                            l.p += 1
                        }
                        let f: f64 = std::str::from_utf8(&l.s[st..l.p]).unwrap().parse().unwrap();
                        if let Ty::Float = self.types[t as usize] {
                            Const::Int((f as f32).to_bits() as u128)
                        } else {
                            Const::Int(f.to_bits() as u128)
                        }
                    }
                    Ty::Int(w) => {
                        let v = l.int() as u128;
                        Const::Int(if w < 128 { v & ((1u128 << w) - 1) } else { v })
                    }
                    _ => {
                        let v = l.int();
                        Const::Int(v as u128)
                    }
                }
            }
            b'[' | b'{' => {
                l.p += 1;
                let close = if c == b'[' { b']' } else { b'}' };
                Const::Agg(self.parse_agg(l, close))
            }
            b'<' => {
                l.p += 1;
                if l.eat(b'{') {
                    let a = self.parse_agg(l, b'}');
                    l.expect(b'>');
                    Const::Agg(a)
                } else {
                    let a = self.parse_agg(l, b'>');
                    Const::Agg(a)
                }
            }
            b'c' if l.s.get(l.p + 1) == Some(&b'"') => {
                l.p += 1;
                Const::Bytes(l.qstr())
            }
            _ => {
                let w = l.word().to_string();
                match w.as_str() {
                    "true" => Const::Int(1),
                    "false" => Const::Int(0),
                    "null" | "zeroinitializer" | "none" => Const::Zero,
                    "undef" | "poison" => Const::Undef,
                    "splat" => {
                        l.expect(b'(');
                        let t = self.parse_ty(l);
                        let v = self.parse_const(l, t);
                        l.expect(b')');
                        Const::Splat(t, Box::new(v))
                    }
                    "getelementptr" => {
                        loop {
                            let w = l.peek_word();
                            if w.is_empty() {
                                break;
                            }
                            l.word();
                            if w == "inrange" {
                                l.skip_parens();
                            }
                        }
                        l.expect(b'(');
                        let st = self.parse_ty(l);
                        l.expect(b',');
                        let pt = self.parse_ty(l);
                        let base = self.parse_const(l, pt);
                        let mut idx = vec![];
                        while l.eat(b',') {
                            let it = self.parse_ty(l);
                            idx.push((it, self.parse_const(l, it)));
                        }
                        l.expect(b')');
                        Const::Gep(st, Box::new(base), idx)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "zext" | "bitcast" | "ptrtoaddr" => {
                        l.expect(b'(');
                        let st = self.parse_ty(l);
                        let v = self.parse_const(l, st);
                        assert!(l.eat_word("to"));
                        let dt = self.parse_ty(l);
                        l.expect(b')');
                        Const::Cast(w, st, Box::new(v), dt)
                    }
                    "sub" | "add" | "xor" | "mul" | "and" | "or" => {
                        while !l.peek_word().is_empty() {
                            l.word();
                        }
                        l.expect(b'(');
                        let st = self.parse_ty(l);
                        let a = self.parse_const(l, st);
                        l.expect(b',');
                        let st2 = self.parse_ty(l);
                        let b = self.parse_const(l, st2);
                        l.expect(b')');
                        Const::Bin(w, st, Box::new(a), Box::new(b))
                    }
                    "dso_local_equivalent" | "no_cfi" => self.parse_const(l, t),
                    _ => panic!("const word {:?} at {}", w, l.ctx()),
                }
            }
        }
    }
    fn parse_agg(&mut self, l: &mut Lx, close: u8) -> Vec<(TyId, Const)> {
        let mut v = vec![];
        if l.peek() != close {
            loop {
                let t = self.parse_ty(l);
                v.push((t, self.parse_const(l, t)));
                if !l.eat(b',') {
                    break;
                }
            }
        }
        l.expect(close);
        v
    }

    fn parse_val(&mut self, l: &mut Lx, t: TyId, f: &mut FnParse) -> V {
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.name();
            V::Local(f.id(n))
        } else {
            V::C(self.parse_const(l, t))
        }
    }

    // ---------- constant evaluation ----------
    pub fn eval_scalar(&self, c: &Const, t: TyId) -> u128 {
        let w = match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            _ => 64,
        };
        let v = match c {
            Const::Int(v) => *v,
            Const::Undef | Const::Zero => 0,
            Const::Global(n) => *self.gaddr.get(n).unwrap_or_else(|| panic!("global {}", n)) as u128,
            Const::Gep(st, b, idx) => {
                let base = self.eval_scalar(b, t) as u64;
                let mut off = 0i64;
                let mut cur = *st;
                for (k, (it, ic)) in idx.iter().enumerate() {
                    let iw = self.scalar_w(*it);
                    let raw = self.eval_scalar(ic, *it);
                    let i = if iw < 64 { ((raw as i64) << (64 - iw)) >> (64 - iw) } else { raw as i64 };
                    if k == 0 {
                        off += i * self.size(cur) as i64;
                    } else {
                        off += self.field_off(cur, i as usize) as i64;
                        cur = match &self.types[cur as usize] {
                            Ty::Struct(f, _) => f[i as usize],
                            Ty::Array(_, e) | Ty::Vector(_, e) => *e,
                            _ => panic!(),
                        };
                    }
                }
                base.wrapping_add(off as u64) as u128
            }
            Const::Cast(_, st, v, _) => self.eval_scalar(v, *st),
            Const::Bin(op, st, a, b) => {
                let x = self.eval_scalar(a, *st);
                let y = self.eval_scalar(b, *st);
                match op.as_str() {
                    "sub" => x.wrapping_sub(y),
                    "add" => x.wrapping_add(y),
                    "xor" => x ^ y,
                    "and" => x & y,
                    "or" => x | y,
                    "mul" => x.wrapping_mul(y),
                    _ => unreachable!(),
                }
            }
            _ => panic!("eval_scalar {:?}", c),
        };
        if w < 128 {
            v & ((1u128 << w) - 1)
        } else {
            v
        }
    }
    fn flatten(&self, c: &Const, t: TyId, out: &mut Vec<u128>) {
        match self.types[t as usize].clone() {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => out.push(self.eval_scalar(c, t)),
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token | Ty::Opaque => {}
            Ty::Array(n, e) => self.flat_agg(c, &vec![e; n as usize], out),
            Ty::Vector(n, e) => self.flat_agg(c, &vec![e; n as usize], out),
            Ty::Struct(f, _) => self.flat_agg(c, &f, out),
        }
    }
    fn flat_agg(&self, c: &Const, tys: &[TyId], out: &mut Vec<u128>) {
        match c {
            Const::Agg(v) => {
                for (t, x) in v {
                    self.flatten(x, *t, out)
                }
            }
            Const::Bytes(b) => {
                for x in b {
                    out.push(*x as u128)
                }
            }
            Const::Splat(t, x) => {
                for _ in tys {
                    self.flatten(x, *t, out)
                }
            }
            _ => {
                for t in tys {
                    self.flatten(&Const::Zero, *t, out)
                }
            }
        }
    }
    fn write_const(&self, c: &Const, t: TyId, buf: &mut [u8]) {
        match (c, self.types[t as usize].clone()) {
            (Const::Bytes(b), _) => buf[..b.len()].copy_from_slice(b),
            (Const::Undef, _) | (Const::Zero, _) => {}
            (Const::Agg(v), Ty::Struct(..)) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let o = self.field_off(t, i) as usize;
                    let s = self.size(*ft) as usize;
                    self.write_const(fc, *ft, &mut buf[o..o + s]);
                }
            }
            (Const::Agg(v), _) => {
                let mut o = 0;
                for (ft, fc) in v.iter() {
                    let s = self.size(*ft) as usize;
                    self.write_const(fc, *ft, &mut buf[o..o + s]);
                    o += s;
                }
            }
            (Const::Splat(et, x), _) => {
                let s = self.size(*et) as usize;
                let mut o = 0;
                while o + s <= buf.len() {
                    self.write_const(x, *et, &mut buf[o..o + s]);
                    o += s;
                }
            }
            _ => {
                let v = self.eval_scalar(c, t);
                let s = ((self.scalar_w(t) + 7) / 8) as usize;
                buf[..s].copy_from_slice(&v.to_le_bytes()[..s]);
            }
        }
    }

    fn cpool(&mut self, v: u128) -> Op {
        let k = (v as u64, (v >> 64) as u64);
        if let Some(&i) = self.constmap.get(&k) {
            return i | CBIT;
        }
        let i = self.consts.len() as u32;
        self.consts.push(Reg { lo: k.0, hi: k.1, s: 0 });
        self.constmap.insert(k, i);
        i | CBIT
    }

    // ---------- module ----------
    pub fn parse(src: &[u8]) -> Module {
        let mut m = Module {
            types: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            gaddr: HashMap::new(),
            globals: vec![],
            consts: vec![],
            constmap: HashMap::new(),
            globals_end: 0,
            ext_names: vec![],
            nblocks: 0,
            md: HashMap::new(),
            undef_off: 0,
        };
        m.cpool(0);
        // pass 1: split into top-level lines
        let mut p = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut fl: Vec<(usize, usize)> = vec![];
        let mut dl: Vec<(usize, usize)> = vec![];
        while p < src.len() {
            let e = memchr(b'\n', &src[p..]).map(|x| p + x).unwrap_or(src.len());
            let line = &src[p..e];
            match line.first() {
                Some(b'@') => gl.push((p, e)),
                Some(b'%') => {
                    // named type
                    let mut l = Lx { s: src, p: p + 1, line: false };
                    let n = l.name();
                    l.expect(b'=');
                    assert!(l.eat_word("type"));
                    let t = m.parse_ty(&mut l);
                    m.named.insert(n, t);
                }
                Some(b'd') if line.starts_with(b"define") => {
                    // find closing "\n}\n"
                    let mut q = e;
                    loop {
                        if q + 1 < src.len() && src[q] == b'\n' && src[q + 1] == b'}' {
                            break;
                        }
                        q = q + 1 + memchr(b'\n', &src[q + 1..]).expect("unterminated function");
                    }
                    fl.push((p, q + 1));
                    p = q + 3;
                    continue;
                }
                Some(b'd') if line.starts_with(b"declare") => dl.push((p, e)),
                Some(b'!') => {
                    if line.len() > 1 && line[1].is_ascii_digit() {
                        let mut v = 0u32;
                        let mut k = 1;
                        while k < line.len() && line[k].is_ascii_digit() {
                            v = v * 10 + (line[k] - b'0') as u32;
                            k += 1;
                        }
                        if let Some(pos) = find(line, b"!DI") {
                            let body = &line[pos..];
                            if body.starts_with(b"!DILocation(") || body.starts_with(b"!DISubprogram(") || body.starts_with(b"!DIFile(") || body.starts_with(b"!DILexicalBlock") {
                                m.md.insert(v, String::from_utf8_lossy(body).into_owned());
                            }
                        }
                    }
                }
                _ => {}
            }
            p = e + 1;
        }
        // functions: names & addresses
        for (i, &(a, b)) in fl.iter().enumerate() {
            let name = fn_name(&src[a..b]);
            m.fidx.insert(name.clone(), i as u32);
            m.gaddr.insert(name.clone(), FUNC_BASE + 16 * i as u64);
            m.funcs.push(Func { name, ..Default::default() });
        }
        let mut next = FUNC_BASE + 16 * fl.len() as u64;
        for &(a, b) in &dl {
            let line = &src[a..b];
            let name = fn_name(line);
            let weak = find(line, b"extern_weak").is_some();
            if weak && name != "getrandom" {
                m.gaddr.insert(name, 0);
            } else {
                m.gaddr.insert(name, next);
                next += 16;
            }
        }
        assert!(next < GLOBAL_BASE);
        // globals: pass A, addresses
        let mut addr = GLOBAL_BASE;
        let mut pend: Vec<(String, TyId, usize, bool)> = vec![];
        let mut aliases: Vec<(String, usize)> = vec![];
        for &(a, _b) in &gl {
            let mut l = Lx { s: src, p: a + 1, line: false };
            let n = l.name();
            l.expect(b'=');
            let mut ext = false;
            let mut alias = false;
            loop {
                let w = l.word();
                match w {
                    "global" | "constant" => break,
                    "alias" | "ifunc" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    "" => panic!("global {}", l.ctx()),
                    _ => {
                        if l.peek() == b'(' {
                            l.skip_parens()
                        }
                    }
                }
            }
            if alias {
                aliases.push((n, l.p));
                continue;
            }
            if n.starts_with("llvm.") {
                m.gaddr.insert(n, 0);
                continue;
            }
            let t = m.parse_ty(&mut l);
            let sz = m.size(t).max(1);
            // alignment from text
            let line_end = memchr(b'\n', &src[l.p..]).map(|x| l.p + x).unwrap_or(src.len());
            let al = rfind(&src[l.p..line_end], b", align ")
                .and_then(|x| {
                    let s = &src[l.p + x + 8..line_end];
                    let k = s.iter().take_while(|c| c.is_ascii_digit()).count();
                    std::str::from_utf8(&s[..k]).ok()?.parse::<u64>().ok()
                })
                .unwrap_or(m.align(t))
                .max(1);
            addr = (addr + al - 1) / al * al;
            m.gaddr.insert(n.clone(), addr);
            pend.push((n, t, l.p, ext));
            addr += sz;
        }
        m.globals_end = addr;
        for (n, p) in aliases {
            let mut l = Lx { s: src, p, line: false };
            let _t = m.parse_ty(&mut l);
            l.expect(b',');
            let pt = m.parse_ty(&mut l);
            let c = m.parse_const(&mut l, pt);
            let v = m.eval_scalar(&c, pt) as u64;
            m.gaddr.insert(n.clone(), v);
            if v >= FUNC_BASE && v < GLOBAL_BASE && ((v - FUNC_BASE) / 16) < m.funcs.len() as u64 {
                m.fidx.insert(n, ((v - FUNC_BASE) / 16) as u32);
            }
        }
        for (n, t, p, ext) in pend {
            let sz = m.size(t) as usize;
            let mut buf = vec![0u8; sz];
            if !ext {
                let mut l = Lx { s: src, p, line: false };
                let c = m.parse_const(&mut l, t);
                m.write_const(&c, t, &mut buf);
            }
            let a = m.gaddr[&n];
            m.globals.push(Global { addr: a, size: sz as u64, init: buf });
        }
        for (i, &(a, b)) in fl.iter().enumerate() {
            m.parse_fn(&src[a..b], i);
        }
        m
    }

    fn skip_attrs(&mut self, l: &mut Lx) {
        loop {
            l.ws();
            let c = l.peek();
            if c == b'"' {
                l.qstr();
                if l.eat(b'=') {
                    l.qstr();
                }
                continue;
            }
            if c == b'#' {
                l.p += 1;
                l.word();
                continue;
            }
            let w = l.peek_word();
            if w.is_empty() || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' {
                return;
            }
            match w {
                "true" | "false" | "null" | "zeroinitializer" | "undef" | "poison" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "c" | "none" | "sub" | "add" | "trunc" | "void" | "ptr"
                | "float" | "double" | "metadata" | "label" => return,
                _ => {}
            }
            if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                return;
            }
            l.word();
            if ATTRS_ARG.contains(&w) {
                if l.peek() == b'(' {
                    l.skip_parens()
                } else {
                    l.int();
                }
            } else if l.peek() == b'(' {
                l.skip_parens()
            }
        }
    }

    fn parse_fn(&mut self, src: &[u8], idx: usize) {
        let mut l = Lx { s: src, p: 6, line: true };
        let mut fp = FnParse { names: HashMap::new(), tys: vec![] };
        self.skip_attrs(&mut l);
        let rt = self.parse_ty(&mut l);
        l.expect(b'@');
        let _ = l.name();
        l.expect(b'(');
        let mut unnamed = 0u32;
        let mut params = vec![];
        if l.peek() != b')' {
            loop {
                if l.peek() == b'.' {
                    l.p += 3;
                    break;
                }
                let t = self.parse_ty(&mut l);
                self.skip_attrs(&mut l);
                let id = if l.eat(b'%') {
                    let n = l.name();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1
                    }
                    fp.id(n)
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    fp.id(n)
                };
                fp.tys[id as usize] = Some(t);
                params.push((id, t));
                if !l.eat(b',') {
                    break;
                }
            }
        }
        l.expect(b')');
        // to the opening brace at the end of line
        while l.s[l.p] != b'\n' {
            l.p += 1
        }
        l.p += 1;
        // blocks
        let mut blocks: Vec<(String, Vec<AInst>)> = vec![];
        let mut cur: Option<(String, Vec<AInst>)> = None;
        loop {
            // skip blank lines
            while l.p < src.len() && (src[l.p] == b'\n') {
                l.p += 1
            }
            if l.p >= src.len() || src[l.p] == b'}' {
                break;
            }
            if src[l.p] == b';' {
                while l.p < src.len() && src[l.p] != b'\n' {
                    l.p += 1
                }
                continue;
            }
            if src[l.p] != b' ' {
                // label
                let n = if src[l.p] == b'"' {
                    String::from_utf8_lossy(&l.qstr()).into_owned()
                } else {
                    l.name()
                };
                l.expect(b':');
                if let Some(b) = cur.take() {
                    blocks.push(b)
                }
                cur = Some((n, vec![]));
                while src[l.p] != b'\n' {
                    l.p += 1
                }
                continue;
            }
            if cur.is_none() {
                cur = Some((unnamed.to_string(), vec![]));
            }
            // debug records
            l.ws();
            if src[l.p] == b'#' {
                l.rest_dbg();
                continue;
            }
            let ins = self.parse_inst(&mut l, &mut fp);
            if let Some(i) = ins {
                cur.as_mut().unwrap().1.push(i)
            }
        }
        if let Some(b) = cur.take() {
            blocks.push(b)
        }
        self.lower(idx, rt, params, fp, blocks);
    }

    fn parse_inst(&mut self, l: &mut Lx, f: &mut FnParse) -> Option<AInst> {
        let mut res = None;
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.name();
            res = Some(f.id(n));
            l.expect(b'=');
        }
        let mut op = l.word().to_string();
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = l.word().to_string();
        }
        let mut rty: Option<TyId> = None;
        let mut dbg = 0;
        let kind = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(l.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    l.word();
                }
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let b = self.parse_val(l, t, f);
                rty = Some(t);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                K::Bin(o, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    l.word();
                }
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                let b = if op != "fneg" {
                    l.expect(b',');
                    self.parse_val(l, t, f)
                } else {
                    V::C(Const::Zero)
                };
                rty = Some(t);
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    "frem" => FOp::Rem,
                    _ => FOp::Neg,
                };
                K::FBin(o, t, a, b)
            }
            "icmp" => {
                if l.peek_word() == "samesign" {
                    l.word();
                }
                let p = match l.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let b = self.parse_val(l, t, f);
                let i1 = self.ty(Ty::Int(1));
                rty = Some(match self.types[t as usize] {
                    Ty::Vector(n, _) => self.ty(Ty::Vector(n, i1)),
                    _ => i1,
                });
                K::ICmp(p, t, a, b)
            }
            "fcmp" => {
                while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    l.word();
                }
                let names = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
                let w = l.word();
                let p = names.iter().position(|x| *x == w).unwrap() as u8;
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let b = self.parse_val(l, t, f);
                rty = Some(self.ty(Ty::Int(1)));
                K::FCmp(p, t, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" | "addrspacecast" => {
                while matches!(l.peek_word(), "nneg" | "nuw" | "nsw" | "samesign") {
                    l.word();
                }
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                assert!(l.eat_word("to"), "{}", l.ctx());
                let d = self.parse_ty(l);
                rty = Some(d);
                K::Cast(op.clone(), t, a, d)
            }
            "select" => {
                while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    l.word();
                }
                let ct = self.parse_ty(l);
                let c = self.parse_val(l, ct, f);
                l.expect(b',');
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = self.parse_val(l, t2, f);
                rty = Some(t);
                K::Select(ct, c, t, a, b)
            }
            "load" => {
                while matches!(l.peek_word(), "atomic" | "volatile") {
                    l.word();
                }
                let t = self.parse_ty(l);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let p = self.parse_val(l, pt, f);
                rty = Some(t);
                K::Load(t, p)
            }
            "store" => {
                while matches!(l.peek_word(), "atomic" | "volatile") {
                    l.word();
                }
                let t = self.parse_ty(l);
                let v = self.parse_val(l, t, f);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let p = self.parse_val(l, pt, f);
                K::Store(t, v, p)
            }
            "getelementptr" => {
                loop {
                    let w = l.peek_word();
                    match w {
                        "inbounds" | "nuw" | "nusw" => {
                            l.word();
                        }
                        _ => break,
                    }
                }
                let st = self.parse_ty(l);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let p = self.parse_val(l, pt, f);
                let mut idx = vec![];
                loop {
                    if l.peek() == b',' {
                        let save = l.p;
                        l.p += 1;
                        if l.peek() == b'!' {
                            l.p = save;
                            break;
                        }
                        let it = self.parse_ty(l);
                        idx.push((it, self.parse_val(l, it, f)));
                    } else {
                        break;
                    }
                }
                rty = Some(self.ty(Ty::Ptr));
                K::Gep(st, p, idx)
            }
            "alloca" => {
                let t = self.parse_ty(l);
                let mut sz = self.size(t);
                let mut al = self.align(t) as u32;
                while l.peek() == b',' {
                    l.p += 1;
                    if l.peek() == b'!' {
                        l.p -= 1;
                        break;
                    }
                    if l.eat_word("align") {
                        al = l.int() as u32;
                    } else {
                        let ct = self.parse_ty(l);
                        let n = match self.parse_val(l, ct, f) {
                            V::C(c) => self.eval_scalar(&c, ct) as u64,
                            _ => panic!("dynamic alloca"),
                        };
                        sz *= n;
                    }
                }
                rty = Some(self.ty(Ty::Ptr));
                K::Alloca(sz, al)
            }
            "br" => {
                if l.peek_word() == "label" {
                    l.word();
                    l.expect(b'%');
                    K::Br(l.name())
                } else {
                    let t = self.parse_ty(l);
                    let c = self.parse_val(l, t, f);
                    l.expect(b',');
                    l.eat_word("label");
                    l.expect(b'%');
                    let a = l.name();
                    l.expect(b',');
                    l.eat_word("label");
                    l.expect(b'%');
                    let b = l.name();
                    K::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.parse_ty(l);
                let v = self.parse_val(l, t, f);
                l.expect(b',');
                l.eat_word("label");
                l.expect(b'%');
                let d = l.name();
                l.line = false;
                l.expect(b'[');
                let mut cases = vec![];
                while l.peek() != b']' {
                    let ct = self.parse_ty(l);
                    let c = self.parse_const(l, ct);
                    l.expect(b',');
                    l.eat_word("label");
                    l.expect(b'%');
                    cases.push((c, l.name()));
                }
                l.line = true;
                l.expect(b']');
                K::Switch(t, v, cases, d)
            }
            "call" | "invoke" => {
                self.skip_attrs(l);
                // return type may be followed by a full function type
                let t = self.parse_ty(l);
                if l.peek() == b'(' {
                    // function type: skip
                    l.skip_parens();
                }
                if l.peek_word() == "asm" {
                    l.word();
                    while !l.peek_word().is_empty() {
                        l.word();
                    }
                    l.ws();
                    let s = String::from_utf8_lossy(&l.qstr()).into_owned();
                    dbg = l.rest_dbg();
                    let k = if s.is_empty() { K::Fence } else { K::Other(format!("asm {}", s)) };
                    if let Some(r) = res {
                        f.tys[r as usize] = Some(t);
                    }
                    return Some(AInst { res, kind: k, dbg });
                }
                let pt = self.ty(Ty::Ptr);
                let callee = self.parse_val(l, pt, f);
                l.expect(b'(');
                let mut args = vec![];
                if l.peek() != b')' {
                    loop {
                        let at = self.parse_ty(l);
                        if self.types[at as usize] == Ty::Meta {
                            // skip metadata argument
                            let mut d = 0;
                            loop {
                                match l.s[l.p] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    b'"' => {
                                        l.qstr();
                                        continue;
                                    }
                                    _ => {}
                                }
                                l.p += 1;
                            }
                        } else {
                            self.skip_attrs(l);
                            args.push((at, self.parse_val(l, at, f)));
                        }
                        if !l.eat(b',') {
                            break;
                        }
                    }
                }
                l.expect(b')');
                rty = Some(t);
                let mut normal = None;
                if op == "invoke" {
                    // ... to label %x unwind label %y
                    let at = find(&l.s[l.p..], b"to label %").expect("invoke dest");
                    l.p += at + 10;
                    normal = Some(l.name());
                }
                K::Call(t, callee, args, normal)
            }
            "ret" => {
                let t = self.parse_ty(l);
                if self.types[t as usize] == Ty::Void {
                    K::Ret(t, None)
                } else {
                    let v = self.parse_val(l, t, f);
                    K::Ret(t, Some(v))
                }
            }
            "unreachable" => K::Unreachable,
            "phi" => {
                while matches!(l.peek_word(), "nnan" | "ninf" | "nsz" | "fast") {
                    l.word();
                }
                let t = self.parse_ty(l);
                let mut v = vec![];
                loop {
                    l.expect(b'[');
                    let x = self.parse_val(l, t, f);
                    l.expect(b',');
                    l.expect(b'%');
                    let b = l.name();
                    l.expect(b']');
                    v.push((x, b));
                    if l.peek() == b',' {
                        let save = l.p;
                        l.p += 1;
                        if l.peek() == b'[' {
                            continue;
                        }
                        l.p = save;
                    }
                    break;
                }
                rty = Some(t);
                K::Phi(t, v)
            }
            "extractvalue" => {
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                let mut idx = vec![];
                while l.peek() == b',' {
                    let save = l.p;
                    l.p += 1;
                    if l.peek() == b'!' {
                        l.p = save;
                        break;
                    }
                    idx.push(l.int() as u64);
                }
                rty = Some(self.slot_off(t, &idx).1);
                K::ExtractVal(t, a, idx)
            }
            "insertvalue" => {
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let vt = self.parse_ty(l);
                let v = self.parse_val(l, vt, f);
                let mut idx = vec![];
                while l.peek() == b',' {
                    let save = l.p;
                    l.p += 1;
                    if l.peek() == b'!' {
                        l.p = save;
                        break;
                    }
                    idx.push(l.int() as u64);
                }
                rty = Some(t);
                K::InsertVal(t, a, vt, v, idx)
            }
            "extractelement" => {
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let it = self.parse_ty(l);
                let i = self.parse_val(l, it, f);
                if let Ty::Vector(_, e) = self.types[t as usize] {
                    rty = Some(e)
                }
                K::ExtractEl(t, a, it, i)
            }
            "insertelement" => {
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let vt = self.parse_ty(l);
                let v = self.parse_val(l, vt, f);
                l.expect(b',');
                let it = self.parse_ty(l);
                let i = self.parse_val(l, it, f);
                rty = Some(t);
                K::InsertEl(t, a, vt, v, it, i)
            }
            "shufflevector" => {
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = self.parse_val(l, t2, f);
                l.expect(b',');
                let mt = self.parse_ty(l);
                let m = self.parse_const(l, mt);
                if let (Ty::Vector(_, e), Ty::Vector(n, _)) = (self.types[t as usize].clone(), self.types[mt as usize].clone()) {
                    rty = Some(self.ty(Ty::Vector(n, e)))
                }
                K::Shuffle(t, a, b, mt, m)
            }
            "freeze" => {
                let t = self.parse_ty(l);
                let a = self.parse_val(l, t, f);
                rty = Some(t);
                K::Freeze(t, a)
            }
            "fence" => K::Fence,
            "atomicrmw" => {
                while matches!(l.peek_word(), "volatile") {
                    l.word();
                }
                let o = l.word().to_string();
                let pt = self.parse_ty(l);
                let p = self.parse_val(l, pt, f);
                l.expect(b',');
                let t = self.parse_ty(l);
                let v = self.parse_val(l, t, f);
                rty = Some(t);
                K::AtomicRmw(o, p, t, v)
            }
            "cmpxchg" => {
                while matches!(l.peek_word(), "volatile" | "weak") {
                    l.word();
                }
                let pt = self.parse_ty(l);
                let p = self.parse_val(l, pt, f);
                l.expect(b',');
                let t = self.parse_ty(l);
                let c = self.parse_val(l, t, f);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let v = self.parse_val(l, t2, f);
                let i1 = self.ty(Ty::Int(1));
                rty = Some(self.ty(Ty::Struct(vec![t, i1], false)));
                K::CmpXchg(p, t, c, v)
            }
            "landingpad" => {
                let t = self.parse_ty(l);
                rty = Some(t);
                // following lines: cleanup / catch / filter
                loop {
                    l.rest_dbg();
                    let save = l.p;
                    l.line = false;
                    let w = l.peek_word();
                    l.line = true;
                    if matches!(w, "cleanup" | "catch" | "filter") {
                        continue;
                    }
                    l.p = save;
                    break;
                }
                if let Some(r) = res {
                    f.tys[r as usize] = rty;
                }
                return Some(AInst { res, kind: K::Other("landingpad".into()), dbg: 0 });
            }
            "resume" => {
                l.rest_dbg();
                return Some(AInst { res, kind: K::Unreachable, dbg: 0 });
            }
            x => panic!("instruction {:?} at {}", x, l.ctx()),
        };
        let d2 = l.rest_dbg();
        if d2 != 0 {
            dbg = d2;
        }
        if let Some(r) = res {
            f.tys[r as usize] = rty;
        }
        Some(AInst { res, kind, dbg })
    }

    fn lower(&mut self, idx: usize, rt: TyId, params: Vec<(u32, TyId)>, fp: FnParse, blocks: Vec<(String, Vec<AInst>)>) {
        let mut slot = vec![u32::MAX; fp.tys.len()];
        let mut n = 0u32;
        for (id, t) in &params {
            slot[*id as usize] = n;
            n += self.nslots(*t);
        }
        let nparams = n;
        for (i, t) in fp.tys.iter().enumerate() {
            if slot[i] == u32::MAX {
                if let Some(t) = t {
                    slot[i] = n;
                    n += self.nslots(*t);
                }
            }
        }
        let mut f = Func { name: self.funcs[idx].name.clone(), nparams, nslots: n, ..Default::default() };
        f.ret_n = self.nslots(rt);
        f.blk_base = self.nblocks;
        self.nblocks += blocks.len() as u32;
        let bidx: HashMap<&str, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.as_str(), i)).collect();
        // (edge index, from block, to block) fixups
        let mut fix: Vec<(usize, usize, usize)> = vec![];
        let mut bstart = vec![0u32; blocks.len()];
        for (bi, (_, insts)) in blocks.iter().enumerate() {
            bstart[bi] = f.code.len() as u32;
            for ins in insts {
                if DEBUG_LOWER {
                    let undef: Vec<&String> = fp.names.iter().filter(|(_, &i)| slot[i as usize] == u32::MAX).map(|x| x.0).collect();
                    eprintln!("undef {:?}", undef);
                    eprintln!("{} {}", f.name, blocks[bi].0);
                }
                self.lower_inst(&mut f, ins, &slot, &fp, bi, &bidx, &mut fix);
            }
        }
        // edges with phi moves
        for (ei, from, to) in fix {
            let fname = blocks[from].0.as_str();
            let start = f.moves.len() as u32;
            for ins in &blocks[to].1 {
                if let K::Phi(t, inc) = &ins.kind {
                    let d = slot[ins.res.unwrap() as usize];
                    let v = &inc.iter().find(|x| x.1 == fname).unwrap_or_else(|| panic!("phi edge {} {}", fname, f.name)).0;
                    let k = self.nslots(*t);
                    let a = self.opnd(v, *t, &slot);
                    for j in 0..k {
                        if d + j != a.wrapping_add(j) {
                            f.moves.push((d + j, a + j));
                        }
                    }
                } else {
                    break;
                }
            }
            let nm = f.moves.len() as u32 - start;
            f.edges[ei] = Edge { pc: bstart[to], moves: start, n: nm, blk: to as u32 };
        }
        f.blk_start = bstart;
        self.funcs[idx] = f;
    }

    fn opnd(&mut self, v: &V, t: TyId, slot: &[u32]) -> Op {
        match v {
            V::Local(i) => {
                let s = slot[*i as usize];
                assert!(s != u32::MAX, "undefined local");
                s
            }
            V::C(c) => {
                if self.nslots(t) == 1 && !matches!(self.types[t as usize], Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) {
                    let x = self.eval_scalar(c, t);
                    self.cpool(x)
                } else {
                    let mut out = vec![];
                    self.flatten(c, t, &mut out);
                    let i = self.consts.len() as u32;
                    if out.is_empty() {
                        return CBIT;
                    }
                    for x in out {
                        self.consts.push(Reg { lo: x as u64, hi: (x >> 64) as u64, s: 0 });
                    }
                    i | CBIT
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn lower_inst(&mut self, f: &mut Func, ins: &AInst, slot: &[u32], fp: &FnParse, bi: usize, bidx: &HashMap<&str, usize>, fix: &mut Vec<(usize, usize, usize)>) {
        let d = ins.res.map(|r| slot[r as usize]).unwrap_or(0);
        let mut edge = |f: &mut Func, name: &str| -> u32 {
            let ei = f.edges.len();
            f.edges.push(Edge { pc: 0, moves: 0, n: 0, blk: 0 });
            fix.push((ei, bi, *bidx.get(name).unwrap_or_else(|| panic!("label {} in {}", name, f.name))));
            ei as u32
        };
        let isvec = |m: &Module, t: TyId| -> Option<(u32, TyId)> {
            if let Ty::Vector(n, e) = m.types[t as usize] {
                Some((n, e))
            } else {
                None
            }
        };
        let dbg = ins.dbg;
        macro_rules! emit {
            ($f:expr,$i:expr) => {{
                $f.code.push($i);
                $f.dbg.push(dbg);
            }};
        }
        match &ins.kind {
            K::Phi(..) => {}
            K::Bin(op, t, a, b) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(b, *t, slot);
                if let Some((n, e)) = isvec(self, *t) {
                    let w = self.scalar_w(e) as u8;
                    emit!(f, Inst::VBin { op: *op, w, n, d, a: x, b: y });
                } else {
                    let w = self.scalar_w(*t);
                    assert!(w <= 128);
                    emit!(f, Inst::Bin { op: *op, w: w as u8, d, a: x, b: y });
                }
            }
            K::FBin(op, t, a, b) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(b, *t, slot);
                if isvec(self, *t).is_some() {
                    f.msgs.push("vector float".into());
                    emit!(f, Inst::Unsupported { msg: f.msgs.len() as u32 - 1 });
                } else {
                    let dbl = self.scalar_w(*t) == 64;
                    emit!(f, Inst::FBin { op: *op, dbl, d, a: x, b: y });
                }
            }
            K::ICmp(p, t, a, b) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(b, *t, slot);
                if let Some((n, e)) = isvec(self, *t) {
                    let w = self.scalar_w(e) as u8;
                    emit!(f, Inst::VICmp { p: *p, w, n, d, a: x, b: y });
                } else {
                    let w = self.scalar_w(*t) as u8;
                    emit!(f, Inst::ICmp { p: *p, w, d, a: x, b: y });
                }
            }
            K::FCmp(p, t, a, b) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(b, *t, slot);
                let dbl = self.scalar_w(*t) == 64;
                emit!(f, Inst::FCmp { p: *p, dbl, d, a: x, b: y });
            }
            K::Cast(op, t, a, dt) => {
                let x = self.opnd(a, *t, slot);
                let fc = match op.as_str() {
                    "sitofp" => Some(FCast::SiToFp),
                    "uitofp" => Some(FCast::UiToFp),
                    "fptosi" => Some(FCast::FpToSi),
                    "fptoui" => Some(FCast::FpToUi),
                    "fpext" => Some(FCast::FpExt),
                    "fptrunc" => Some(FCast::FpTrunc),
                    _ => None,
                };
                if let Some(op) = fc {
                    let (from, to) = (self.scalar_w(*t) as u8, self.scalar_w(*dt) as u8);
                    emit!(f, Inst::FConv { op, from, to, d, a: x });
                    return;
                }
                let co = match op.as_str() {
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "trunc" => CastOp::Trunc,
                    _ => CastOp::Bit,
                };
                let va = isvec(self, *t);
                let vd = isvec(self, *dt);
                if co == CastOp::Bit && (va.is_some() || vd.is_some()) {
                    let (n, aw) = va.map(|(n, e)| (n, self.scalar_w(e))).unwrap_or_else(|| (1, self.scalar_w(*t)));
                    let (dn, dw) = vd.map(|(n, e)| (n, self.scalar_w(e))).unwrap_or_else(|| (1, self.scalar_w(*dt)));
                    emit!(f, Inst::VBitcast { d, dn, dw: dw as u8, a: x, n, aw: aw as u8 });
                } else if let (Some((n, e1)), Some((_, e2))) = (va, vd) {
                    let (from, to) = (self.scalar_w(e1) as u8, self.scalar_w(e2) as u8);
                    emit!(f, Inst::VCast { op: co, from, to, n, d, a: x });
                } else {
                    let (from, to) = (self.scalar_w(*t) as u8, self.scalar_w(*dt) as u8);
                    let co = if co == CastOp::Bit {
                        if from > to {
                            CastOp::Trunc
                        } else if from < to {
                            CastOp::Zext
                        } else {
                            CastOp::Bit
                        }
                    } else {
                        co
                    };
                    if co == CastOp::Bit {
                        emit!(f, Inst::Copy { d, a: x, n: 1 });
                    } else {
                        emit!(f, Inst::Cast { op: co, from, to, d, a: x });
                    }
                }
            }
            K::Select(ct, c, t, a, b) => {
                let co = self.opnd(c, *ct, slot);
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(b, *t, slot);
                let n = self.nslots(*t);
                if isvec(self, *ct).is_some() {
                    let w = isvec(self, *t).map(|x| self.scalar_w(x.1)).unwrap() as u8;
                    emit!(f, Inst::VSelect { d, c: co, a: x, b: y, n, w });
                } else {
                    let w0 = if n == 1 && !matches!(self.types[*t as usize], Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) { self.scalar_w(*t) as u8 } else { 0 };
                    emit!(f, Inst::Select { d, c: co, a: x, b: y, n, w0 });
                }
            }
            K::Load(t, p) => {
                let pt = self.ty(Ty::Ptr);
                let po = self.opnd(p, pt, slot);
                match self.types[*t as usize] {
                    Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                        let w = self.scalar_w(*t) as u8;
                        emit!(f, Inst::Load { d, p: po, w });
                    }
                    _ => {
                        let st = f.leaves.len() as u32;
                        let mut v = vec![];
                        self.leaves(*t, 0, &mut v);
                        let n = v.len() as u32;
                        if matches!(self.types[*t as usize], Ty::Vector(_, e) if self.scalar_w(e) < 8) {
                            // packed bits: an integer load, then a bitcast
                            let (ln, ew) = isvec(self, *t).map(|x| (x.0 as u32, self.scalar_w(x.1))).unwrap();
                            let bits = ln * ew;
                            let tmp = f.nslots;
                            f.nslots += 1;
                            emit!(f, Inst::Load { d: tmp, p: po, w: bits as u8 });
                            emit!(f, Inst::VBitcast { d, dn: ln, dw: ew as u8, a: tmp, n: 1, aw: bits as u8 });
                            return;
                        }
                        f.leaves.extend(v);
                        emit!(f, Inst::LoadAgg { d, p: po, leaves: st, n });
                    }
                }
            }
            K::Store(t, v, p) => {
                let pt = self.ty(Ty::Ptr);
                let po = self.opnd(p, pt, slot);
                let vo = self.opnd(v, *t, slot);
                match self.types[*t as usize] {
                    Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                        let w = self.scalar_w(*t) as u8;
                        emit!(f, Inst::Store { v: vo, p: po, w });
                    }
                    _ => {
                        if matches!(self.types[*t as usize], Ty::Vector(_, e) if self.scalar_w(e) < 8) {
                            let (ln, ew) = isvec(self, *t).map(|x| (x.0 as u32, self.scalar_w(x.1))).unwrap();
                            let bits = ln * ew;
                            let tmp = f.nslots;
                            f.nslots += 1;
                            emit!(f, Inst::VBitcast { d: tmp, dn: 1, dw: bits as u8, a: vo, n: ln, aw: ew as u8 });
                            emit!(f, Inst::Store { v: tmp, p: po, w: bits as u8 });
                            return;
                        }
                        let st = f.leaves.len() as u32;
                        let mut l = vec![];
                        self.leaves(*t, 0, &mut l);
                        let n = l.len() as u32;
                        f.leaves.extend(l);
                        emit!(f, Inst::StoreAgg { v: vo, p: po, leaves: st, n });
                    }
                }
            }
            K::Gep(st, p, idx) => {
                let pt = self.ty(Ty::Ptr);
                let po = self.opnd(p, pt, slot);
                let mut off = 0i64;
                let mut terms: Vec<(Op, u8, i64)> = vec![];
                let mut cur = *st;
                for (k, (it, iv)) in idx.iter().enumerate() {
                    let cst = match iv {
                        V::C(c) => {
                            let iw = self.scalar_w(*it);
                            let raw = self.eval_scalar(c, *it);
                            Some(if iw < 64 { ((raw as i64) << (64 - iw)) >> (64 - iw) } else { raw as i64 })
                        }
                        _ => None,
                    };
                    let scale;
                    if k == 0 {
                        scale = self.size(cur) as i64;
                    } else {
                        match self.types[cur as usize].clone() {
                            Ty::Struct(fs, _) => {
                                let i = cst.unwrap() as usize;
                                off += self.field_off(cur, i) as i64;
                                cur = fs[i];
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = self.size(e) as i64;
                                cur = e;
                            }
                            _ => panic!("gep"),
                        }
                    }
                    if let Some(c) = cst {
                        off += c * scale;
                    } else {
                        let o = self.opnd(iv, *it, slot);
                        terms.push((o, self.scalar_w(*it) as u8, scale));
                    }
                }
                match terms.len() {
                    0 => emit!(f, Inst::GepC { d, p: po, off }),
                    1 => emit!(f, Inst::Gep1 { d, p: po, off, i: terms[0].0, iw: terms[0].1, scale: terms[0].2 }),
                    _ => {
                        let s = f.terms.len() as u32;
                        let n = terms.len() as u32;
                        f.terms.extend(terms);
                        emit!(f, Inst::GepN { d, p: po, off, terms: s, n })
                    }
                }
            }
            K::Alloca(sz, al) => emit!(f, Inst::Alloca { d, size: *sz, align: *al }),
            K::Br(n) => {
                let e = edge(f, n);
                emit!(f, Inst::Br { e })
            }
            K::CondBr(c, a, b) => {
                let i1 = self.ty(Ty::Int(1));
                let co = self.opnd(c, i1, slot);
                let t = edge(f, a);
                let fe = edge(f, b);
                emit!(f, Inst::CondBr { c: co, t, f: fe })
            }
            K::Switch(t, v, cases, def) => {
                let vo = self.opnd(v, *t, slot);
                let w = self.scalar_w(*t) as u8;
                let mut emap: HashMap<String, u32> = HashMap::new();
                let mut tab = vec![];
                for (c, n) in cases {
                    let e = match emap.get(n) {
                        Some(e) => *e,
                        None => {
                            let e = edge(f, n);
                            emap.insert(n.clone(), e);
                            e
                        }
                    };
                    tab.push((self.eval_scalar(c, *t), e));
                }
                let de = match emap.get(def) {
                    Some(e) => *e,
                    None => edge(f, def),
                };
                tab.sort();
                f.switches.push((tab, de));
                emit!(f, Inst::Switch { v: vo, w, tab: f.switches.len() as u32 - 1 })
            }
            K::Call(t, callee, args, normal) => {
                let dn = self.nslots(*t);
                let cal = match callee {
                    V::C(Const::Global(n)) => {
                        if let Some(&i) = self.fidx.get(n) {
                            Callee::Direct(i)
                        } else if n.starts_with("llvm.") {
                            Callee::Intrinsic(intrinsic(n))
                        } else {
                            self.ext_names.push(n.clone());
                            Callee::External(external(n), self.ext_names.len() as u32 - 1)
                        }
                    }
                    v => {
                        let pt = self.ty(Ty::Ptr);
                        Callee::Indirect(self.opnd(v, pt, slot))
                    }
                };
                if let Callee::Intrinsic(Intr::Nop) = cal {
                    if let Some(n) = normal {
                        let e = edge(f, n);
                        emit!(f, Inst::Br { e });
                    }
                    return;
                }
                let st = f.args.len() as u32;
                let mut ops = vec![];
                let mut w = 0u8;
                for (i, (at, av)) in args.iter().enumerate() {
                    let n = self.nslots(*at);
                    let o = self.opnd(av, *at, slot);
                    if i == 0 {
                        w = match self.types[*at as usize] {
                            Ty::Int(x) => x as u8,
                            Ty::Ptr | Ty::Double => 64,
                            Ty::Float => 32,
                            Ty::Vector(_, e) => self.scalar_w(e) as u8,
                            _ => 0,
                        };
                    }
                    for j in 0..n {
                        ops.push(o + j);
                    }
                }
                // for cmp/sat-to-int style intrinsics the width of the result matters
                if let Callee::Intrinsic(Intr::FptoSiSat | Intr::FptoUiSat) = cal {
                    let rw = self.scalar_w(*t);
                    let c = self.cpool(rw as u128);
                    ops.push(c);
                }
                let isv = matches!(self.types[*t as usize], Ty::Vector(..));
                let nargs = ops.len() as u32;
                f.args.extend(ops);
                if isv && matches!(cal, Callee::Intrinsic(_)) {
                    f.msgs.push("vector intrinsic".into());
                    emit!(f, Inst::Unsupported { msg: f.msgs.len() as u32 - 1 });
                } else {
                    f.callees.push(cal);
                    emit!(f, Inst::Call { d, callee: f.callees.len() as u32 - 1, args: st, nargs, dn, w });
                }
                if let Some(n) = normal {
                    let e = edge(f, n);
                    emit!(f, Inst::Br { e });
                }
            }
            K::Ret(t, v) => {
                let n = self.nslots(*t);
                let a = match v {
                    Some(v) => self.opnd(v, *t, slot),
                    None => 0,
                };
                emit!(f, Inst::Ret { a, n })
            }
            K::Unreachable => emit!(f, Inst::Unreachable),
            K::ExtractVal(t, a, idx) => {
                let x = self.opnd(a, *t, slot);
                let (o, ft) = self.slot_off(*t, idx);
                let n = self.nslots(ft);
                emit!(f, Inst::Copy { d, a: x + o, n })
            }
            K::InsertVal(t, a, vt, v, idx) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(v, *vt, slot);
                let (o, _) = self.slot_off(*t, idx);
                let n = self.nslots(*t);
                let vn = self.nslots(*vt);
                emit!(f, Inst::InsertVal { d, a: x, n, v: y, vn, off: o })
            }
            K::ExtractEl(t, a, it, i) => {
                let x = self.opnd(a, *t, slot);
                let io = self.opnd(i, *it, slot);
                let n = self.nslots(*t);
                emit!(f, Inst::ExtractEl { d, a: x, n, i: io })
            }
            K::InsertEl(t, a, vt, v, it, i) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(v, *vt, slot);
                let io = self.opnd(i, *it, slot);
                let n = self.nslots(*t);
                emit!(f, Inst::InsertEl { d, a: x, n, v: y, i: io })
            }
            K::Shuffle(t, a, b, mt, m) => {
                let x = self.opnd(a, *t, slot);
                let y = self.opnd(b, *t, slot);
                let an = self.nslots(*t);
                let mut out = vec![];
                self.flatten(m, *mt, &mut out);
                let s = f.masks.len() as u32;
                let n = out.len() as u32;
                f.masks.extend(out.iter().map(|x| *x as i32));
                emit!(f, Inst::Shuffle { d, a: x, b: y, an, mask: s, n })
            }
            K::Freeze(t, a) => {
                let x = self.opnd(a, *t, slot);
                let n = self.nslots(*t);
                emit!(f, Inst::Copy { d, a: x, n })
            }
            K::AtomicRmw(o, p, t, v) => {
                let pt = self.ty(Ty::Ptr);
                let po = self.opnd(p, pt, slot);
                let vo = self.opnd(v, *t, slot);
                let w = self.scalar_w(*t) as u8;
                let op = match o.as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    x => panic!("atomicrmw {}", x),
                };
                emit!(f, Inst::AtomicRmw { d, p: po, v: vo, w, op })
            }
            K::CmpXchg(p, t, c, v) => {
                let pt = self.ty(Ty::Ptr);
                let po = self.opnd(p, pt, slot);
                let co = self.opnd(c, *t, slot);
                let vo = self.opnd(v, *t, slot);
                let w = self.scalar_w(*t) as u8;
                emit!(f, Inst::CmpXchg { d, p: po, c: co, v: vo, w })
            }
            K::Fence => {}
            K::Other(s) => {
                f.msgs.push(s.clone());
                emit!(f, Inst::Unsupported { msg: f.msgs.len() as u32 - 1 })
            }
        }
        let _ = fp;
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
fn find(s: &[u8], pat: &[u8]) -> Option<usize> {
    if s.len() < pat.len() {
        return None;
    }
    (0..=s.len() - pat.len()).find(|&i| s[i] == pat[0] && &s[i..i + pat.len()] == pat)
}
fn rfind(s: &[u8], pat: &[u8]) -> Option<usize> {
    if s.len() < pat.len() {
        return None;
    }
    (0..=s.len() - pat.len()).rev().find(|&i| s[i] == pat[0] && &s[i..i + pat.len()] == pat)
}
fn fn_name(s: &[u8]) -> String {
    let p = find(s, b"@").unwrap();
    let mut l = Lx { s, p: p + 1, line: false };
    l.name()
}

fn intrinsic(n: &str) -> Intr {
    let b = &n[5..];
    let st = |p: &str| b.starts_with(p);
    if st("lifetime") || st("assume") || st("experimental.noalias") || st("dbg.") || st("donothing") || st("prefetch") || st("x86.sse2.pause") || st("invariant") {
        return Intr::Nop;
    }
    if st("memcpy") || st("memmove") {
        return Intr::Memcpy;
    }
    if st("memset") {
        return Intr::Memset;
    }
    let t: &[(&str, Intr)] = &[
        ("umax.", Intr::Umax),
        ("umin.", Intr::Umin),
        ("smax.", Intr::Smax),
        ("smin.", Intr::Smin),
        ("bswap.", Intr::Bswap),
        ("bitreverse.", Intr::Bitreverse),
        ("usub.sat.", Intr::UsubSat),
        ("uadd.sat.", Intr::UaddSat),
        ("ssub.sat.", Intr::SsubSat),
        ("sadd.sat.", Intr::SaddSat),
        ("uadd.with.overflow", Intr::UaddOv),
        ("usub.with.overflow", Intr::UsubOv),
        ("umul.with.overflow", Intr::UmulOv),
        ("sadd.with.overflow", Intr::SaddOv),
        ("ssub.with.overflow", Intr::SsubOv),
        ("smul.with.overflow", Intr::SmulOv),
        ("cttz.", Intr::Cttz),
        ("ctlz.", Intr::Ctlz),
        ("ctpop.", Intr::Ctpop),
        ("abs.", Intr::Abs),
        ("fshl.", Intr::Fshl),
        ("fshr.", Intr::Fshr),
        ("ucmp.", Intr::Ucmp),
        ("scmp.", Intr::Scmp),
        ("expect.", Intr::CopyArg0),
        ("is.constant", Intr::IsConstant),
        ("threadlocal.address", Intr::CopyArg0),
        ("load.relative", Intr::LoadRelative),
        ("trap", Intr::Trap),
        ("fabs.", Intr::FAbs),
        ("floor.", Intr::Floor),
        ("ceil.", Intr::Ceil),
        ("round.", Intr::Round),
        ("trunc.", Intr::TruncF),
        ("fptosi.sat", Intr::FptoSiSat),
        ("fptoui.sat", Intr::FptoUiSat),
        ("vector.reduce.add", Intr::VecReduceAdd),
        ("vector.reduce.or", Intr::VecReduceOr),
        ("vector.reduce.and", Intr::VecReduceAnd),
        ("maxnum.", Intr::MaxNum),
        ("minnum.", Intr::MinNum),
        ("launder.", Intr::CopyArg0),
        ("ptrmask", Intr::Unsupported),
    ];
    for (p, i) in t {
        if st(p) {
            return *i;
        }
    }
    Intr::Unsupported
}

pub fn external(n: &str) -> Ext {
    match n {
        "__sym_bytes" => Ext::SymBytes,
        "__sym_assume" => Ext::SymAssume,
        "__sym_assert" => Ext::SymAssert,
        "__sym_choice" => Ext::SymChoice,
        "__sym_obs" => Ext::SymObs,
        "__sym_reach" => Ext::SymReach,
        "__sym_concretize" => Ext::SymConcretize,
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "aligned_alloc" => Ext::AlignedAlloc,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "strlen" => Ext::Strlen,
        "memcpy" | "memmove" => Ext::MemcpyFn,
        "memchr" => Ext::MemchrFn,
        "memrchr" => Ext::MemrchrFn,
        "abort" | "__assert_fail" => Ext::Abort,
        "getrandom" => Ext::Getrandom,
        "getenv" => Ext::Getenv,
        "sysconf" => Ext::Sysconf,
        "__sym_note" | "pthread_self" | "__cxa_thread_atexit_impl" | "__errno_location" => Ext::RetZero,
        "write" => Ext::Write,
        _ => Ext::Unsupported,
    }
}
