//! LLVM textual IR, parsed lazily per function / per global.
use crate::expr::{mask, sext, Op, Pool};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Other(String),
}
#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    sizes: Vec<(u64, u64)>,
    pub offsets: Vec<Vec<u64>>,
}
impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let mut offs = vec![];
        let sz = match &t {
            Ty::Void | Ty::Other(_) => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => ((*w / 8) as u64, (*w / 8) as u64),
            Ty::Arr(n, e) => {
                let (s, a) = self.sizes[*e as usize];
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[*e as usize] {
                    Ty::Int(w) => w as u64,
                    Ty::Ptr => 64,
                    Ty::Float(w) => w as u64,
                    _ => panic!("vector element"),
                };
                let s = ((bits * n + 7) / 8).max(1);
                (s, s.next_power_of_two())
            }
            Ty::Struct(es, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for &e in es {
                    let (s, a) = self.sizes[e as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    offs.push(o);
                    o += s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        self.sizes.push(sz);
        self.offsets.push(offs);
        i
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.sizes[t as usize].0
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            x => panic!("bits of {:?}", x),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    A(Rc<[Val]>),
}
#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Bin(Op, u32, Opnd, Opnd),
    VBin(Op, u32, Opnd, Opnd),
    Icmp(Pred, u32, Opnd, Opnd),
    VIcmp(Pred, u32, Opnd, Opnd),
    FBin(FOp, u32, Opnd, Opnd),
    FNeg(u32, Opnd),
    Fcmp(String, u32, Opnd, Opnd),
    Cast(CastOp, u32, u32, Opnd),
    VCast(CastOp, u32, u32, Opnd),
    /// bitcast between vector/scalar of given types
    BitCast(TyId, TyId, Opnd),
    Select(TyId, Opnd, Opnd, Opnd),
    Gep(Opnd, i128, Vec<(i128, Opnd, u32)>),
    Load(TyId, Opnd),
    LoadA(TyId, Opnd),
    Store(TyId, Opnd, Opnd),
    StoreA(TyId, Opnd, Opnd),
    Alloca(u64, Opnd),
    Call(Opnd, Vec<(Opnd, TyId)>, TyId),
    Extract(Opnd, Vec<u32>),
    Insert(Opnd, Opnd, Vec<u32>),
    ExtractElem(Opnd, Opnd),
    InsertElem(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<i64>),
    Rmw(RmwOp, TyId, Opnd, Opnd),
    CmpXchg(TyId, Opnd, Opnd, Opnd),
    Copy(Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub k: Kind,
}
pub const NODST: u32 = u32::MAX;
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Body {
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub params: Vec<u32>,
}
pub struct FuncInfo {
    pub name: String,
    /// byte range of "define ... }" or None for declarations
    pub text: Option<(usize, usize)>,
    pub body: RefCell<Option<Rc<Body>>>,
}
pub struct GlobalInfo {
    pub name: String,
    pub line: (usize, usize),
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub types: RefCell<Types>,
    pub funcs: Vec<FuncInfo>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, (usize, usize)>,
}

pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE | ((i as u64) << 4)
}
/// object id of global i is i+1
pub fn global_addr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Int(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta,
    Hash(String),
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                v.push(h(s[i + 1]) << 4 | h(s[i + 2]));
                i += 3;
            }
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                let (name, n);
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&b[i + 2..j])).into_owned();
                    n = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1
                    }
                    name = s[i + 1..j].to_string();
                    n = j;
                }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = n;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::Str(unescape(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(Tok::CStr(unescape(&b[i + 2..j])));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                out.push(Tok::Meta);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1
                }
                out.push(Tok::Hash(s[i + 1..j].to_string()));
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j] == b'-' && (b[j - 1] == b'e'))) {
                    j += 1
                }
                out.push(Tok::Int(s[i..j].to_string()));
                i = j;
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
                    j += 1
                }
                out.push(Tok::Word(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    ctx: &'a str,
}

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &Tok {
        self.i += 1;
        &self.t[self.i - 1]
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("parse: expected '{}' at token {} {:?} in: {}", c, self.i, self.peek(), self.ctx);
        }
    }
    fn word(&mut self) -> String {
        match self.next().clone() {
            Tok::Word(w) => w,
            t => panic!("parse: expected word, got {:?} in: {}", t, self.ctx),
        }
    }
    fn int(&mut self) -> i128 {
        match self.next().clone() {
            Tok::Int(s) => s.parse().unwrap_or_else(|_| panic!("int {} in {}", s, self.ctx)),
            t => panic!("parse: expected int, got {:?} in: {}", t, self.ctx),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn tyget(&self, t: Ty) -> TyId {
        self.m.types.borrow_mut().get(t)
    }
    fn ty(&mut self) -> TyId {
        let t = self.next().clone();
        match t {
            Tok::Word(w) => match w.as_str() {
                "void" => self.tyget(Ty::Void),
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    self.tyget(Ty::Ptr)
                }
                "float" => self.tyget(Ty::Float(32)),
                "double" => self.tyget(Ty::Float(64)),
                "half" => self.tyget(Ty::Float(16)),
                "fp128" => self.tyget(Ty::Float(128)),
                _ => {
                    if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 {
                        let n: u32 = w[1..].parse().unwrap();
                        self.tyget(Ty::Int(n))
                    } else {
                        self.tyget(Ty::Other(w))
                    }
                }
            },
            Tok::P('[') => {
                let n = self.int() as u64;
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.exp_p(']');
                self.tyget(Ty::Arr(n, e))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let es = self.ty_list('}');
                    self.exp_p('>');
                    self.tyget(Ty::Struct(es, true))
                } else {
                    let n = self.int() as u64;
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.exp_p('>');
                    self.tyget(Ty::Vec(n, e))
                }
            }
            Tok::P('{') => {
                let es = self.ty_list('}');
                self.tyget(Ty::Struct(es, false))
            }
            t => panic!("parse type: {:?} in: {}", t, self.ctx),
        }
    }
    fn ty_list(&mut self, close: char) -> Vec<TyId> {
        let mut es = vec![];
        if self.eat_p(close) {
            return es;
        }
        loop {
            es.push(self.ty());
            if self.eat_p(',') {
                continue;
            }
            self.exp_p(close);
            return es;
        }
    }
    fn skip_parens(&mut self) {
        self.exp_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn is_operand_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Local(_)) | Some(Tok::Global(_)) | Some(Tok::Int(_)) | Some(Tok::CStr(_)) => true,
            Some(Tok::P(c)) => matches!(c, '<' | '[' | '{'),
            Some(Tok::Word(w)) => matches!(
                w.as_str(),
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "sub" | "add" | "xor" | "splat" | "bitcast" | "none" | "blockaddress" | "dso_local_equivalent"
            ),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        while !self.is_operand_start() {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Hash(_)) | Some(Tok::Meta) => self.i += 1,
                _ => break,
            }
        }
    }
    fn zero(&self, t: TyId) -> Val {
        let ty = self.m.types.borrow().ty(t).clone();
        match ty {
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A((0..n).map(|_| self.zero(e)).collect()),
            Ty::Struct(es, _) => Val::A(es.iter().map(|&e| self.zero(e)).collect()),
            _ => Val::C(0),
        }
    }
    /// operand of known type
    fn opnd(&mut self, t: TyId) -> Opnd {
        if let Some(Tok::Local(n)) = self.peek().cloned() {
            self.i += 1;
            return Opnd::R(self.reg(&n));
        }
        Opnd::K(self.konst(t))
    }
    fn konst(&mut self, t: TyId) -> Val {
        let tok = self.next().clone();
        match tok {
            Tok::Int(s) => {
                let ty = self.m.types.borrow().ty(t).clone();
                match ty {
                    Ty::Int(w) => {
                        let v: i128 = s.parse().or_else(|_| s.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("int {} in {}", s, self.ctx));
                        Val::C(v as u128 & mask(w))
                    }
                    Ty::Float(w) => {
                        let bits: u64 = if let Some(h) = s.strip_prefix("0x") {
                            let b = u64::from_str_radix(h, 16).unwrap();
                            if w == 32 {
                                (f64::from_bits(b) as f32).to_bits() as u64
                            } else {
                                b
                            }
                        } else {
                            let f: f64 = s.parse().unwrap();
                            if w == 32 {
                                (f as f32).to_bits() as u64
                            } else {
                                f.to_bits()
                            }
                        };
                        Val::C(bits as u128)
                    }
                    _ => panic!("int const for {:?} in {}", ty, self.ctx),
                }
            }
            Tok::CStr(b) => Val::A(b.iter().map(|&c| Val::C(c as u128)).collect()),
            Tok::Global(n) => Val::C(self.m.addr_of(&n) as u128),
            Tok::P('[') => self.agg(t, ']'),
            Tok::P('{') => self.agg(t, '}'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg(t, '}');
                    self.exp_p('>');
                    v
                } else {
                    self.agg(t, '>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "null" | "none" | "false" => Val::C(0),
                "true" => Val::C(1),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => {
                    self.exp_p('(');
                    let et = self.ty();
                    let v = self.konst(et);
                    self.exp_p(')');
                    let ty = self.m.types.borrow().ty(t).clone();
                    match ty {
                        Ty::Vec(n, _) => Val::A((0..n).map(|_| v.clone()).collect()),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if self.is_p('(') && matches!(&self.t[self.i - 1], Tok::Word(x) if x == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.exp_p('(');
                    let st = self.ty();
                    self.exp_p(',');
                    let pt = self.ty();
                    let base = match self.konst(pt) {
                        Val::C(v) => v as i128,
                        _ => panic!(),
                    };
                    let mut off = 0i128;
                    let mut cur = st;
                    let mut first = true;
                    while self.eat_p(',') {
                        let it = self.ty();
                        let w = self.m.types.borrow().bits(it);
                        let idx = match self.konst(it) {
                            Val::C(v) => sext(v, w),
                            _ => panic!(),
                        };
                        let tys = self.m.types.borrow();
                        if first {
                            off += idx * tys.size(st) as i128;
                            first = false;
                        } else {
                            match tys.ty(cur).clone() {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    off += idx * tys.size(e) as i128;
                                    cur = e;
                                }
                                Ty::Struct(es, _) => {
                                    off += tys.offsets[cur as usize][idx as usize] as i128;
                                    cur = es[idx as usize];
                                }
                                x => panic!("gep into {:?}", x),
                            }
                        }
                    }
                    self.exp_p(')');
                    Val::C((base + off) as u128 & mask(64))
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "trunc" | "bitcast" => {
                    self.exp_p('(');
                    let ft = self.ty();
                    let v = self.konst(ft);
                    assert!(self.eat_w("to"));
                    let tt = self.ty();
                    self.exp_p(')');
                    let w = self.m.types.borrow().bits(tt);
                    match v {
                        Val::C(x) => Val::C(x & mask(w)),
                        _ => panic!(),
                    }
                }
                "sub" | "add" | "xor" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(');
                    let at = self.ty();
                    let a = self.konst(at);
                    self.exp_p(',');
                    let bt = self.ty();
                    let b = self.konst(bt);
                    self.exp_p(')');
                    let w2 = self.m.types.borrow().bits(at);
                    let op = match w.as_str() {
                        "sub" => Op::Sub,
                        "add" => Op::Add,
                        _ => Op::Xor,
                    };
                    match (a, b) {
                        (Val::C(x), Val::C(y)) => Val::C(Pool::fold(op, w2, x, y)),
                        _ => panic!(),
                    }
                }
                _ if w.starts_with("f0x") || w.starts_with("d0x") => Val::C(u64::from_str_radix(&w[3..], 16).unwrap_or_else(|_| panic!("constant '{}' in: {}", w, self.ctx)) as u128),
                _ => panic!("constant '{}' in: {}", w, self.ctx),
            },
            t => panic!("constant {:?} in: {}", t, self.ctx),
        }
    }
    fn agg(&mut self, _t: TyId, close: char) -> Val {
        let mut v = vec![];
        if self.eat_p(close) {
            return Val::A(v.into());
        }
        loop {
            let et = self.ty();
            v.push(self.konst(et));
            if self.eat_p(',') {
                continue;
            }
            self.exp_p(close);
            break;
        }
        Val::A(v.into())
    }
    fn lab(&mut self) -> u32 {
        assert!(self.eat_w("label"), "label in {}", self.ctx);
        match self.next().clone() {
            Tok::Local(n) => self.label(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn tyopnd(&mut self) -> (TyId, Opnd) {
        let t = self.ty();
        self.skip_attrs();
        let o = self.opnd(t);
        (t, o)
    }
    fn vec_of(&self, t: TyId) -> Option<(u64, TyId)> {
        match self.m.types.borrow().ty(t) {
            Ty::Vec(n, e) => Some((*n, *e)),
            _ => None,
        }
    }
    fn bits(&self, t: TyId) -> u32 {
        self.m.types.borrow().bits(t)
    }
    fn flags(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "samesign" | "inbounds" | "nusw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inalloca" | "inrange") => {
                    let r = w == "inrange";
                    self.i += 1;
                    if r && self.is_p('(') {
                        self.skip_parens();
                    }
                }
                _ => break,
            }
        }
    }
    fn inst(&mut self) -> Option<Inst> {
        let mut dst = NODST;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.t.get(self.i).cloned(), self.t.get(self.i + 1)) {
            dst = self.reg(&n);
            self.i += 2;
        }
        if matches!(self.peek(), Some(Tok::Hash(_))) {
            return None; // debug record
        }
        let mut op = self.word();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = self.word();
        }
        let k = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(t);
                self.exp_p(',');
                let b = self.opnd(t);
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                if let Some((_, e)) = self.vec_of(t) {
                    Kind::VBin(o, self.bits(e), a, b)
                } else {
                    Kind::Bin(o, self.bits(t), a, b)
                }
            }
            "icmp" => {
                self.flags();
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    _ => Pred::Sle,
                };
                let t = self.ty();
                let a = self.opnd(t);
                self.exp_p(',');
                let b = self.opnd(t);
                if let Some((_, e)) = self.vec_of(t) {
                    Kind::VIcmp(p, self.bits(e), a, b)
                } else {
                    Kind::Icmp(p, self.bits(t), a, b)
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(t);
                self.exp_p(',');
                let b = self.opnd(t);
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Kind::FBin(o, self.bits(t), a, b)
            }
            "fneg" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(t);
                Kind::FNeg(self.bits(t), a)
            }
            "fcmp" => {
                self.flags();
                let p = self.word();
                let t = self.ty();
                let a = self.opnd(t);
                self.exp_p(',');
                let b = self.opnd(t);
                Kind::Fcmp(p, self.bits(t), a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                self.flags();
                let ft = self.ty();
                let a = self.opnd(ft);
                assert!(self.eat_w("to"));
                let tt = self.ty();
                if op == "bitcast" {
                    Kind::BitCast(ft, tt, a)
                } else {
                    let vec = self.vec_of(ft);
                    let (f, t) = match vec {
                        Some((_, e)) => (self.bits(e), self.bits(self.vec_of(tt).unwrap().1)),
                        None => (self.bits(ft), self.bits(tt)),
                    };
                    let c = match op.as_str() {
                        "trunc" => CastOp::Trunc,
                        "zext" => CastOp::ZExt,
                        "sext" => CastOp::SExt,
                        "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                            if f > t {
                                CastOp::Trunc
                            } else if f < t {
                                CastOp::ZExt
                            } else {
                                CastOp::Bit
                            }
                        }
                        "uitofp" => CastOp::UiToFp,
                        "sitofp" => CastOp::SiToFp,
                        "fptoui" => CastOp::FpToUi,
                        "fptosi" => CastOp::FpToSi,
                        "fpext" => CastOp::FpExt,
                        _ => CastOp::FpTrunc,
                    };
                    if vec.is_some() {
                        Kind::VCast(c, f, t, a)
                    } else {
                        Kind::Cast(c, f, t, a)
                    }
                }
            }
            "select" => {
                self.flags();
                let (_, c) = self.tyopnd();
                self.exp_p(',');
                let (t, a) = self.tyopnd();
                self.exp_p(',');
                let (_, b) = self.tyopnd();
                Kind::Select(t, c, a, b)
            }
            "freeze" => {
                let (_, a) = self.tyopnd();
                Kind::Copy(a)
            }
            "getelementptr" => {
                self.flags();
                let st = self.ty();
                self.exp_p(',');
                let (_, base) = self.tyopnd();
                let mut off = 0i128;
                let mut terms = vec![];
                let mut cur = st;
                let mut first = true;
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    let (it, io) = self.tyopnd();
                    let w = self.bits(it);
                    let tys = self.m.types.borrow();
                    let scale;
                    if first {
                        scale = tys.size(st);
                        first = false;
                    } else {
                        match tys.ty(cur).clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = tys.size(e);
                                cur = e;
                            }
                            Ty::Struct(es, _) => {
                                let ix = match &io {
                                    Opnd::K(Val::C(v)) => *v as usize,
                                    _ => panic!(),
                                };
                                off += tys.offsets[cur as usize][ix] as i128;
                                cur = es[ix];
                                continue;
                            }
                            x => panic!("gep into {:?}", x),
                        }
                    }
                    match io {
                        Opnd::K(Val::C(v)) => off += sext(v, w) * scale as i128,
                        o => terms.push((scale as i128, o, w)),
                    }
                }
                Kind::Gep(base, off, terms)
            }
            "load" => {
                let at = self.is_w("atomic");
                self.flags();
                let t = self.ty();
                self.exp_p(',');
                let (_, p) = self.tyopnd();
                if at {
                    Kind::LoadA(t, p)
                } else {
                    Kind::Load(t, p)
                }
            }
            "store" => {
                let at = self.is_w("atomic");
                self.flags();
                let (t, v) = self.tyopnd();
                self.exp_p(',');
                let (_, p) = self.tyopnd();
                if at {
                    Kind::StoreA(t, v, p)
                } else {
                    Kind::Store(t, v, p)
                }
            }
            "alloca" => {
                self.flags();
                let t = self.ty();
                let mut n = Opnd::K(Val::C(1));
                if self.eat_p(',') && !self.is_w("align") && !matches!(self.peek(), Some(Tok::Meta)) {
                    let (_, o) = self.tyopnd();
                    n = o;
                }
                let s = self.m.types.borrow().size(t);
                Kind::Alloca(s, n)
            }
            "extractvalue" => {
                let (_, a) = self.tyopnd();
                let mut p = vec![];
                while self.eat_p(',') {
                    if !matches!(self.peek(), Some(Tok::Int(_))) {
                        break;
                    }
                    p.push(self.int() as u32);
                }
                Kind::Extract(a, p)
            }
            "insertvalue" => {
                let (_, a) = self.tyopnd();
                self.exp_p(',');
                let (_, v) = self.tyopnd();
                let mut p = vec![];
                while self.eat_p(',') {
                    if !matches!(self.peek(), Some(Tok::Int(_))) {
                        break;
                    }
                    p.push(self.int() as u32);
                }
                Kind::Insert(a, v, p)
            }
            "extractelement" => {
                let (_, a) = self.tyopnd();
                self.exp_p(',');
                let (_, i) = self.tyopnd();
                Kind::ExtractElem(a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyopnd();
                self.exp_p(',');
                let (_, v) = self.tyopnd();
                self.exp_p(',');
                let (_, i) = self.tyopnd();
                Kind::InsertElem(a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyopnd();
                self.exp_p(',');
                let (_, b) = self.tyopnd();
                self.exp_p(',');
                let (mt, m) = self.tyopnd();
                let _ = mt;
                let idx = match m {
                    Opnd::K(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                Kind::Shuffle(a, b, idx)
            }
            "atomicrmw" => {
                self.flags();
                let o = match self.word().as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "nand" => RmwOp::Nand,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    x => panic!("rmw {}", x),
                };
                let (_, p) = self.tyopnd();
                self.exp_p(',');
                let (t, v) = self.tyopnd();
                Kind::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tyopnd();
                self.exp_p(',');
                let (t, c) = self.tyopnd();
                self.exp_p(',');
                let (_, n) = self.tyopnd();
                Kind::CmpXchg(t, p, c, n)
            }
            "fence" => Kind::Nop,
            "call" => {
                // calling convention / attributes / return type
                loop {
                    match self.peek() {
                        Some(Tok::Word(w)) => {
                            let isty = w == "void" || w == "ptr" || w == "double" || w == "float" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                            if isty {
                                break;
                            }
                            let al = w == "align";
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            } else if al {
                                self.i += 1;
                            }
                        }
                        Some(Tok::P(_)) => break,
                        _ => {
                            self.i += 1;
                        }
                    }
                }
                let rt = self.ty();
                // optional function type "(...)" for variadics
                if self.is_p('(') {
                    self.skip_parens();
                }
                let callee = if self.is_w("asm") {
                    self.i += 1;
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    Opnd::K(Val::C(0))
                } else {
                    let pt = self.tyget(Ty::Ptr);
                    self.opnd(pt)
                };
                self.exp_p('(');
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        if self.is_w("metadata") {
                            // skip metadata argument
                            let mut d = 0;
                            loop {
                                match self.peek() {
                                    Some(Tok::P('(')) => d += 1,
                                    Some(Tok::P(')')) => {
                                        if d == 0 {
                                            break;
                                        }
                                        d -= 1
                                    }
                                    Some(Tok::P(',')) if d == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                        } else {
                            let (t, o) = self.tyopnd();
                            args.push((o, t));
                        }
                        if self.eat_p(',') {
                            continue;
                        }
                        self.exp_p(')');
                        break;
                    }
                }
                Kind::Call(callee, args, rt)
            }
            "br" => {
                if self.is_w("label") {
                    Kind::Br(self.lab())
                } else {
                    let (_, c) = self.tyopnd();
                    self.exp_p(',');
                    let a = self.lab();
                    self.exp_p(',');
                    let b = self.lab();
                    Kind::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopnd();
                self.exp_p(',');
                let d = self.lab();
                self.exp_p('[');
                let mut cs = vec![];
                while !self.eat_p(']') {
                    let ct = self.ty();
                    let c = match self.konst(ct) {
                        Val::C(x) => x,
                        _ => panic!(),
                    };
                    self.exp_p(',');
                    let l = self.lab();
                    cs.push((c, l));
                }
                Kind::Switch(self.bits(t), v, d, cs)
            }
            "ret" => {
                if self.is_w("void") {
                    Kind::Ret(None)
                } else {
                    let (_, v) = self.tyopnd();
                    Kind::Ret(Some(v))
                }
            }
            "unreachable" => Kind::Unreachable,
            _ => panic!("unsupported instruction '{}' in: {}", op, self.ctx),
        };
        Some(Inst { dst, k })
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut m = Module {
            text: String::new(),
            types: RefCell::new(Types::default()),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = text[i..].find('\n').map_or(b.len(), |x| i + x);
            let line = &text[i..e];
            if line.starts_with('@') {
                let (name, rest) = Self::global_name(line);
                let head: String = rest.chars().take(120).collect();
                let ws: Vec<&str> = head.split_whitespace().collect();
                if ws.iter().take(8).any(|w| *w == "alias") {
                    m.aliases.insert(name, (i, e));
                } else {
                    let external = ws.iter().take(5).any(|w| *w == "external" || *w == "extern_weak");
                    m.gidx.insert(name.clone(), m.globals.len() as u32);
                    m.globals.push(GlobalInfo { name, line: (i, e), external });
                }
            } else if line.starts_with("declare ") || line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (name, _) = Self::global_name(&line[at..]);
                let mut end = e;
                let mut t = None;
                if line.starts_with("define ") {
                    end = i + text[i..].find("\n}").unwrap() + 2;
                    t = Some((i, end));
                }
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncInfo { name, text: t, body: RefCell::new(None) });
                i = end;
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                i += 1;
                continue;
            }
            i = e + 1;
        }
        m.text = text;
        m
    }
    fn global_name(s: &str) -> (String, &str) {
        let b = s.as_bytes();
        if b[1] == b'"' {
            let j = s[2..].find('"').unwrap() + 2;
            (String::from_utf8_lossy(&unescape(&b[2..j])).into_owned(), &s[j + 1..])
        } else {
            let mut j = 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b"_.$-".contains(&b[j])) {
                j += 1
            }
            (s[1..j].to_string(), &s[j..])
        }
    }
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(&f) = self.fidx.get(n) {
            return fn_addr(f);
        }
        if let Some(&g) = self.gidx.get(n) {
            if self.globals[g as usize].external {
                return 0;
            }
            return global_addr(g);
        }
        if let Some(&(a, b)) = self.aliases.get(n) {
            let line = &self.text[a..b];
            let p = line.rfind("ptr ").unwrap();
            let toks = lex(&line[p..]);
            let mut c = Cur { t: &toks, i: 0, m: self, regs: HashMap::new(), labels: HashMap::new(), ctx: line };
            let t = c.ty();
            if let Val::C(v) = c.konst(t) {
                return v as u64;
            }
        }
        panic!("unknown symbol @{}", n)
    }
    /// (bytes, size) of a global's initial value
    pub fn global_init(&self, g: u32) -> Vec<u8> {
        let (a, b) = self.globals[g as usize].line;
        let line = &self.text[a..b];
        let toks = lex(line);
        let mut c = Cur { t: &toks, i: 0, m: self, regs: HashMap::new(), labels: HashMap::new(), ctx: line };
        // skip to "global" or "constant"
        while !(c.is_w("global") || c.is_w("constant")) {
            c.i += 1;
        }
        c.i += 1;
        let t = c.ty();
        let v = c.konst(t);
        let mut out = vec![0u8; self.types.borrow().size(t) as usize];
        self.flatten(&v, t, &mut out, 0);
        out
    }
    fn flatten(&self, v: &Val, t: TyId, out: &mut [u8], off: usize) {
        let ty = self.types.borrow().ty(t).clone();
        match (v, ty) {
            (Val::C(x), Ty::Int(_)) | (Val::C(x), Ty::Ptr) | (Val::C(x), Ty::Float(_)) => {
                let s = self.types.borrow().size(t) as usize;
                out[off..off + s].copy_from_slice(&x.to_le_bytes()[..s]);
            }
            (Val::A(xs), Ty::Arr(_, e)) | (Val::A(xs), Ty::Vec(_, e)) => {
                let s = self.types.borrow().size(e) as usize;
                for (i, x) in xs.iter().enumerate() {
                    self.flatten(x, e, out, off + i * s);
                }
            }
            (Val::A(xs), Ty::Struct(es, _)) => {
                for (i, x) in xs.iter().enumerate() {
                    let o = self.types.borrow().offsets[t as usize][i] as usize;
                    self.flatten(x, es[i], out, off + o);
                }
            }
            (v, t) => panic!("flatten {:?} {:?}", v, t),
        }
    }
    pub fn body(&self, f: u32) -> Option<Rc<Body>> {
        let fi = &self.funcs[f as usize];
        if let Some(b) = fi.body.borrow().as_ref() {
            return Some(b.clone());
        }
        let (a, b) = fi.text?;
        let r = Rc::new(self.parse_body(&self.text[a..b]));
        *fi.body.borrow_mut() = Some(r.clone());
        Some(r)
    }
    fn parse_body(&self, s: &str) -> Body {
        let mut lines = s.lines();
        let head = lines.next().unwrap();
        let toks = lex(head);
        let mut cur = Cur { t: &toks, i: 0, m: self, regs: HashMap::new(), labels: HashMap::new(), ctx: head };
        // find '@name' then '('
        while !matches!(cur.peek(), Some(Tok::Global(_))) {
            cur.i += 1;
        }
        cur.i += 1;
        cur.exp_p('(');
        let mut params = vec![];
        let mut pi = 0;
        if !cur.eat_p(')') {
            loop {
                if matches!(cur.peek(), Some(Tok::Dots)) {
                    cur.i += 1;
                } else {
                    cur.ty();
                    // attributes up to the name
                    loop {
                        match cur.peek() {
                            Some(Tok::Local(_)) | Some(Tok::P(',')) | Some(Tok::P(')')) => break,
                            Some(Tok::Word(w)) => {
                                let al = w == "align";
                                cur.i += 1;
                                if cur.is_p('(') {
                                    cur.skip_parens();
                                } else if al {
                                    cur.i += 1;
                                }
                            }
                            _ => cur.i += 1,
                        }
                    }
                    let nm = if let Some(Tok::Local(n)) = cur.peek().cloned() {
                        cur.i += 1;
                        n
                    } else {
                        format!("{}", pi)
                    };
                    params.push(cur.reg(&nm));
                    pi += 1;
                }
                if cur.eat_p(',') {
                    continue;
                }
                cur.exp_p(')');
                break;
            }
        }
        let mut regs = std::mem::take(&mut cur.regs);
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut curb: Option<u32> = None;
        let mut pend = String::new();
        for l in lines {
            if l == "}" {
                break;
            }
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').unwrap()].to_string()
                };
                let n = labels.len() as u32;
                let id = *labels.entry(name).or_insert(n);
                blocks.entry(id).or_default();
                curb = Some(id);
                continue;
            }
            let full: &str;
            if !pend.is_empty() {
                pend.push(' ');
                pend.push_str(tl);
                if tl.starts_with(']') {
                    full = &pend;
                } else {
                    continue;
                }
            } else if tl.starts_with("switch ") && !tl.contains(']') {
                pend.push_str(tl);
                continue;
            } else {
                full = tl;
            }
            if curb.is_none() {
                // implicit entry label: it takes the next unnamed number
                let n = labels.len() as u32;
                let name = format!("{}", pi);
                let id = *labels.entry(name).or_insert(n);
                blocks.entry(id).or_default();
                curb = Some(id);
            }
            let toks = lex(full);
            let mut c = Cur { t: &toks, i: 0, m: self, regs, labels, ctx: full };
            // phi
            let isphi = matches!(toks.get(2), Some(Tok::Word(w)) if w == "phi");
            if isphi {
                let dn = match &toks[0] {
                    Tok::Local(n) => n.clone(),
                    _ => panic!(),
                };
                let dst = c.reg(&dn);
                c.i = 3;
                c.flags();
                let t = c.ty();
                let mut inc = vec![];
                loop {
                    c.exp_p('[');
                    let o = c.opnd(t);
                    c.exp_p(',');
                    let l = match c.next().clone() {
                        Tok::Local(n) => c.label(&n),
                        t => panic!("phi label {:?}", t),
                    };
                    c.exp_p(']');
                    inc.push((l, o));
                    if c.is_p(',') && matches!(c.t.get(c.i + 1), Some(Tok::P('['))) {
                        c.i += 1;
                        continue;
                    }
                    break;
                }
                blocks.get_mut(&curb.unwrap()).unwrap().phis.push((dst, inc));
            } else if let Some(i) = c.inst() {
                blocks.get_mut(&curb.unwrap()).unwrap().insts.push(i);
            }
            regs = std::mem::take(&mut c.regs);
            labels = std::mem::take(&mut c.labels);
            drop(c);
            drop(toks);
            pend.clear();
        }
        let n = labels.len();
        let mut bs: Vec<Block> = Vec::with_capacity(n);
        for i in 0..n as u32 {
            bs.push(blocks.remove(&i).unwrap_or_else(|| panic!("missing block {} in {}", i, head)));
        }
        Body { blocks: bs, nregs: regs.len() as u32, params }
    }
}
