//! The interpreter: concrete where it can be, symbolic where it must be.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{le, Res, Solver};
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub enum Stop {
    /// successor states were pushed on the work list
    Forked,
    /// path ended normally
    Done,
    /// path condition became unsatisfiable / assumption failed
    Infeasible,
    /// path ended with a (possibly tolerated) outcome
    Outcome(String),
    /// the engine cannot continue on this path
    Err(String),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub hashes: Vec<(Vec<u8>, Vec<u8>)>,
    pub backtrace: Vec<String>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Special {
    None,
    Ext,
    Panic,
    FmtNum,
}

pub struct Config {
    pub params: HashMap<String, u64>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub time: Duration,
    pub witnesses: usize,
    pub fork_limit: usize,
    pub max_violations: usize,
    pub concrete: Option<HashMap<String, Vec<u8>>>,
    pub verbose: bool,
}

pub struct Engine {
    pub m: Rc<Module>,
    pub p: Pool,
    pub s: Solver,
    pub work: Vec<State>,
    pub cfg: Config,
    pub ginit: Vec<Option<Rc<Obj>>>,
    pub special: Vec<Special>,
    pub executed: Vec<bool>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub outcomes: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub asserts_trivial: u64,
    pub fork_sites: HashMap<String, u64>,
    pub t0: Instant,
    pub tl_globals: BTreeSet<u32>,
    pub samples: Vec<String>,
    pub witnesses: Vec<Violation>,
    pub unreach: u64,
    pub prints: Vec<String>,
}

#[inline]
fn w_bytes(w: u32) -> usize {
    ((w + 7) / 8) as usize
}

impl Engine {
    pub fn new(m: Rc<Module>, s: Solver, cfg: Config) -> Engine {
        let special = m
            .funcs
            .iter()
            .map(|f| {
                let n = f.name.as_str();
                if f.text.is_none() {
                    return Special::Ext;
                }
                if n.contains("_4core9panicking") || n.contains("17rust_begin_unwind") || n.contains("18panic_nounwind") {
                    return Special::Panic;
                }
                if n.contains("4core3fmt3num") && (n.ends_with("3fmt") || n.ends_with("__fmt_inner")) {
                    return Special::FmtNum;
                }
                if n.contains("7___rustc") && (n.contains("12___rust_alloc") || n.contains("14___rust_dealloc") || n.contains("14___rust_realloc") || n.contains("19___rust_alloc_zeroed") || n.contains("rust_no_alloc_shim")) {
                    return Special::Ext;
                }
                Special::None
            })
            .collect();
        let tl = m
            .globals
            .iter()
            .enumerate()
            .filter(|(_, g)| {
                let l = &m.text[g.line.0..g.line.1.min(g.line.0 + 400)];
                l.contains(" thread_local ")
            })
            .map(|(i, _)| i as u32 + 1)
            .collect();
        let n = m.funcs.len();
        let ng = m.globals.len();
        Engine {
            m,
            p: Pool::new(),
            s,
            work: vec![],
            cfg,
            ginit: vec![None; ng + 1],
            special,
            executed: vec![false; n],
            violations: vec![],
            errors: vec![],
            outcomes: BTreeMap::new(),
            reached: BTreeMap::new(),
            paths: 0,
            infeasible: 0,
            steps: 0,
            asserts: 0,
            asserts_sym: 0,
            asserts_trivial: 0,
            fork_sites: HashMap::new(),
            t0: Instant::now(),
            tl_globals: tl,
            samples: vec![],
            witnesses: vec![],
            unreach: 0,
            prints: vec![],
        }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let ng = self.m.globals.len();
        let mut objs = vec![Slot::Free];
        for _ in 0..ng {
            objs.push(Slot::Global);
        }
        let mut st = State {
            objs,
            quarantine: Default::default(),
            th: Thread { frames: vec![], stack: 0, sp: 0, stat: TStat::Run, ret: 0 },
            cur: 0,
            others: vec![None],
            pc: vec![],
            known: Rc::new(HashMap::new()),
            inputs: vec![],
            counters: HashMap::new(),
            fs: Rc::new(Fs::default()),
            errno: 0,
            steps: 0,
            allow_panic: false,
            sched_mode: 0,
            sched_budget: 0,
            sched_n: 0,
            preempt_budget: 0,
            preempt_kinds: 3,
            nthreads: 1,
            tls: HashMap::new(),
            tls_next: 1,
            forks: 0,
            trace: vec![],
            reached: BTreeSet::new(),
            oob_total: 0,
            tlobj: HashMap::new(),
            heap_live: 0,
            tries: vec![],
            no_preempt: false,
        };
        {
            let fs = Rc::make_mut(&mut st.fs);
            fs.dirs.insert("/".into());
            fs.dirs.insert("/tmp".into());
            fs.dirs.insert("/sym".into());
            fs.fds = vec![None, None, None];
        }
        let so = self.alloc(&mut st, 8 << 20);
        st.th.stack = (so >> 32) as u32;
        st.th.sp = 64;
        st.errno = self.alloc(&mut st, 8);
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no harness {}", entry));
        self.push_frame(&mut st, f, vec![], NODST).ok();
        st
    }

    // ---------- memory ----------
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Slot::Live(Rc::new(Obj::new(size)));
        st.heap_live += size;
        if st.quarantine.len() > 2000 {
            let id = st.quarantine.pop_front().unwrap();
            st.objs[id as usize] = o;
            return (id as u64) << 32;
        }
        st.objs.push(o);
        ((st.objs.len() - 1) as u64) << 32
    }
    pub fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        let id = (addr >> 32) as usize;
        if addr & 0xffff_ffff != 0 || id >= st.objs.len() || !matches!(st.objs[id], Slot::Live(_)) {
            return Err(self.memerr(st, format!("invalid free of {:#x}", addr)));
        }
        if let Slot::Live(o) = &st.objs[id] {
            st.heap_live = st.heap_live.saturating_sub(o.size);
        }
        st.objs[id] = Slot::Free;
        st.quarantine.push_back(id as u32);
        Ok(())
    }
    fn memerr(&mut self, st: &mut State, msg: String) -> Stop {
        self.violation(st, "memory", &msg, &[]);
        Stop::Outcome("memory-error".into())
    }
    /// resolve an address range; returns the object id and offset
    fn resolve(&mut self, st: &mut State, addr: u64, n: u64) -> R<(usize, usize)> {
        let (mut id, off) = parts_of(addr);
        if id < st.objs.len() {
            if let Slot::Global = st.objs[id] {
                self.init_global(st, id);
            }
            if !self.tl_globals.is_empty() && st.cur != 0 && self.tl_globals.contains(&(id as u32)) {
                id = self.tl_copy(st, id);
            }
            if let Slot::Live(o) = &st.objs[id] {
                if off as u64 + n <= o.size {
                    return Ok((id, off));
                }
                let sz = o.size;
                return Err(self.memerr(st, format!("out-of-bounds access of {} bytes at offset {} of an object of {} bytes", n, off, sz)));
            }
        }
        Err(self.memerr(st, format!("access to invalid address {:#x} ({} bytes)", addr, n)))
    }
    fn tl_copy(&mut self, st: &mut State, id: usize) -> usize {
        let k = (st.cur, id as u32);
        if let Some(&o) = st.tlobj.get(&k) {
            return o as usize;
        }
        let init = self.ginit_of(id);
        st.objs.push(Slot::Live(init));
        let n = st.objs.len() - 1;
        st.tlobj.insert(k, n as u32);
        n
    }
    fn ginit_of(&mut self, id: usize) -> Rc<Obj> {
        if self.ginit[id].is_none() {
            let g = (id - 1) as u32;
            let data = self.m.global_init(g);
            let gi = &self.m.globals[g as usize];
            let l = &self.m.text[gi.line.0..gi.line.1.min(gi.line.0 + 400)];
            let ro = l.split_whitespace().take(8).any(|w| w == "constant");
            self.ginit[id] = Some(Rc::new(Obj { size: data.len() as u64, data, sym: None, far: None, readonly: ro }));
        }
        self.ginit[id].clone().unwrap()
    }
    fn init_global(&mut self, st: &mut State, id: usize) {
        let o = self.ginit_of(id);
        st.objs[id] = Slot::Live(o);
    }
    #[inline]
    fn obj<'a>(st: &'a State, id: usize) -> &'a Obj {
        match &st.objs[id] {
            Slot::Live(o) => o,
            _ => unreachable!(),
        }
    }
    #[inline]
    fn obj_mut<'a>(st: &'a mut State, id: usize) -> &'a mut Obj {
        match &mut st.objs[id] {
            Slot::Live(o) => Rc::make_mut(o),
            _ => unreachable!(),
        }
    }
    pub fn load_int(&mut self, st: &mut State, addr: u64, n: usize) -> R<Val> {
        let (id, off) = self.resolve(st, addr, n as u64)?;
        let o = Self::obj(st, id);
        if off + n <= o.data.len() {
            match &o.sym {
                None => {}
                Some(s) => {
                    let cells = &s[off..off + n];
                    if cells.iter().any(|&c| c != 0) {
                        // fast path: all bytes of one expression
                        let c0 = cells[0];
                        if c0 != 0 {
                            let n0 = &self.p.nodes[c0 as usize];
                            if n == 1 {
                                return Ok(Val::S(c0));
                            }
                            if n0.op == Op::Extract && n0.b == 0 {
                                let base = n0.a;
                                if self.p.w(base) == 8 * n as u32
                                    && cells.iter().enumerate().all(|(i, &c)| {
                                        c != 0 && {
                                            let q = &self.p.nodes[c as usize];
                                            q.op == Op::Extract && q.a == base && q.b == 8 * i as u32 && q.w == 8
                                        }
                                    })
                                {
                                    return Ok(Val::S(base));
                                }
                            }
                        }
                        let parts: Vec<(u8, u32)> = (0..n).map(|i| (o.data[off + i], cells[i])).collect();
                        let es: Vec<Eid> = parts.iter().map(|&(b, e)| if e != 0 { e } else { self.p.konst(b as u128, 8) }).collect();
                        let e = self.p.concat(&es);
                        return Ok(match self.p.cval(e) {
                            Some(v) => Val::C(v),
                            None => Val::S(e),
                        });
                    }
                }
            }
            let d = &o.data[off..off + n];
            let v = match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                1 => d[0] as u128,
                _ => le(d),
            };
            return Ok(Val::C(v));
        }
        // partially beyond the materialised bytes
        let parts: Vec<(u8, u32)> = (0..n).map(|i| o.byte(off + i)).collect();
        if parts.iter().all(|p| p.1 == 0) {
            let b: Vec<u8> = parts.iter().map(|p| p.0).collect();
            return Ok(Val::C(le(&b)));
        }
        let es: Vec<Eid> = parts.iter().map(|&(b, e)| if e != 0 { e } else { self.p.konst(b as u128, 8) }).collect();
        let e = self.p.concat(&es);
        Ok(match self.p.cval(e) {
            Some(v) => Val::C(v),
            None => Val::S(e),
        })
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, v: &Val, n: usize) -> R<()> {
        let (id, off) = self.resolve(st, addr, n as u64)?;
        if Self::obj(st, id).readonly {
            return Err(self.memerr(st, "write to read-only memory".into()));
        }
        let cells: Option<Vec<u32>> = match v {
            Val::C(_) => None,
            Val::S(e) => {
                let w = self.p.w(*e);
                let e2 = if w < 8 * n as u32 { self.p.zext(*e, 8 * n as u32) } else { *e };
                Some((0..n).map(|i| self.p.extract(e2, 8 * i as u32, 8)).collect())
            }
            Val::A(_) => panic!("store_int of aggregate"),
        };
        let o = Self::obj_mut(st, id);
        if off + n > FAR {
            for i in 0..n {
                match (v, &cells) {
                    (Val::C(c), _) => o.set(off + i, (c >> (8 * i)) as u8, 0),
                    (_, Some(cs)) => match self.p.cval(cs[i]) {
                        Some(k) => o.set(off + i, k as u8, 0),
                        None => o.set(off + i, 0, cs[i]),
                    },
                    _ => unreachable!(),
                }
            }
            return Ok(());
        }
        o.grow(off + n);
        match (v, cells) {
            (Val::C(c), _) => {
                let b = c.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = o.sym.as_mut() {
                    s[off..off + n].fill(0);
                }
            }
            (_, Some(cs)) => {
                for (i, c) in cs.iter().enumerate() {
                    if let Some(k) = self.p.cval(*c) {
                        o.set(off + i, k as u8, 0);
                    } else {
                        o.set(off + i, 0, *c);
                    }
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    pub fn load_ty(&mut self, st: &mut State, addr: u64, t: TyId) -> R<Val> {
        let (size, ty) = {
            let ts = self.m.types.borrow();
            match ts.ty(t) {
                Ty::Int(w) => {
                    let w = *w;
                    drop(ts);
                    let n = w_bytes(w);
                    let v = self.load_int(st, addr, n)?;
                    return Ok(self.trunc_val(v, w));
                }
                Ty::Ptr => {
                    drop(ts);
                    return self.load_int(st, addr, 8);
                }
                Ty::Float(w) => {
                    let n = w_bytes(*w);
                    drop(ts);
                    return self.load_int(st, addr, n);
                }
                x => (ts.size(t), x.clone()),
            }
        };
        let _ = size;
        match ty {
            Ty::Arr(n, e) => {
                let s = self.m.types.borrow().size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_ty(st, addr + i * s, e)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Vec(n, e) => {
                let bits = self.m.types.borrow().bits(e);
                let mut v = vec![];
                if bits % 8 == 0 {
                    let s = (bits / 8) as u64;
                    for i in 0..n {
                        v.push(self.load_ty(st, addr + i * s, e)?);
                    }
                } else {
                    let tot = (bits as u64 * n) as u32;
                    let x = self.load_int(st, addr, w_bytes(tot))?;
                    for i in 0..n as u32 {
                        v.push(self.bits_of(&x, i * bits, bits, w_bytes(tot) as u32 * 8));
                    }
                }
                Ok(Val::A(v.into()))
            }
            Ty::Struct(es, _) => {
                let offs = self.m.types.borrow().offsets[t as usize].clone();
                let mut v = vec![];
                for (e, o) in es.iter().zip(offs) {
                    v.push(self.load_ty(st, addr + o, *e)?);
                }
                Ok(Val::A(v.into()))
            }
            x => Err(Stop::Err(format!("load of {:?}", x))),
        }
    }
    fn bits_of(&mut self, v: &Val, lo: u32, w: u32, _tot: u32) -> Val {
        match v {
            Val::C(c) => Val::C((c >> lo) & mask(w)),
            Val::S(e) => {
                let x = self.p.extract(*e, lo, w);
                self.wrap(x)
            }
            _ => panic!(),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, addr: u64, v: &Val, t: TyId) -> R<()> {
        let ty = self.m.types.borrow().ty(t).clone();
        match ty {
            Ty::Int(w) | Ty::Float(w) => self.store_int(st, addr, v, w_bytes(w)),
            Ty::Ptr => self.store_int(st, addr, v, 8),
            Ty::Arr(_, e) => {
                let s = self.m.types.borrow().size(e);
                if let Val::A(xs) = v {
                    for (i, x) in xs.iter().enumerate() {
                        self.store_ty(st, addr + i as u64 * s, x, e)?;
                    }
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                let bits = self.m.types.borrow().bits(e);
                if let Val::A(xs) = v {
                    if bits % 8 == 0 {
                        let s = (bits / 8) as u64;
                        for (i, x) in xs.iter().enumerate() {
                            self.store_ty(st, addr + i as u64 * s, x, e)?;
                        }
                    } else {
                        let x = self.join_bits(xs, bits);
                        self.store_int(st, addr, &x, w_bytes(bits * n as u32))?;
                    }
                }
                Ok(())
            }
            Ty::Struct(es, _) => {
                let offs = self.m.types.borrow().offsets[t as usize].clone();
                if let Val::A(xs) = v {
                    for i in 0..xs.len() {
                        self.store_ty(st, addr + offs[i], &xs[i], es[i])?;
                    }
                }
                Ok(())
            }
            x => Err(Stop::Err(format!("store of {:?}", x))),
        }
    }
    fn join_bits(&mut self, xs: &[Val], bits: u32) -> Val {
        if xs.iter().all(|x| matches!(x, Val::C(_))) && bits as usize * xs.len() <= 128 {
            let mut v = 0u128;
            for (i, x) in xs.iter().enumerate() {
                if let Val::C(c) = x {
                    v |= c << (i as u32 * bits);
                }
            }
            return Val::C(v);
        }
        let es: Vec<Eid> = xs.iter().map(|x| self.ex(x, bits)).collect();
        let e = self.p.concat(&es);
        self.wrap(e)
    }
    /// raw copy of n bytes (both concrete addresses), memmove semantics
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(st, src, n)?;
        let (di, do_) = self.resolve(st, dst, n)?;
        let n = n as usize;
        if Self::obj(st, di).readonly {
            return Err(self.memerr(st, "write to read-only memory".into()));
        }
        if so + n > FAR || do_ + n > FAR {
            if n > 1 << 28 {
                return Err(Stop::Err(format!("copy of {} bytes is outside the memory model", n)));
            }
            let s = Self::obj(st, si);
            let b: Vec<(u8, u32)> = (0..n).map(|i| s.byte(so + i)).collect();
            let d = Self::obj_mut(st, di);
            for (i, &(c, e)) in b.iter().enumerate() {
                d.set(do_ + i, c, e);
            }
            return Ok(());
        }
        // source bytes
        let s = Self::obj(st, si);
        let have = s.data.len().saturating_sub(so).min(n);
        let has_sym = s.sym.as_ref().map_or(false, |v| v[so.min(v.len())..so.min(v.len()) + have].iter().any(|&c| c != 0));
        if si != di && !has_sym {
            let srco = match &st.objs[si] {
                Slot::Live(o) => o.clone(),
                _ => unreachable!(),
            };
            let d = Self::obj_mut(st, di);
            if have == 0 && do_ >= d.data.len() {
                return Ok(());
            }
            d.grow(do_ + n);
            d.data[do_..do_ + have].copy_from_slice(&srco.data[so..so + have]);
            d.data[do_ + have..do_ + n].fill(0);
            if let Some(v) = d.sym.as_mut() {
                v[do_..do_ + n].fill(0);
            }
            return Ok(());
        }
        let mut buf = vec![0u8; n];
        if have > 0 {
            buf[..have].copy_from_slice(&s.data[so..so + have]);
        }
        let sy: Option<Vec<u32>> = if has_sym {
            let mut v = vec![0u32; n];
            v[..have].copy_from_slice(&s.sym.as_ref().unwrap()[so..so + have]);
            Some(v)
        } else {
            None
        };
        let d = Self::obj_mut(st, di);
        d.grow(do_ + n);
        d.data[do_..do_ + n].copy_from_slice(&buf);
        match sy {
            Some(v) => d.sym_mut()[do_..do_ + n].copy_from_slice(&v),
            None => {
                if let Some(v) = d.sym.as_mut() {
                    v[do_..do_ + n].fill(0)
                }
            }
        }
        Ok(())
    }
    pub fn fill(&mut self, st: &mut State, dst: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, off) = self.resolve(st, dst, n)?;
        let n = n as usize;
        let o = Self::obj_mut(st, di);
        if off + n > FAR {
            if n > 1 << 28 {
                return Err(Stop::Err(format!("fill of {} bytes is outside the memory model", n)));
            }
            for i in off..off + n {
                match v {
                    Val::C(c) => o.set(i, *c as u8, 0),
                    Val::S(e) => o.set(i, 0, *e),
                    _ => unreachable!(),
                }
            }
            return Ok(());
        }
        match v {
            Val::C(c) => {
                if *c == 0 && off >= o.data.len() {
                    return Ok(());
                }
                o.grow(off + n);
                o.data[off..off + n].fill(*c as u8);
                if let Some(s) = o.sym.as_mut() {
                    s[off..off + n].fill(0);
                }
            }
            Val::S(e) => {
                o.grow(off + n);
                o.sym_mut()[off..off + n].fill(*e);
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    /// n bytes as (concrete, expr) pairs
    pub fn bytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<(u8, u32)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.resolve(st, addr, n)?;
        let o = Self::obj(st, id);
        Ok((0..n as usize).map(|i| o.byte(off + i)).collect())
    }
    pub fn put_bytes(&mut self, st: &mut State, addr: u64, b: &[(u8, u32)]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.resolve(st, addr, b.len() as u64)?;
        let o = Self::obj_mut(st, id);
        for (i, &(c, e)) in b.iter().enumerate() {
            o.set(off + i, c, e);
        }
        Ok(())
    }
    pub fn cbytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<u8>> {
        let b = self.bytes(st, addr, n)?;
        let mut out = vec![];
        for (c, e) in b {
            if e != 0 {
                out.push(self.concretize(st, e)? as u8);
            } else {
                out.push(c);
            }
        }
        Ok(out)
    }
    pub fn cstr(&mut self, st: &mut State, addr: u64) -> R<String> {
        let mut s = vec![];
        let mut a = addr;
        loop {
            let b = self.cbytes(st, a, 1)?[0];
            if b == 0 {
                break;
            }
            s.push(b);
            a += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    // ---------- values ----------
    #[inline]
    pub fn ex(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::C(c) => self.p.konst(*c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    pub fn wrap(&self, e: Eid) -> Val {
        match self.p.cval(e) {
            Some(v) => Val::C(v),
            None => Val::S(e),
        }
    }
    fn trunc_val(&mut self, v: Val, w: u32) -> Val {
        match v {
            Val::C(c) => Val::C(c & mask(w)),
            Val::S(e) => {
                if self.p.w(e) > w {
                    let x = self.p.extract(e, 0, w);
                    self.wrap(x)
                } else {
                    Val::S(e)
                }
            }
            a => a,
        }
    }
    pub fn lookup(&mut self, st: &State, e: Eid) -> Option<u128> {
        if let Some(v) = self.p.cval(e) {
            return Some(v);
        }
        if st.known.is_empty() {
            return None;
        }
        let mut memo = HashMap::new();
        self.p.eval(e, &st.known, &mut memo)
    }
    fn learn(&mut self, st: &mut State, e: Eid, v: u128) {
        let n = self.p.nodes[e as usize].clone();
        Rc::make_mut(&mut st.known).insert(e, v);
        match n.op {
            Op::Concat => {
                let mut pos = 0;
                for &x in n.xs.unwrap().iter() {
                    let w = self.p.w(x);
                    if self.p.op(x) != Op::Const {
                        self.learn(st, x, (v >> pos) & mask(w));
                    }
                    pos += w;
                }
            }
            Op::Add | Op::Xor => {
                if let Some(k) = self.p.cval(n.b) {
                    let r = if n.op == Op::Add { v.wrapping_sub(k) & mask(n.w) } else { v ^ k };
                    self.learn(st, n.a, r);
                }
            }
            Op::Eq => {
                if v == 1 {
                    if let Some(k) = self.p.cval(n.b) {
                        self.learn(st, n.a, k);
                    }
                }
            }
            Op::And => {
                if n.w == 1 && v == 1 {
                    self.learn(st, n.a, 1);
                    self.learn(st, n.b, 1);
                }
            }
            _ => {}
        }
    }
    pub fn add_pc(&mut self, st: &mut State, c: Eid) {
        if self.p.cval(c) == Some(1) {
            return;
        }
        st.pc.push(c);
        self.learn(st, c, 1);
        let nc = self.p.not1(c);
        Rc::make_mut(&mut st.known).insert(nc, 0);
    }
    /// A concrete value for `e`; forks over all feasible values when there are several.
    pub fn concretize(&mut self, st: &mut State, e: Eid) -> R<u128> {
        if let Some(v) = self.lookup(st, e) {
            return Ok(v);
        }
        let vals = match self.s.values(&mut self.p, &st.pc, e, self.cfg.fork_limit) {
            Some(v) => v,
            None => {
                return Err(Stop::Err(format!("more than {} values (or no solver answer) while concretising in {}", self.cfg.fork_limit, self.where_(st))));
            }
        };
        if vals.is_empty() {
            return Err(Stop::Infeasible);
        }
        let w = self.p.w(e);
        if vals.len() == 1 {
            self.learn(st, e, vals[0]);
            return Ok(vals[0]);
        }
        self.note_fork(st, "concretise");
        for &v in vals.iter().rev() {
            let mut s2 = st.clone();
            let k = self.p.konst(v, w);
            let c = self.p.bin(Op::Eq, e, k);
            self.add_pc(&mut s2, c);
            self.learn(&mut s2, e, v);
            s2.forks += 1;
            self.work.push(s2);
        }
        Err(Stop::Forked)
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            Val::A(_) => panic!("aggregate"),
        }
    }
    fn note_fork(&mut self, st: &State, kind: &str) {
        let k = format!("{} @ {}", kind, self.where_(st));
        *self.fork_sites.entry(k).or_insert(0) += 1;
    }
    pub fn where_(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.th.frames.iter().rev().take(3) {
            s.push(demangle(&self.m.funcs[f.func as usize].name));
        }
        s.join(" < ")
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.th.frames.iter().rev().map(|f| demangle(&self.m.funcs[f.func as usize].name)).collect()
    }
    #[allow(clippy::type_complexity)]
    fn model_of(&mut self, st: &State, extra: &[Eid]) -> Result<(Vec<(String, Vec<u8>)>, Vec<(Vec<u8>, Vec<u8>)>), Res> {
        let want: Vec<Eid> = st.inputs.iter().map(|i| i.expr).collect();
        let (r, m) = self.s.check_full(&mut self.p, &st.pc, extra, &want);
        if r != Res::Sat {
            return Err(r);
        }
        let m = m.unwrap_or_default();
        let mut inputs = vec![];
        for i in &st.inputs {
            let mut b = m.get(&i.expr).cloned().unwrap_or_default();
            if let Some(c) = self.p.cval(i.expr) {
                b = c.to_le_bytes().to_vec();
            }
            b.resize(i.nbytes as usize, 0);
            inputs.push((i.name.clone(), b));
        }
        let mut hashes = vec![];
        for (e, v) in &m {
            if self.p.op(*e) == Op::Hash {
                let n = &self.p.nodes[*e as usize];
                let (aw, ow) = (self.p.w(n.a) as usize / 8, n.w as usize / 8);
                if let Some(a) = m.get(&n.a) {
                    let mut a = a.clone();
                    a.resize(aw, 0);
                    let mut o = v.clone();
                    o.resize(ow, 0);
                    hashes.push((a, o));
                }
            }
        }
        hashes.sort();
        Ok((inputs, hashes))
    }
    pub fn violation(&mut self, st: &mut State, kind: &str, msg: &str, extra: &[Eid]) {
        if self.violations.iter().any(|v| v.kind == kind && v.msg == msg) {
            return;
        }
        let (inputs, hashes) = match self.model_of(st, extra) {
            Ok(x) => x,
            Err(Res::Unknown) => {
                self.errors.push(format!("no model for violation {} {}", kind, msg));
                return;
            }
            Err(_) => {
                self.errors.push(format!("violation {} {} has an unsatisfiable path", kind, msg));
                return;
            }
        };
        let v = Violation {
            kind: kind.into(),
            msg: msg.into(),
            inputs,
            hashes,
            backtrace: self.backtrace(st),
            trace: st.trace.clone(),
        };
        self.violations.push(v);
    }

    // ---------- control ----------
    pub fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret: u32) -> R<()> {
        let body = match self.m.body(f) {
            Some(b) => b,
            None => return Err(Stop::Err(format!("no body for {}", self.m.funcs[f as usize].name))),
        };
        self.executed[f as usize] = true;
        let mut regs = vec![Val::C(0); body.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < body.params.len() {
                regs[body.params[i] as usize] = a;
            }
        }
        let sp = st.th.sp;
        st.th.frames.push(Frame { func: f, body, block: 0, ip: 0, prev: 0, regs, ret, sp });
        if st.th.frames.len() > 4000 {
            return Err(Stop::Err("call depth".into()));
        }
        Ok(())
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.th.frames.last_mut().unwrap();
        let from = fr.block;
        let body = fr.body.clone();
        let blk = &body.blocks[to as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|(l, _)| *l == from).expect("phi").1;
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone(),
                    Opnd::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<(u32, Val)> = blk
                    .phis
                    .iter()
                    .map(|(d, inc)| {
                        let o = &inc.iter().find(|(l, _)| *l == from).expect("phi").1;
                        (
                            *d,
                            match o {
                                Opnd::R(r) => fr.regs[*r as usize].clone(),
                                Opnd::K(v) => v.clone(),
                            },
                        )
                    })
                    .collect();
                for (d, v) in vals {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        Ok(())
    }
    pub fn ret_val(&mut self, st: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            let fr = st.th.frames.last_mut().unwrap();
            fr.regs[dst as usize] = v;
        }
    }
    #[inline]
    fn get(st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.th.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::K(v) => v.clone(),
        }
    }

    pub fn binop(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(Pool::fold(op, w, *x, *y));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.p.bin(op, x, y);
        self.wrap(e)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return Val::C(r as u128);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.p.bin(Op::Eq, x, y),
            Pred::Ne => {
                let t = self.p.bin(Op::Eq, x, y);
                self.p.not1(t)
            }
            Pred::Ugt => self.p.bin(Op::Ult, y, x),
            Pred::Uge => self.p.bin(Op::Ule, y, x),
            Pred::Ult => self.p.bin(Op::Ult, x, y),
            Pred::Ule => self.p.bin(Op::Ule, x, y),
            Pred::Sgt => self.p.bin(Op::Slt, y, x),
            Pred::Sge => self.p.bin(Op::Sle, y, x),
            Pred::Slt => self.p.bin(Op::Slt, x, y),
            Pred::Sle => self.p.bin(Op::Sle, x, y),
        };
        self.wrap(e)
    }
    pub fn select(&mut self, c: Eid, a: &Val, b: &Val, t: TyId) -> Val {
        match (a, b) {
            (Val::A(xs), Val::A(ys)) => {
                let ty = self.m.types.borrow().ty(t).clone();
                let v: Vec<Val> = xs
                    .iter()
                    .zip(ys.iter())
                    .enumerate()
                    .map(|(i, (x, y))| {
                        let et = match &ty {
                            Ty::Struct(es, _) => es[i],
                            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
                            _ => panic!(),
                        };
                        self.select(c, x, y, et)
                    })
                    .collect();
                Val::A(v.into())
            }
            _ => {
                let w = self.m.types.borrow().bits(t);
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let e = self.p.ite(c, x, y);
                self.wrap(e)
            }
        }
    }
    fn cast(&mut self, st: &mut State, c: CastOp, f: u32, t: u32, v: &Val) -> R<Val> {
        Ok(match c {
            CastOp::Trunc => self.trunc_val(v.clone(), t),
            CastOp::ZExt => match v {
                Val::C(x) => Val::C(*x),
                Val::S(e) => {
                    let x = self.p.zext(*e, t);
                    self.wrap(x)
                }
                _ => panic!(),
            },
            CastOp::SExt => match v {
                Val::C(x) => Val::C(sext(*x, f) as u128 & mask(t)),
                Val::S(e) => {
                    let x = self.p.sext(*e, t);
                    self.wrap(x)
                }
                _ => panic!(),
            },
            CastOp::Bit => v.clone(),
            _ => {
                let x = self.conc(st, v)?;
                let fl = |x: u128, w: u32| -> f64 {
                    if w == 32 {
                        f32::from_bits(x as u32) as f64
                    } else {
                        f64::from_bits(x as u64)
                    }
                };
                let tofl = |d: f64, w: u32| -> u128 {
                    if w == 32 {
                        (d as f32).to_bits() as u128
                    } else {
                        d.to_bits() as u128
                    }
                };
                Val::C(match c {
                    CastOp::UiToFp => {
                        if t == 32 {
                            (x as f32).to_bits() as u128
                        } else {
                            (x as f64).to_bits() as u128
                        }
                    }
                    CastOp::SiToFp => {
                        let s = sext(x, f);
                        if t == 32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                    CastOp::FpToUi => (fl(x, f) as u128) & mask(t),
                    CastOp::FpToSi => (fl(x, f) as i128) as u128 & mask(t),
                    CastOp::FpExt | CastOp::FpTrunc => tofl(fl(x, f), t),
                    _ => unreachable!(),
                })
            }
        })
    }

    /// Two-way decision on a symbolic condition; forks when both sides are feasible.
    pub fn decide(&mut self, st: &mut State, c: Eid) -> R<bool> {
        if let Some(v) = self.lookup(st, c) {
            return Ok(v != 0);
        }
        if self.t0.elapsed() > self.cfg.time {
            return Err(Stop::Err("time limit inside a path".into()));
        }
        let nc = self.p.not1(c);
        let rt = self.s.check(&mut self.p, &st.pc, &[c]);
        if rt == Res::Unsat {
            self.learn(st, nc, 1);
            Rc::make_mut(&mut st.known).insert(c, 0);
            return Ok(false);
        }
        let rf = self.s.check(&mut self.p, &st.pc, &[nc]);
        if rf == Res::Unsat {
            self.learn(st, c, 1);
            Rc::make_mut(&mut st.known).insert(nc, 0);
            return Ok(true);
        }
        if rt == Res::Unknown || rf == Res::Unknown {
            return Err(Stop::Err(format!("solver gave no answer on a branch in {}", self.where_(st))));
        }
        self.note_fork(st, "branch");
        let mut s2 = st.clone();
        self.add_pc(&mut s2, nc);
        s2.forks += 1;
        let mut s1 = st.clone();
        self.add_pc(&mut s1, c);
        s1.forks += 1;
        self.work.push(s2);
        self.work.push(s1);
        Err(Stop::Forked)
    }

    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed() > self.cfg.time {
                self.errors.push(format!("time limit with {} states pending", self.work.len() + 1));
                self.violation(&mut st, "hang", "does not terminate", &[]);
                return;
            }
            if self.paths >= self.cfg.max_paths {
                self.errors.push("path limit".into());
                return;
            }
            if self.violations.len() >= self.cfg.max_violations {
                return;
            }
            let r = self.run_state(&mut st);
            match r {
                Err(Stop::Forked) => {}
                Err(Stop::Done) => {
                    self.paths += 1;
                    self.finish(&st, "completed");
                }
                Err(Stop::Infeasible) => {
                    self.infeasible += 1;
                }
                Err(Stop::Outcome(o)) => {
                    self.paths += 1;
                    self.finish(&st, &o);
                }
                Err(Stop::Err(e)) => {
                    self.paths += 1;
                    // a path without an end: the driver runs its inputs natively
                    if e.starts_with("instruction limit") || e.starts_with("time limit") {
                        self.violation(&mut st, "hang", "does not terminate", &[]);
                    }
                    let w = self.where_(&st);
                    let msg = format!("{} [{}]", e, w);
                    if !self.errors.contains(&msg) {
                        self.errors.push(msg);
                    }
                    if self.errors.len() > 20 {
                        return;
                    }
                }
                Ok(()) => unreachable!(),
            }
        }
    }
    fn finish(&mut self, st: &State, o: &str) {
        *self.outcomes.entry(o.to_string()).or_insert(0) += 1;
        for r in &st.reached {
            *self.reached.entry(r.clone()).or_insert(0) += 1;
        }
        // witnesses: concrete models of completed paths, replayed on the native build by the driver
        if o == "completed" && self.witnesses.len() < self.cfg.witnesses {
            let n = self.outcomes["completed"];
            if n & (n - 1) == 0 {
                if let Ok((mut inputs, hashes)) = self.model_of(st, &[]) {
                    // inputs the path does not constrain may take any value: vary them
                    let used = crate::solver::vars_in(&self.p, &st.pc);
                    let mut x = 0x9e3779b97f4a7c15u64 ^ n as u64;
                    for (k, i) in st.inputs.iter().enumerate() {
                        if self.p.op(i.expr) == Op::Var && !used.contains(&i.expr) {
                            for b in inputs[k].1.iter_mut() {
                                x ^= x << 13;
                                x ^= x >> 7;
                                x ^= x << 17;
                                *b = (x >> 32) as u8;
                            }
                        }
                    }
                    self.witnesses.push(Violation { kind: "witness".into(), msg: String::new(), inputs, hashes, backtrace: vec![], trace: st.trace.clone() });
                }
            }
        }
        if self.samples.len() < 3 {
            let t: Vec<String> = st.pc.iter().take(6).map(|&e| self.show(e, 3)).collect();
            self.samples.push(format!("outcome={} steps={} path=[{}{}] trace={:?}", o, st.steps, t.join(" & "), if st.pc.len() > 6 { " ..." } else { "" }, st.trace.iter().take(8).collect::<Vec<_>>()));
        }
    }
    pub fn show(&self, e: Eid, d: u32) -> String {
        let n = &self.p.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => self.p.vars[n.a as usize].clone(),
            _ if d == 0 => "..".into(),
            Op::Concat => format!("cat({})", n.xs.as_ref().unwrap().iter().map(|&x| self.show(x, d - 1)).collect::<Vec<_>>().join(",")),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            Op::Hash | Op::SExt => format!("{:?}({})", n.op, self.show(n.a, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }

    fn run_state(&mut self, st: &mut State) -> R<()> {
        let mut n = 0u64;
        let r = self.run_inner(st, &mut n);
        self.steps += n;
        st.steps += n;
        r
    }
    fn run_inner(&mut self, st: &mut State, count: &mut u64) -> R<()> {
        loop {
            let body = st.th.frames.last().unwrap().body.clone();
            loop {
                *count += 1;
                if *count & 0xfffff == 0 {
                    if self.t0.elapsed() > self.cfg.time {
                        return Err(Stop::Err("time limit inside a path".into()));
                    }
                    if st.steps + *count > self.cfg.max_steps {
                        return Err(Stop::Err("instruction limit on a path".into()));
                    }
                }
                let fr = st.th.frames.last().unwrap();
                let inst = &body.blocks[fr.block as usize].insts[fr.ip as usize];
                let dst = inst.dst;
                macro_rules! set {
                    ($v:expr) => {{
                        let v = $v;
                        let fr = st.th.frames.last_mut().unwrap();
                        if dst != NODST {
                            fr.regs[dst as usize] = v;
                        }
                        fr.ip += 1;
                    }};
                }
                match &inst.k {
                    Kind::Bin(op, w, a, b) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        let v = self.binop(*op, *w, &x, &y);
                        set!(v)
                    }
                    Kind::Icmp(p, w, a, b) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        let v = self.icmp(*p, *w, &x, &y);
                        set!(v)
                    }
                    Kind::Gep(base, off, terms) => {
                        let b = Self::get(st, base);
                        let mut acc = match &b {
                            Val::C(c) => Val::C((*c as i128).wrapping_add(*off) as u128 & mask(64)),
                            Val::S(e) => {
                                let k = self.p.konst(*off as u128, 64);
                                let x = self.p.bin(Op::Add, *e, k);
                                self.wrap(x)
                            }
                            _ => panic!(),
                        };
                        for (scale, o, w) in terms {
                            let v = Self::get(st, o);
                            acc = match (&acc, &v) {
                                (Val::C(a), Val::C(i)) => Val::C((*a as i128).wrapping_add(sext(*i, *w).wrapping_mul(*scale)) as u128 & mask(64)),
                                _ => {
                                    let e = self.ex(&v, *w);
                                    let e = if *w < 64 { self.p.sext(e, 64) } else { e };
                                    let k = self.p.konst(*scale as u128, 64);
                                    let t = self.p.bin(Op::Mul, e, k);
                                    let a = self.ex(&acc, 64);
                                    let x = self.p.bin(Op::Add, a, t);
                                    self.wrap(x)
                                }
                            };
                        }
                        set!(acc)
                    }
                    Kind::Load(t, p) => {
                        let pv = Self::get(st, p);
                        let a = self.conc(st, &pv)? as u64;
                        let v = self.load_ty(st, a, *t)?;
                        set!(v)
                    }
                    Kind::Store(t, v, p) => {
                        let pv = Self::get(st, p);
                        let a = self.conc(st, &pv)? as u64;
                        let x = Self::get(st, v);
                        self.store_ty(st, a, &x, *t)?;
                        set!(Val::C(0))
                    }
                    Kind::LoadA(t, p) => {
                        if st.preempt_budget > 0 && st.preempt_kinds & 2 != 0 && self.maybe_preempt(st)? {
                            break;
                        }
                        let pv = Self::get(st, p);
                        let a = self.conc(st, &pv)? as u64;
                        let v = self.load_ty(st, a, *t)?;
                        set!(v)
                    }
                    Kind::StoreA(t, v, p) => {
                        if st.preempt_budget > 0 && st.preempt_kinds & 2 != 0 && self.maybe_preempt(st)? {
                            break;
                        }
                        let pv = Self::get(st, p);
                        let a = self.conc(st, &pv)? as u64;
                        let x = Self::get(st, v);
                        self.store_ty(st, a, &x, *t)?;
                        set!(Val::C(0))
                    }
                    Kind::Br(b) => {
                        let b = *b;
                        self.jump(st, b)?;
                    }
                    Kind::CondBr(c, a, b) => {
                        let v = Self::get(st, c);
                        let t = match v {
                            Val::C(x) => x & 1 != 0,
                            Val::S(e) => self.decide(st, e)?,
                            _ => panic!(),
                        };
                        let to = if t { *a } else { *b };
                        self.jump(st, to)?;
                    }
                    Kind::Switch(w, v, d, cs) => {
                        let x = Self::get(st, v);
                        let to = match x {
                            Val::C(c) => cs.iter().find(|(k, _)| *k == c).map_or(*d, |(_, l)| *l),
                            Val::S(e) => {
                                if let Some(c) = self.lookup(st, e) {
                                    cs.iter().find(|(k, _)| *k == c).map_or(*d, |(_, l)| *l)
                                } else {
                                    // peel one case at a time; `decide` forks and restarts
                                    let mut res = None;
                                    for (k, l) in cs {
                                        let kk = self.p.konst(*k, *w);
                                        let c = self.p.bin(Op::Eq, e, kk);
                                        let t = match self.p.cval(c) {
                                            Some(v) => v != 0,
                                            None => self.decide(st, c)?,
                                        };
                                        if t {
                                            res = Some(*l);
                                            break;
                                        }
                                    }
                                    res.unwrap_or(*d)
                                }
                            }
                            _ => panic!(),
                        };
                        self.jump(st, to)?;
                    }
                    Kind::Cast(c, f, t, a) => {
                        let v = Self::get(st, a);
                        let r = self.cast(st, *c, *f, *t, &v)?;
                        set!(r)
                    }
                    Kind::Select(t, c, a, b) => {
                        let cv = Self::get(st, c);
                        match cv {
                            Val::C(x) => {
                                let v = if x & 1 != 0 { Self::get(st, a) } else { Self::get(st, b) };
                                set!(v)
                            }
                            Val::S(e) => {
                                let (x, y) = (Self::get(st, a), Self::get(st, b));
                                let v = match self.lookup(st, e) {
                                    Some(k) => {
                                        if k != 0 {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                    None => self.select(e, &x, &y, *t),
                                };
                                set!(v)
                            }
                            Val::A(cs) => {
                                let (x, y) = (Self::get(st, a), Self::get(st, b));
                                if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                                    let et = match self.m.types.borrow().ty(*t) {
                                        Ty::Vec(_, e) => *e,
                                        _ => panic!(),
                                    };
                                    let mut v = vec![];
                                    for i in 0..cs.len() {
                                        v.push(match &cs[i] {
                                            Val::C(k) => {
                                                if *k != 0 {
                                                    xs[i].clone()
                                                } else {
                                                    ys[i].clone()
                                                }
                                            }
                                            Val::S(e) => self.select(*e, &xs[i], &ys[i], et),
                                            _ => panic!(),
                                        });
                                    }
                                    set!(Val::A(v.into()))
                                } else {
                                    panic!()
                                }
                            }
                        }
                    }
                    Kind::Call(callee, args, rt) => {
                        let cv = Self::get(st, callee);
                        let addr = self.conc(st, &cv)? as u64;
                        if addr < FN_BASE {
                            if addr == 0 {
                                if let Opnd::K(_) = callee {
                                    // inline asm: compiler barriers only
                                    set!(Val::C(0));
                                    continue;
                                }
                            }
                            return Err(Stop::Err(format!("call of a non-function address {:#x}", addr)));
                        }
                        let f = ((addr - FN_BASE) >> 4) as u32;
                        let vals: Vec<Val> = args.iter().map(|(o, _)| Self::get(st, o)).collect();
                        match self.special[f as usize] {
                            Special::None => {
                                st.th.frames.last_mut().unwrap().ip += 1;
                                self.push_frame(st, f, vals, dst)?;
                                break;
                            }
                            Special::Panic => {
                                if self.unwind_try(st, 1) {
                                    break;
                                }
                                return Err(self.panic_(st, f, &vals));
                            }
                            Special::FmtNum => {
                                let skip = match vals.first() {
                                    // a number passed by value is not an address
                                    Some(Val::C(a)) if *a > 0xffff_ffff && (*a as u64) < FN_BASE && !self.m.funcs[f as usize].name.ends_with("__fmt_inner") => {
                                        let b = self.bytes(st, *a as u64, 1);
                                        matches!(b, Ok(v) if v[0].1 != 0)
                                    }
                                    Some(Val::S(_)) => true,
                                    _ => false,
                                };
                                if skip {
                                    set!(Val::C(0));
                                } else {
                                    st.th.frames.last_mut().unwrap().ip += 1;
                                    self.push_frame(st, f, vals, dst)?;
                                    break;
                                }
                            }
                            Special::Ext => {
                                let depth = st.th.frames.len();
                                let cur = st.cur;
                                let v = self.external(st, f, &vals, args, *rt)?;
                                if let Some(v) = v {
                                    set!(v);
                                }
                                // thread switch or frame push by the model
                                if st.cur != cur || st.th.frames.len() != depth {
                                    break;
                                }
                            }
                        }
                    }
                    Kind::Ret(v) => {
                        let v = v.as_ref().map(|o| Self::get(st, o));
                        if st.th.frames.len() == 1 {
                            let rv = match v {
                                Some(Val::C(c)) => c as u64,
                                _ => 0,
                            };
                            // the frame stays until the choice of the next thread is made
                            if !self.thread_exit(st, rv)? {
                                return Err(Stop::Done);
                            }
                            break;
                        }
                        let fr = st.th.frames.pop().unwrap();
                        st.th.sp = fr.sp;
                        if let Some(&(d, dst, _)) = st.tries.last() {
                            if d as usize == st.th.frames.len() {
                                st.tries.pop();
                                self.ret_val(st, dst, Val::C(0));
                                break;
                            }
                        }
                        if let Some(v) = v {
                            self.ret_val(st, fr.ret, v);
                        }
                        break;
                    }
                    Kind::Unreachable => {
                        self.unreach += 1;
                        self.violation(st, "unreachable", "unreachable code reached (undefined behaviour)", &[]);
                        return Err(Stop::Outcome("unreachable".into()));
                    }
                    Kind::Alloca(s, n) => {
                        let nv = Self::get(st, n);
                        let k = self.conc(st, &nv)? as u64;
                        let sp = (st.th.sp + 15) & !15;
                        st.th.sp = sp + s * k;
                        if st.th.sp > (8 << 20) {
                            return Err(Stop::Err("stack overflow".into()));
                        }
                        let a = ((st.th.stack as u64) << 32) + sp;
                        set!(Val::C(a as u128))
                    }
                    Kind::Extract(a, path) => {
                        let mut v = Self::get(st, a);
                        for &i in path {
                            v = match v {
                                Val::A(xs) => xs[i as usize].clone(),
                                x => panic!("extractvalue of {:?}", x),
                            };
                        }
                        set!(v)
                    }
                    Kind::Insert(a, v, path) => {
                        let agg = Self::get(st, a);
                        let x = Self::get(st, v);
                        let r = insert(agg, x, path);
                        set!(r)
                    }
                    Kind::Copy(a) => {
                        let v = Self::get(st, a);
                        set!(v)
                    }
                    Kind::Nop => set!(Val::C(0)),
                    Kind::Rmw(op, t, p, v) => {
                        if st.preempt_budget > 0 && st.preempt_kinds & 2 != 0 && self.maybe_preempt(st)? {
                            break;
                        }
                        let pv = Self::get(st, p);
                        let a = self.conc(st, &pv)? as u64;
                        let x = Self::get(st, v);
                        let w = self.m.types.borrow().bits(*t);
                        let old = self.load_ty(st, a, *t)?;
                        let new = match op {
                            RmwOp::Xchg => x,
                            RmwOp::Add => self.binop(Op::Add, w, &old, &x),
                            RmwOp::Sub => self.binop(Op::Sub, w, &old, &x),
                            RmwOp::And => self.binop(Op::And, w, &old, &x),
                            RmwOp::Or => self.binop(Op::Or, w, &old, &x),
                            RmwOp::Xor => self.binop(Op::Xor, w, &old, &x),
                            RmwOp::Nand => {
                                let t = self.binop(Op::And, w, &old, &x);
                                self.binop(Op::Xor, w, &t, &Val::C(mask(w)))
                            }
                            _ => {
                                let pr = match op {
                                    RmwOp::Max => Pred::Sgt,
                                    RmwOp::Min => Pred::Slt,
                                    RmwOp::UMax => Pred::Ugt,
                                    _ => Pred::Ult,
                                };
                                match self.icmp(pr, w, &old, &x) {
                                    Val::C(c) => {
                                        if c != 0 {
                                            old.clone()
                                        } else {
                                            x
                                        }
                                    }
                                    Val::S(e) => self.select(e, &old, &x, *t),
                                    _ => panic!(),
                                }
                            }
                        };
                        self.store_ty(st, a, &new, *t)?;
                        set!(old)
                    }
                    Kind::CmpXchg(t, p, c, n) => {
                        if st.preempt_budget > 0 && st.preempt_kinds & 2 != 0 && self.maybe_preempt(st)? {
                            break;
                        }
                        let pv = Self::get(st, p);
                        let a = self.conc(st, &pv)? as u64;
                        let w = self.m.types.borrow().bits(*t);
                        let old = self.load_ty(st, a, *t)?;
                        let cv = Self::get(st, c);
                        let eq = self.icmp(Pred::Eq, w, &old, &cv);
                        let ok = match eq {
                            Val::C(x) => x != 0,
                            Val::S(e) => self.decide(st, e)?,
                            _ => panic!(),
                        };
                        if ok {
                            let nv = Self::get(st, n);
                            self.store_ty(st, a, &nv, *t)?;
                        }
                        set!(Val::A(vec![old, Val::C(ok as u128)].into()))
                    }
                    Kind::VBin(op, w, a, b) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                            let v: Vec<Val> = xs.iter().zip(ys.iter()).map(|(p, q)| self.binop(*op, *w, p, q)).collect();
                            set!(Val::A(v.into()))
                        }
                    }
                    Kind::VIcmp(p, w, a, b) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                            let v: Vec<Val> = xs.iter().zip(ys.iter()).map(|(q, r)| self.icmp(*p, *w, q, r)).collect();
                            set!(Val::A(v.into()))
                        }
                    }
                    Kind::VCast(c, f, t, a) => {
                        let x = Self::get(st, a);
                        if let Val::A(xs) = &x {
                            let mut v = vec![];
                            for q in xs.iter() {
                                v.push(self.cast(st, *c, *f, *t, q)?);
                            }
                            set!(Val::A(v.into()))
                        }
                    }
                    Kind::BitCast(ft, tt, a) => {
                        let v = Self::get(st, a);
                        let r = self.bitcast(&v, *ft, *tt);
                        set!(r)
                    }
                    Kind::ExtractElem(a, i) => {
                        let v = Self::get(st, a);
                        let iv = Self::get(st, i);
                        let k = self.conc(st, &iv)? as usize;
                        if let Val::A(xs) = v {
                            set!(xs[k].clone())
                        }
                    }
                    Kind::InsertElem(a, x, i) => {
                        let v = Self::get(st, a);
                        let x = Self::get(st, x);
                        let iv = Self::get(st, i);
                        let k = self.conc(st, &iv)? as usize;
                        if let Val::A(xs) = v {
                            let mut t = xs.to_vec();
                            t[k] = x;
                            set!(Val::A(t.into()))
                        }
                    }
                    Kind::Shuffle(a, b, idx) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                            let v: Vec<Val> = idx
                                .iter()
                                .map(|&i| {
                                    let i = i.max(0) as usize;
                                    if i < xs.len() {
                                        xs[i].clone()
                                    } else {
                                        ys[i - xs.len()].clone()
                                    }
                                })
                                .collect();
                            set!(Val::A(v.into()))
                        }
                    }
                    Kind::FBin(op, w, a, b) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                        let r = if *w == 32 {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FOp::Add => p + q,
                                FOp::Sub => p - q,
                                FOp::Mul => p * q,
                                FOp::Div => p / q,
                                FOp::Rem => p % q,
                            })
                            .to_bits() as u128
                        } else {
                            let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                            (match op {
                                FOp::Add => p + q,
                                FOp::Sub => p - q,
                                FOp::Mul => p * q,
                                FOp::Div => p / q,
                                FOp::Rem => p % q,
                            })
                            .to_bits() as u128
                        };
                        set!(Val::C(r))
                    }
                    Kind::FNeg(w, a) => {
                        let x = Self::get(st, a);
                        let x = self.conc(st, &x)?;
                        set!(Val::C(x ^ (1 << (w - 1))))
                    }
                    Kind::Fcmp(p, w, a, b) => {
                        let (x, y) = (Self::get(st, a), Self::get(st, b));
                        let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                        let f = |v: u128| if *w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                        let (x, y) = (f(x), f(y));
                        let un = x.is_nan() || y.is_nan();
                        let r = match p.as_str() {
                            "oeq" => x == y,
                            "ogt" => x > y,
                            "oge" => x >= y,
                            "olt" => x < y,
                            "ole" => x <= y,
                            "one" => !un && x != y,
                            "ord" => !un,
                            "ueq" => un || x == y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "une" => un || x != y,
                            "uno" => un,
                            "true" => true,
                            _ => false,
                        };
                        set!(Val::C(r as u128))
                    }
                }
            }
        }
    }
    fn bitcast(&mut self, v: &Val, ft: TyId, tt: TyId) -> Val {
        let (f, t) = {
            let ts = self.m.types.borrow();
            (ts.ty(ft).clone(), ts.ty(tt).clone())
        };
        let flat = match (&f, v) {
            (Ty::Vec(_, e), Val::A(xs)) => {
                let b = self.m.types.borrow().bits(*e);
                self.join_bits(xs, b)
            }
            _ => v.clone(),
        };
        match t {
            Ty::Vec(n, e) => {
                let b = self.m.types.borrow().bits(e);
                let xs: Vec<Val> = (0..n as u32).map(|i| self.bits_of(&flat, i * b, b, 0)).collect();
                Val::A(xs.into())
            }
            _ => flat,
        }
    }
    fn panic_(&mut self, st: &mut State, f: u32, vals: &[Val]) -> Stop {
        let name = demangle(&self.m.funcs[f as usize].name);
        let mut msg = format!("panic: {}", name);
        // panic(&str): try to read the message
        if let (Some(Val::C(p)), Some(Val::C(n))) = (vals.first(), vals.get(1)) {
            if *n > 0 && *n < 300 && *p > 0xffff_ffff && (*p as u64) < FN_BASE {
                if let Ok((id, off)) = self.resolve_quiet(st, *p as u64, *n as u64) {
                    let o = Self::obj(st, id);
                    let b: Vec<u8> = (0..*n as usize).map(|i| o.byte(off + i).0).collect();
                    if let Ok(s) = String::from_utf8(b) {
                        if s.chars().all(|c| !c.is_control()) {
                            msg = format!("panic: {} \"{}\"", name, s);
                        }
                    }
                }
            }
        }
        if st.allow_panic {
            return Stop::Outcome("panic(allowed)".into());
        }
        let bt = self.backtrace(st);
        let site = bt.iter().find(|s| s.contains("merkletree") || s.contains("harness")).cloned().unwrap_or_default();
        let m = format!("{} in {}", msg, site);
        self.violation(st, "panic", &m, &[]);
        Stop::Outcome("panic".into())
    }
    fn resolve_quiet(&mut self, st: &mut State, addr: u64, n: u64) -> Result<(usize, usize), ()> {
        let (id, off) = parts_of(addr);
        if id < st.objs.len() {
            if let Slot::Global = st.objs[id] {
                self.init_global(st, id);
            }
            if let Slot::Live(o) = &st.objs[id] {
                if off as u64 + n <= o.size {
                    return Ok((id, off));
                }
            }
        }
        Err(())
    }
}

fn insert(agg: Val, x: Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return x;
    }
    match agg {
        Val::A(xs) => {
            let mut v = xs.to_vec();
            let i = path[0] as usize;
            let old = std::mem::replace(&mut v[i], Val::C(0));
            v[i] = insert(old, x, &path[1..]);
            Val::A(v.into())
        }
        x => panic!("insertvalue into {:?}", x),
    }
}

/// Readable form of a v0-mangled name: the path identifiers only.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        // crate disambiguators: 's' base62 '_'
        if b[i] == b's' && i + 1 < b.len() {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j + 1 < b.len() && (b[j + 1].is_ascii_digit()) {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' && i + 1 < b.len() {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}

/// object id and offset of an address
#[inline]
pub fn parts_of(addr: u64) -> (usize, usize) {
    if addr & (3 << 61) == BIG {
        return ((addr >> BIG_BITS) as usize & (BIG_IDS as usize - 1), (addr & ((1 << BIG_BITS) - 1)) as usize);
    }
    ((addr >> 32) as usize, (addr & 0xffff_ffff) as usize)
}
