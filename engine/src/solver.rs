//! SMT-LIB back end: one persistent z3 process, one-shot z3/cvc5 portfolio as fallback.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub type Model = HashMap<Eid, Vec<u8>>; // little-endian bytes of Var / Hash / Hash-argument nodes

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<Eid>,
    funs: HashSet<String>,
}

pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub fallbacks: u64,
    pub restarts: u64,
    pub max_query: Duration,
    pub slice_total: u64,
}

pub struct Solver {
    proc: Option<Proc>,
    cache: HashMap<Vec<Eid>, Res>,
    models: Vec<HashMap<Eid, u128>>,
    pub stats: Stats,
    pub injective: bool,
    pub soft_ms: u64,
    pub hard_s: u64,
    pub errors: Vec<String>,
    pub use_slicing: bool,
    pub crosscheck: bool,
    pub crosschecked: u64,
    pub cross_disagree: u64,
    pub scratch: String,
}

fn sym(name: &str) -> String {
    format!("|{}|", name)
}

fn node_smt(p: &Pool, e: Eid) -> String {
    let n = &p.nodes[e as usize];
    let r = |x: Eid| -> String { refname(p, x) };
    let cmp = |op: &str| format!("(ite ({} {} {}) #b1 #b0)", op, r(n.a), r(n.b));
    let bin = |op: &str| format!("({} {} {})", op, r(n.a), r(n.b));
    match n.op {
        Op::Const => format!("(_ bv{} {})", n.k, n.w),
        Op::Var => sym(&p.vars[n.a as usize]),
        Op::Add => bin("bvadd"),
        Op::Sub => bin("bvsub"),
        Op::Mul => bin("bvmul"),
        Op::UDiv => bin("bvudiv"),
        Op::SDiv => bin("bvsdiv"),
        Op::URem => bin("bvurem"),
        Op::SRem => bin("bvsrem"),
        Op::And => bin("bvand"),
        Op::Or => bin("bvor"),
        Op::Xor => bin("bvxor"),
        Op::Shl => bin("bvshl"),
        Op::LShr => bin("bvlshr"),
        Op::AShr => bin("bvashr"),
        Op::Eq => cmp("="),
        Op::Ult => cmp("bvult"),
        Op::Ule => cmp("bvule"),
        Op::Slt => cmp("bvslt"),
        Op::Sle => cmp("bvsle"),
        Op::Concat => {
            let mut s = String::from("(concat");
            for &x in n.xs.as_ref().unwrap().iter().rev() {
                s.push(' ');
                s.push_str(&r(x));
            }
            s.push(')');
            s
        }
        Op::Extract => format!("((_ extract {} {}) {})", n.b + n.w - 1, n.b, r(n.a)),
        Op::SExt => format!("((_ sign_extend {}) {})", n.w - p.w(n.a), r(n.a)),
        Op::Ite => format!("(ite (= {} #b1) {} {})", r(n.a), r(n.b), r(n.c)),
        Op::Hash => format!("(H_{}_{} {})", p.w(n.a), n.w, r(n.a)),
    }
}
fn refname(p: &Pool, e: Eid) -> String {
    let n = &p.nodes[e as usize];
    match n.op {
        Op::Const => format!("(_ bv{} {})", n.k, n.w),
        Op::Var => sym(&p.vars[n.a as usize]),
        _ => format!("e{}", e),
    }
}

/// Emit declarations/definitions for `e` and everything below it.
fn emit(p: &Pool, e: Eid, defined: &mut HashSet<Eid>, funs: &mut HashSet<String>, out: &mut String, inj: bool) {
    let mut stack = vec![(e, false)];
    while let Some((x, done)) = stack.pop() {
        if defined.contains(&x) {
            continue;
        }
        let n = &p.nodes[x as usize];
        if n.op == Op::Const {
            continue;
        }
        if !done {
            stack.push((x, true));
            p.children(x, &mut |c| stack.push((c, false)));
            continue;
        }
        defined.insert(x);
        if n.op == Op::Var {
            out.push_str(&format!("(declare-fun {} () (_ BitVec {}))\n", sym(&p.vars[n.a as usize]), n.w));
            continue;
        }
        if n.op == Op::Hash {
            let iw = p.w(n.a);
            let f = format!("H_{}_{}", iw, n.w);
            if funs.insert(f.clone()) {
                out.push_str(&format!("(declare-fun {} ((_ BitVec {})) (_ BitVec {}))\n", f, iw, n.w));
                if inj {
                    out.push_str(&format!("(declare-fun I{} ((_ BitVec {})) (_ BitVec {}))\n", f, n.w, iw));
                    let t = format!("T_{}", n.w);
                    if funs.insert(t.clone()) {
                        out.push_str(&format!("(declare-fun {} ((_ BitVec {})) (_ BitVec 32))\n", t, n.w));
                    }
                }
            }
        }
        out.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", x, n.w, node_smt(p, x)));
    }
}

fn hashes_in(p: &Pool, es: &[Eid]) -> Vec<Eid> {
    let mut seen = HashSet::new();
    let mut st: Vec<Eid> = es.to_vec();
    let mut out = vec![];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        if p.op(x) == Op::Hash {
            out.push(x);
        }
        p.children(x, &mut |c| st.push(c));
    }
    out.sort();
    out
}
pub fn vars_in(p: &Pool, es: &[Eid]) -> Vec<Eid> {
    let mut seen = HashSet::new();
    let mut st: Vec<Eid> = es.to_vec();
    let mut out = vec![];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        if p.op(x) == Op::Var {
            out.push(x);
        }
        p.children(x, &mut |c| st.push(c));
    }
    out.sort();
    out
}

fn inj_axiom(p: &Pool, h: Eid) -> String {
    let n = &p.nodes[h as usize];
    let iw = p.w(n.a);
    format!(
        "(assert (and (= (IH_{}_{} e{}) {}) (= (T_{} e{}) (_ bv{} 32))))\n",
        iw,
        n.w,
        h,
        refname(p, n.a),
        n.w,
        h,
        iw
    )
}

fn parse_bv(tok: &str) -> Option<Vec<u8>> {
    if let Some(h) = tok.strip_prefix("#x") {
        let mut v = vec![];
        let b = h.as_bytes();
        let mut i = b.len();
        while i > 0 {
            let lo = (b[i - 1] as char).to_digit(16)? as u8;
            let hi = if i >= 2 { (b[i - 2] as char).to_digit(16)? as u8 } else { 0 };
            v.push(hi << 4 | lo);
            i = i.saturating_sub(2);
        }
        Some(v)
    } else if let Some(h) = tok.strip_prefix("#b") {
        let b = h.as_bytes();
        let mut v = vec![0u8; (b.len() + 7) / 8];
        for (i, c) in b.iter().rev().enumerate() {
            if *c == b'1' {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        Some(v)
    } else {
        None
    }
}
pub fn le(v: &[u8]) -> u128 {
    let mut r = 0u128;
    for (i, b) in v.iter().enumerate().take(16) {
        r |= (*b as u128) << (8 * i);
    }
    r
}

impl Solver {
    pub fn new(scratch: String) -> Solver {
        Solver {
            proc: None,
            cache: HashMap::new(),
            models: vec![],
            stats: Stats {
                queries: 0,
                cache_hits: 0,
                model_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Duration::ZERO,
                fallbacks: 0,
                restarts: 0,
                max_query: Duration::ZERO,
                slice_total: 0,
            },
            injective: false,
            soft_ms: 4000,
            hard_s: 120,
            errors: vec![],
            use_slicing: true,
            crosscheck: false,
            crosschecked: 0,
            cross_disagree: 0,
            scratch,
        }
    }
    fn start(&mut self) {
        self.stop();
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .or_else(|_| Command::new("z3").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn())
            .expect("cannot start z3");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        writeln!(inp, "(set-option :produce-models true)\n(set-option :timeout {})\n(set-option :smt.random_seed 1)", self.soft_ms).unwrap();
        self.proc = Some(Proc { child, inp, out, defined: HashSet::new(), funs: HashSet::new() });
        self.stats.restarts += 1;
    }
    pub fn stop(&mut self) {
        if let Some(mut p) = self.proc.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    /// Relevant constraints of `pc` for `q` (transitive variable sharing).
    fn slice(&self, p: &mut Pool, pc: &[Eid], q: &[Eid]) -> Vec<Eid> {
        if !self.use_slicing {
            let mut v = pc.to_vec();
            v.extend_from_slice(q);
            v.sort();
            v.dedup();
            return v;
        }
        let mut seen: HashSet<u32> = HashSet::new();
        for &e in q {
            seen.extend(p.deps(e).iter());
        }
        let ds: Vec<_> = pc.iter().map(|&e| p.deps(e)).collect();
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !inc[i] && ds[i].iter().any(|d| seen.contains(d)) {
                    inc[i] = true;
                    ch = true;
                    seen.extend(ds[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<Eid> = pc.iter().zip(&inc).filter(|(_, i)| **i).map(|(e, _)| *e).collect();
        v.extend_from_slice(q);
        v.sort();
        v.dedup();
        v
    }
    /// Satisfiability of pc ∧ q (pc is assumed satisfiable; sliced).
    pub fn check(&mut self, p: &mut Pool, pc: &[Eid], q: &[Eid]) -> Res {
        let mut cs = self.slice(p, pc, q);
        cs.retain(|&e| p.cval(e) != Some(1));
        if cs.iter().any(|&e| p.cval(e) == Some(0)) {
            return Res::Unsat;
        }
        if cs.is_empty() {
            return Res::Sat;
        }
        if let Some(&r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return r;
        }
        for m in self.models.iter().rev() {
            let mut memo = HashMap::new();
            if cs.iter().all(|&e| p.eval(e, m, &mut memo) == Some(1)) {
                self.stats.model_hits += 1;
                self.cache.insert(cs, Res::Sat);
                return Res::Sat;
            }
        }
        let (r, m) = self.solve(p, &cs, &[], true);
        if let Some(m) = m {
            self.remember(p, m);
        }
        if r != Res::Unknown {
            self.cache.insert(cs, r);
        }
        r
    }
    fn remember(&mut self, p: &Pool, m: Model) {
        let mut k = HashMap::new();
        for (e, v) in m {
            if p.w(e) <= 128 && matches!(p.op(e), Op::Var | Op::Hash) {
                k.insert(e, le(&v));
            }
        }
        if self.models.len() >= 12 {
            self.models.remove(0);
        }
        self.models.push(k);
    }
    /// Full query (no slicing) with a model.
    pub fn check_full(&mut self, p: &mut Pool, pc: &[Eid], q: &[Eid], extra: &[Eid]) -> (Res, Option<Model>) {
        let mut v = pc.to_vec();
        v.extend_from_slice(q);
        v.sort();
        v.dedup();
        v.retain(|&e| p.cval(e) != Some(1));
        if v.iter().any(|&e| p.cval(e) == Some(0)) {
            return (Res::Unsat, None);
        }
        self.solve(p, &v, extra, true)
    }
    /// All values of `e` under pc, up to `limit`; None if more or unknown.
    pub fn values(&mut self, p: &mut Pool, pc: &[Eid], e: Eid, limit: usize) -> Option<Vec<u128>> {
        let w = p.w(e);
        assert!(w <= 128);
        let cs = self.slice(p, pc, &[]);
        let _ = cs;
        // slice relative to e itself
        let mut base = {
            let t = p.konst(0, w);
            let probe = p.bin(Op::Eq, e, t);
            let mut s = self.slice(p, pc, &[probe]);
            s.retain(|&x| x != probe || pc.contains(&x));
            s
        };
        let mut vals = vec![];
        loop {
            let (r, m) = self.solve(p, &base, &[e], true);
            match r {
                Res::Unsat => {
                    vals.sort();
                    return Some(vals);
                }
                Res::Unknown => return None,
                Res::Sat => {
                    let v = le(&m.unwrap()[&e]) & mask(w);
                    vals.push(v);
                    if vals.len() > limit {
                        return None;
                    }
                    let k = p.konst(v, w);
                    let eq = p.bin(Op::Eq, e, k);
                    let ne = p.not1(eq);
                    base.push(ne);
                }
            }
        }
    }
    fn solve(&mut self, p: &mut Pool, cs: &[Eid], extra: &[Eid], want_model: bool) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        self.stats.queries += 1;
        self.stats.slice_total += cs.len() as u64;
        let orig = cs;
        let cs = if self.injective { p.propagate(orig) } else { orig.to_vec() };
        let r = if cs.iter().any(|&e| p.cval(e) == Some(0)) { (Res::Unsat, None) } else { self.solve_inc(p, &cs, extra, want_model) };
        let r = if r.0 == Res::Unknown {
            self.stats.fallbacks += 1;
            self.solve_oneshot(p, &cs, extra)
        } else {
            r
        };
        let dt = t0.elapsed();
        self.stats.time += dt;
        if dt > self.stats.max_query {
            self.stats.max_query = dt;
        }
        match r.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.crosscheck && r.0 != Res::Unknown {
            let c = self.cvc5_check(p, orig);
            if c != Res::Unknown {
                self.crosschecked += 1;
                if c != r.0 {
                    self.cross_disagree += 1;
                    self.errors.push(format!("z3 says {:?}, cvc5 says {:?}", r.0, c));
                }
            }
        }
        r
    }
    fn solve_inc(&mut self, p: &mut Pool, cs: &[Eid], extra: &[Eid], want_model: bool) -> (Res, Option<Model>) {
        if self.proc.as_ref().map_or(true, |x| x.defined.len() > 60000) {
            self.start();
        }
        let inj = self.injective;
        let mut txt = String::new();
        let mut all: Vec<Eid> = cs.to_vec();
        all.extend_from_slice(extra);
        {
            let pr = self.proc.as_mut().unwrap();
            for &e in &all {
                emit(p, e, &mut pr.defined, &mut pr.funs, &mut txt, inj);
            }
        }
        let hs = hashes_in(p, &all);
        txt.push_str("(push)\n");
        for &e in cs {
            txt.push_str(&format!("(assert (= {} #b1))\n", refname(p, e)));
        }
        if inj {
            for &h in &hs {
                txt.push_str(&inj_axiom(p, h));
            }
        }
        txt.push_str("(check-sat)\n");
        let pr = self.proc.as_mut().unwrap();
        if pr.inp.write_all(txt.as_bytes()).and_then(|_| pr.inp.flush()).is_err() {
            self.stop();
            return (Res::Unknown, None);
        }
        let ans = Self::read_line(pr);
        let ans = match ans {
            Some(a) => a,
            None => {
                self.stop();
                return (Res::Unknown, None);
            }
        };
        let r = match ans.as_str() {
            "sat" => Res::Sat,
            "unsat" => Res::Unsat,
            "unknown" | "timeout" => Res::Unknown,
            other => {
                self.errors.push(format!("solver: {}", other));
                self.stop();
                return (Res::Unknown, None);
            }
        };
        let mut model = None;
        if r == Res::Sat && want_model {
            let mut want: Vec<Eid> = vars_in(p, &all);
            for &h in &hs {
                want.push(h);
                want.push(p.nodes[h as usize].a);
            }
            want.extend_from_slice(extra);
            want.sort();
            want.dedup();
            match self.get_values(p, &want) {
                Some(m) => model = Some(m),
                None => {
                    self.stop();
                    return (Res::Unknown, None);
                }
            }
        }
        let pr = self.proc.as_mut().unwrap();
        if pr.inp.write_all(b"(pop)\n").is_err() {
            self.stop();
        }
        (r, model)
    }
    fn read_line(pr: &mut Proc) -> Option<String> {
        let mut l = String::new();
        loop {
            l.clear();
            match pr.out.read_line(&mut l) {
                Ok(0) | Err(_) => return None,
                _ => {
                    let t = l.trim();
                    if !t.is_empty() {
                        return Some(t.to_string());
                    }
                }
            }
        }
    }
    fn get_values(&mut self, p: &Pool, want: &[Eid]) -> Option<Model> {
        let mut m = Model::new();
        let mut ask = vec![];
        for &e in want {
            if let Some(v) = p.cval(e) {
                m.insert(e, v.to_le_bytes()[..((p.w(e) as usize + 7) / 8)].to_vec());
            } else {
                ask.push(e);
            }
        }
        if ask.is_empty() {
            return Some(m);
        }
        let pr = self.proc.as_mut().unwrap();
        let mut s = String::from("(get-value (");
        for &e in &ask {
            s.push_str(&refname(p, e));
            s.push(' ');
        }
        s.push_str("))\n");
        pr.inp.write_all(s.as_bytes()).ok()?;
        pr.inp.flush().ok()?;
        let mut depth = 0i32;
        let mut acc = String::new();
        loop {
            let mut l = String::new();
            if pr.out.read_line(&mut l).ok()? == 0 {
                return None;
            }
            for c in l.chars() {
                if c == '(' {
                    depth += 1
                } else if c == ')' {
                    depth -= 1
                }
            }
            acc.push_str(&l);
            if depth <= 0 && !acc.trim().is_empty() {
                break;
            }
        }
        if acc.contains("(error") {
            self.errors.push(acc.trim().to_string());
            return None;
        }
        let vals: Vec<Vec<u8>> = scan_values(&acc);
        if vals.len() != ask.len() {
            self.errors.push(format!("get-value mismatch {} {}: {}", vals.len(), ask.len(), &acc[..acc.len().min(300)]));
            return None;
        }
        for (e, v) in ask.iter().zip(vals) {
            m.insert(*e, v);
        }
        Some(m)
    }
    fn script(&self, p: &Pool, cs: &[Eid], extra: &[Eid], inj: bool) -> (String, Vec<Eid>) {
        let mut all: Vec<Eid> = cs.to_vec();
        all.extend_from_slice(extra);
        let mut d = HashSet::new();
        let mut f = HashSet::new();
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_UFBV)\n");
        for &e in &all {
            emit(p, e, &mut d, &mut f, &mut s, inj);
        }
        let hs = hashes_in(p, &all);
        for &e in cs {
            s.push_str(&format!("(assert (= {} #b1))\n", refname(p, e)));
        }
        if inj {
            for &h in &hs {
                s.push_str(&inj_axiom(p, h));
            }
        }
        s.push_str("(check-sat)\n");
        let mut want: Vec<Eid> = vars_in(p, &all);
        for &h in &hs {
            want.push(h);
            want.push(p.nodes[h as usize].a);
        }
        want.extend_from_slice(extra);
        want.sort();
        want.dedup();
        want.retain(|&e| p.cval(e).is_none());
        if !want.is_empty() {
            s.push_str("(get-value (");
            for &e in &want {
                s.push_str(&refname(p, e));
                s.push(' ');
            }
            s.push_str("))\n");
        }
        (s, want)
    }
    /// Portfolio: z3 (non-incremental), cvc5, cvc5 with integer encoding; first definite answer wins.
    fn solve_oneshot(&mut self, p: &mut Pool, cs: &[Eid], extra: &[Eid]) -> (Res, Option<Model>) {
        let (s, want) = self.script(p, cs, extra, self.injective);
        let f = format!("{}.q.smt2", self.scratch);
        std::fs::write(&f, s).ok();
        let lim = self.hard_s;
        let cmds: Vec<Vec<String>> = vec![
            vec!["z3-new".into(), format!("-T:{}", lim), f.clone()],
            vec!["cvc5".into(), format!("--tlimit={}", lim * 1000), f.clone()],
            vec!["cvc5".into(), format!("--tlimit={}", lim * 1000), "--solve-bv-as-int=sum".into(), f.clone()],
        ];
        let mut kids: Vec<(Child, String)> = vec![];
        for (i, c) in cmds.iter().enumerate() {
            let of = format!("{}.q{}.out", self.scratch, i);
            let out = std::fs::File::create(&of).unwrap();
            if let Ok(k) = Command::new(&c[0]).args(&c[1..]).stdout(out).stderr(Stdio::null()).spawn() {
                kids.push((k, of));
            }
        }
        let t0 = Instant::now();
        let mut res = (Res::Unknown, None);
        let mut done = vec![false; kids.len()];
        'o: while t0.elapsed().as_secs() < lim + 5 && done.iter().any(|d| !d) {
            for i in 0..kids.len() {
                if done[i] {
                    continue;
                }
                if let Ok(Some(_)) = kids[i].0.try_wait() {
                    done[i] = true;
                    let o = std::fs::read_to_string(&kids[i].1).unwrap_or_default();
                    let first = o.lines().next().unwrap_or("").trim();
                    if first == "unsat" {
                        res = (Res::Unsat, None);
                        break 'o;
                    }
                    if first == "sat" {
                        let vals = scan_values(&o);
                        if vals.len() == want.len() {
                            let mut m = Model::new();
                            for (e, v) in want.iter().zip(vals) {
                                m.insert(*e, v);
                            }
                            for &e in extra {
                                if let Some(v) = p.cval(e) {
                                    m.insert(e, v.to_le_bytes().to_vec());
                                }
                            }
                            res = (Res::Sat, Some(m));
                            break 'o;
                        }
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        for (k, of) in kids.iter_mut() {
            let _ = k.kill();
            let _ = k.wait();
            let _ = std::fs::remove_file(of);
        }
        let _ = std::fs::remove_file(&f);
        if res.0 == Res::Unknown {
            self.errors.push("solver: no answer within the hard limit".into());
        }
        res
    }
    fn cvc5_check(&mut self, p: &Pool, cs: &[Eid]) -> Res {
        let (s, _) = self.script(p, cs, &[], self.injective);
        let s: String = s.lines().filter(|l| !l.starts_with("(get-value")).map(|l| format!("{}\n", l)).collect();
        let f = format!("{}.x.smt2", self.scratch);
        std::fs::write(&f, s).ok();
        let o = Command::new("cvc5").args(["--tlimit=10000", &f]).output();
        let _ = std::fs::remove_file(&f);
        match o {
            Ok(o) => match String::from_utf8_lossy(&o.stdout).trim() {
                "sat" => Res::Sat,
                "unsat" => Res::Unsat,
                _ => Res::Unknown,
            },
            _ => Res::Unknown,
        }
    }
}

/// The value half of each `(name value)` pair of a get-value answer, in order.
fn scan_values(s: &str) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'|' {
            i += 1;
            while i < b.len() && b[i] != b'|' {
                i += 1;
            }
            i += 1;
        } else if b[i] == b'#' {
            let j = i;
            while i < b.len() && !b" )\n\r\t".contains(&b[i]) {
                i += 1;
            }
            if let Some(v) = parse_bv(&s[j..i]) {
                out.push(v);
            }
        } else {
            i += 1;
        }
    }
    out
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.stop();
    }
}
