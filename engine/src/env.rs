//! Models of the environment: LLVM intrinsics, allocator, libc, file system, threads, and the
//! `sym_*` primitives the harnesses use.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::solver::Res;
use crate::state::*;
use std::rc::Rc;

const ENOENT: u64 = 2;
const EINTR: u64 = 4;
const EIO: u64 = 5;
const EBADF: u64 = 9;
const EAGAIN: u64 = 11;
const EACCES: u64 = 13;
const EEXIST: u64 = 17;
const EINVAL: u64 = 22;
const ENOSYS: u64 = 38;
const NEG1: u128 = u64::MAX as u128;

pub const F_READ: u64 = 1;
pub const F_WRITE: u64 = 2;
pub const F_OPEN: u64 = 4;
pub const F_TRUNC: u64 = 8;
pub const F_SHORT_R: u64 = 16;
pub const F_SHORT_W: u64 = 32;
pub const F_CRASH: u64 = 64;
pub const F_INTR: u64 = 128;
pub const F_CRASH_W: u64 = 256;

enum IoFault {
    No,
    Fail(u64),
    Short,
    Half,
}

impl Engine {
    fn set_errno(&mut self, st: &mut State, e: u64) -> R<()> {
        let a = st.errno;
        self.store_int(st, a, &Val::C(e as u128), 4)
    }
    /// Unwind to the innermost sym_try; false if there is none.
    pub fn unwind_try(&mut self, st: &mut State, code: u128) -> bool {
        if let Some((d, dst, sp)) = st.tries.pop() {
            st.th.frames.truncate(d as usize);
            st.th.sp = sp;
            self.ret_val(st, dst, Val::C(code));
            return true;
        }
        false
    }
    fn str_arg(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.conc(st, p)? as u64, self.conc(st, n)? as u64);
        let b = self.cbytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    /// Fresh named input of nbytes (≤16); the same name gets a running number per path.
    pub fn fresh(&mut self, st: &mut State, name: &str, nbytes: u32) -> Eid {
        let c = st.counters.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, c);
        *c += 1;
        let e = if let Some(t) = &self.cfg.concrete {
            let mut b = t.get(&full).cloned().unwrap_or_default();
            b.resize(nbytes as usize, 0);
            let v = crate::solver::le(&b);
            self.p.konst(v, nbytes * 8)
        } else {
            self.p.var(&full, nbytes * 8)
        };
        st.inputs.push(Input { name: full, expr: e, nbytes });
        e
    }
    /// A symbolic decision in 0..n (environment nondeterminism), resolved by forking.
    /// Restart-safe: the variable is only recorded once the decision is known.
    fn choice(&mut self, st: &mut State, name: &str, n: u64) -> R<u64> {
        let idx = *st.counters.get(name).unwrap_or(&0);
        let full = format!("{}#{}", name, idx);
        let v = if let Some(t) = &self.cfg.concrete {
            let mut b = t.get(&full).cloned().unwrap_or_default();
            b.resize(8, 0);
            crate::solver::le(&b) as u64 % n
        } else {
            let e = self.p.var(&full, 8);
            let k = self.p.konst(n as u128, 8);
            let c = self.p.bin(Op::Ult, e, k);
            if self.lookup(st, c).is_none() {
                self.add_pc(st, c);
            }
            self.concretize(st, e)? as u64
        };
        let e = if self.cfg.concrete.is_some() { self.p.konst(v as u128, 8) } else { self.p.var(&full, 8) };
        st.counters.insert(name.to_string(), idx + 1);
        st.inputs.push(Input { name: full, expr: e, nbytes: 1 });
        Ok(v)
    }
    fn io_fault(&mut self, st: &mut State, what: &str, kinds: u64) -> R<IoFault> {
        // a killed process changes no file any more
        if st.fs.dead {
            return Ok(IoFault::Fail(EIO));
        }
        let m = st.fs.fault_mask & kinds;
        if m == 0 || st.fs.faults_left == 0 {
            return Ok(IoFault::No);
        }
        let mut opts: Vec<u64> = vec![];
        for k in [F_READ, F_WRITE, F_OPEN, F_TRUNC, F_SHORT_R, F_SHORT_W, F_CRASH, F_INTR, F_CRASH_W] {
            if m & k != 0 {
                opts.push(k);
            }
        }
        let c = self.choice(st, "io", opts.len() as u64 + 1)?;
        if c == 0 {
            return Ok(IoFault::No);
        }
        let k = opts[c as usize - 1];
        {
            let fs = Rc::make_mut(&mut st.fs);
            fs.faults_left -= 1;
            fs.fault_hit += 1;
            fs.dead = k == F_CRASH || k == F_CRASH_W;
        }
        st.trace.push(format!("fault kind {} at {}", k, what));
        Ok(match k {
            F_SHORT_R | F_SHORT_W => IoFault::Short,
            F_CRASH_W => IoFault::Half,
            F_INTR => IoFault::Fail(EINTR),
            _ => IoFault::Fail(EIO),
        })
    }

    // ---------- threads ----------
    fn runnable(&self, st: &State) -> Vec<u32> {
        st.others.iter().enumerate().filter(|(_, t)| matches!(t, Some(t) if t.stat == TStat::Run)).map(|(i, _)| i as u32).collect()
    }
    fn switch_to(&mut self, st: &mut State, t: u32) {
        let n = st.others[t as usize].take().unwrap();
        let old = std::mem::replace(&mut st.th, n);
        st.others[st.cur as usize] = Some(old);
        st.cur = t;
    }
    fn block(&mut self, st: &mut State, why: TStat) -> R<()> {
        let r = self.runnable(st);
        if r.is_empty() {
            self.violation(st, "deadlock", "no thread can make progress", &[]);
            return Err(Stop::Outcome("deadlock".into()));
        }
        let k = if r.len() > 1 && st.sched_budget > 0 { self.choice(st, "next", r.len() as u64)? } else { 0 };
        st.th.stat = why;
        self.switch_to(st, r[k as usize]);
        Ok(())
    }
    pub fn maybe_preempt(&mut self, st: &mut State) -> R<bool> {
        if st.others.len() < 2 || st.no_preempt {
            st.no_preempt = false;
            return Ok(false);
        }
        let r = self.runnable(st);
        if r.is_empty() {
            return Ok(false);
        }
        let c = self.choice(st, "preempt", r.len() as u64 + 1)?;
        if c == 0 {
            st.no_preempt = false;
            return Ok(false);
        }
        st.preempt_budget -= 1;
        st.trace.push(format!("preempt t{} -> t{} in {}", st.cur, r[c as usize - 1], self.where_(st)));
        self.switch_to(st, r[c as usize - 1]);
        Ok(true)
    }
    /// The current thread's last frame returned. True: another thread continues.
    pub fn thread_exit(&mut self, st: &mut State, rv: u64) -> R<bool> {
        if st.cur == 0 {
            return Ok(false);
        }
        st.th.stat = TStat::Done;
        st.th.ret = rv;
        let me = st.cur;
        for t in st.others.iter_mut().flatten() {
            if t.stat == TStat::Join(me) {
                t.stat = TStat::Run;
            }
        }
        let r = self.runnable(st);
        if r.is_empty() {
            self.violation(st, "deadlock", "no thread can make progress", &[]);
            return Err(Stop::Outcome("deadlock".into()));
        }
        let k = if r.len() > 1 && st.sched_budget > 0 { self.choice(st, "next", r.len() as u64)? } else { 0 };
        st.th.frames.clear();
        self.switch_to(st, r[k as usize]);
        Ok(true)
    }

    // ---------- file system ----------
    fn norm(p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("/sym/{}", p) };
        let mut parts: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                x => parts.push(x),
            }
        }
        format!("/{}", parts.join("/"))
    }
    fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".into(),
            Some(i) => p[..i].to_string(),
        }
    }
    /// address of a byte of a file
    fn file_addr(&mut self, st: &State, ino: u32, off: u64) -> R<u64> {
        let i = &st.fs.inodes[ino as usize];
        let obj = i.obj as u64;
        if i.len <= 1 << 31 {
            return Ok((obj << 32) + off);
        }
        if obj >= BIG_IDS {
            return Err(Stop::Err("too many objects for a file of more than 2 GiB".into()));
        }
        Ok(BIG | obj << BIG_BITS | off)
    }
    fn resize_inode(&mut self, st: &mut State, ino: u32, len: u64) -> R<()> {
        let old = st.fs.inodes[ino as usize].len;
        let obj = st.fs.inodes[ino as usize].obj;
        if len > (1 << 43) {
            return Err(Stop::Err(format!("file of {} bytes is outside the file-system model", len)));
        }
        let size = (len + 4095) / 4096 * 4096;
        if let Slot::Live(o) = &mut st.objs[obj as usize] {
            let o = Rc::make_mut(o);
            if len < old {
                // drop the tail so that it reads back as zeros
                let n = (len as usize).min(o.data.len());
                o.data.truncate(n);
                if let Some(s) = o.sym.as_mut() {
                    s.truncate(n);
                }
                if let Some(f) = o.far.as_mut() {
                    f.split_off(&len);
                }
            } else if len > old {
                // bytes between old length and the page end may have been dirtied through a mapping
                let (a, b) = ((old as usize).min(o.data.len()), (len as usize).min(o.data.len()));
                o.data[a..b].fill(0);
                if let Some(s) = o.sym.as_mut() {
                    s[a..b].fill(0);
                }
                if let Some(f) = o.far.as_mut() {
                    f.split_off(&old);
                }
            }
            o.size = size.max(1);
        }
        let i = &mut Rc::make_mut(&mut st.fs).inodes[ino as usize];
        i.len = len;
        i.slen = None;
        Ok(())
    }
    fn fd<'a>(&self, st: &'a State, fd: u64) -> Option<&'a Fd> {
        st.fs.fds.get(fd as usize).and_then(|x| x.as_ref())
    }
    fn open(&mut self, st: &mut State, path: &str, flags: u64) -> R<u128> {
        let path = Self::norm(path);
        match self.io_fault(st, "open", F_OPEN | F_CRASH)? {
            IoFault::Fail(e) => {
                self.set_errno(st, e)?;
                return Ok(NEG1);
            }
            _ => {}
        }
        let acc = flags & 3;
        let (creat, excl, trunc, append) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
        let mut ino = st.fs.names.get(&path).copied();
        if ino.is_some() && creat && excl {
            self.set_errno(st, EEXIST)?;
            return Ok(NEG1);
        }
        if ino.is_some() && (acc != 0 || trunc) && st.fs.readonly.contains(&path) {
            self.set_errno(st, EACCES)?;
            return Ok(NEG1);
        }
        if ino.is_none() && flags & 0o20200000 == 0o20200000 && st.fs.dirs.contains(&path) {
            // O_TMPFILE
            let a = self.alloc(st, 1);
            let fs = Rc::make_mut(&mut st.fs);
            fs.inodes.push(Inode { obj: (a >> 32) as u32, len: 0, slen: None });
            ino = Some(fs.inodes.len() as u32 - 1);
        }
        if ino.is_none() {
            if !creat || !st.fs.dirs.contains(&Self::parent(&path)) {
                self.set_errno(st, ENOENT)?;
                return Ok(NEG1);
            }
            let a = self.alloc(st, 1);
            let fs = Rc::make_mut(&mut st.fs);
            fs.inodes.push(Inode { obj: (a >> 32) as u32, len: 0, slen: None });
            let i = fs.inodes.len() as u32 - 1;
            fs.names.insert(path.clone(), i);
            ino = Some(i);
        }
        let ino = ino.unwrap();
        if trunc && acc != 0 {
            self.resize_inode(st, ino, 0)?;
        }
        let fs = Rc::make_mut(&mut st.fs);
        if fs.logging {
            fs.log.push(format!("open {} {:o}", path, flags));
        }
        let f = Fd { inode: ino, pos: 0, append, read: acc != 1, write: acc != 0 };
        for i in 3..fs.fds.len() {
            if fs.fds[i].is_none() {
                fs.fds[i] = Some(f);
                return Ok(i as u128);
            }
        }
        fs.fds.push(Some(f));
        Ok(fs.fds.len() as u128 - 1)
    }
    /// returns Ok(None) when the op crashed the process
    fn rd(&mut self, st: &mut State, fd: u64, buf: u64, n: u64, at: Option<u64>) -> R<Option<u128>> {
        let (ino, pos, ok) = match self.fd(st, fd) {
            Some(f) => (f.inode, at.unwrap_or(f.pos), f.read),
            None => {
                self.set_errno(st, EBADF)?;
                return Ok(Some(NEG1));
            }
        };
        if !ok {
            self.set_errno(st, EBADF)?;
            return Ok(Some(NEG1));
        }
        if pos > i64::MAX as u64 {
            self.set_errno(st, EINVAL)?;
            return Ok(Some(NEG1));
        }
        let len = st.fs.inodes[ino as usize].len;
        let mut k = n.min(len.saturating_sub(pos));
        let kinds = F_READ | F_CRASH | F_INTR | if k >= 2 { F_SHORT_R } else { 0 };
        match self.io_fault(st, "read", kinds)? {
            IoFault::Fail(e) => {
                self.set_errno(st, e)?;
                return Ok(Some(NEG1));
            }
            IoFault::Short => k -= 1,
            _ => {}
        }
        if k > 0 {
            let src = self.file_addr(st, ino, pos)?;
            self.copy(st, buf, src, k)?;
        }
        if at.is_none() {
            Rc::make_mut(&mut st.fs).fds[fd as usize].as_mut().unwrap().pos += k;
        }
        Ok(Some(k as u128))
    }
    fn wr(&mut self, st: &mut State, fd: u64, buf: u64, n: u64, at: Option<u64>) -> R<Option<u128>> {
        if fd == 1 || fd == 2 {
            return Ok(Some(n as u128));
        }
        let (ino, mut pos, ok) = match self.fd(st, fd) {
            Some(f) => (f.inode, at.unwrap_or(f.pos), f.write),
            None => {
                self.set_errno(st, EBADF)?;
                return Ok(Some(NEG1));
            }
        };
        if !ok {
            self.set_errno(st, EBADF)?;
            return Ok(Some(NEG1));
        }
        if pos > i64::MAX as u64 {
            self.set_errno(st, EINVAL)?;
            return Ok(Some(NEG1));
        }
        if self.fd(st, fd).unwrap().append && at.is_none() {
            pos = st.fs.inodes[ino as usize].len;
        }
        let mut k = n;
        let kinds = F_WRITE | F_CRASH | F_INTR | if n >= 2 { F_SHORT_W | F_CRASH_W } else { 0 };
        match self.io_fault(st, "write", kinds)? {
            IoFault::Fail(e) => {
                self.set_errno(st, e)?;
                return Ok(Some(NEG1));
            }
            IoFault::Short => k -= 1,
            IoFault::Half => k /= 2,
            _ => {}
        }
        if k > 0 {
            let len = st.fs.inodes[ino as usize].len;
            if pos + k > len {
                self.resize_inode(st, ino, pos + k)?;
            }
            let dst = self.file_addr(st, ino, pos)?;
            self.copy(st, dst, buf, k)?;
            if st.fs.logging {
                Rc::make_mut(&mut st.fs).log.push(format!("write ino{} @{}+{}", ino, pos, k));
            }
        }
        if at.is_none() {
            Rc::make_mut(&mut st.fs).fds[fd as usize].as_mut().unwrap().pos = pos + k;
        }
        Ok(Some(k as u128))
    }
    fn put_stat(&mut self, st: &mut State, buf: u64, ino: u64, mode: u64, len: u64) -> R<()> {
        // struct stat64 on x86_64 (144 bytes)
        self.fill(st, buf, &Val::C(0), 144)?;
        self.store_int(st, buf + 8, &Val::C(ino as u128), 8)?;
        self.store_int(st, buf + 16, &Val::C(1), 8)?;
        self.store_int(st, buf + 24, &Val::C(mode as u128), 4)?;
        self.store_int(st, buf + 48, &Val::C(len as u128), 8)?;
        self.store_int(st, buf + 56, &Val::C(4096), 8)?;
        self.store_int(st, buf + 64, &Val::C(((len + 511) / 512) as u128), 8)?;
        Ok(())
    }
    fn crash(&mut self, st: &mut State) -> R<Option<Val>> {
        // process death: descriptors go away, file contents stay
        let fs = Rc::make_mut(&mut st.fs);
        for f in fs.fds.iter_mut() {
            *f = None;
        }
        fs.faults_left = 0;
        if self.unwind_try(st, 2) {
            Ok(None)
        } else {
            Err(Stop::Outcome("crash".into()))
        }
    }

    fn cmp_bytes(&mut self, a: &[(u8, u32)], b: &[(u8, u32)]) -> Eid {
        let be = |s: &mut Engine, x: &[(u8, u32)]| -> Eid {
            let es: Vec<Eid> = x.iter().map(|&(c, e)| if e != 0 { e } else { s.p.konst(c as u128, 8) }).collect();
            s.p.concat(&es)
        };
        let x = be(self, a);
        let y = be(self, b);
        self.p.bin(Op::Eq, x, y)
    }
    fn check_assert(&mut self, st: &mut State, c: Eid, msg: &str) -> R<()> {
        self.asserts += 1;
        match self.p.cval(c) {
            Some(1) => {
                self.asserts_trivial += 1;
                Ok(())
            }
            Some(_) => {
                self.violation(st, "assert", msg, &[]);
                Err(Stop::Outcome("assertion failed".into()))
            }
            None => {
                self.asserts_sym += 1;
                let nc = self.p.not1(c);
                match self.s.check(&mut self.p, &st.pc, &[nc]) {
                    Res::Unsat => {
                        self.add_pc(st, c);
                        Ok(())
                    }
                    Res::Sat => {
                        self.violation(st, "assert", msg, &[nc]);
                        Err(Stop::Outcome("assertion failed".into()))
                    }
                    Res::Unknown => Err(Stop::Err(format!("solver gave no answer on assertion '{}'", msg))),
                }
            }
        }
    }

    pub fn external(&mut self, st: &mut State, f: u32, v: &[Val], args: &[(Opnd, TyId)], rt: TyId) -> R<Option<Val>> {
        let m = self.m.clone();
        let name = m.funcs[f as usize].name.as_str();
        let c0 = Ok(Some(Val::C(0)));
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &v[$i])? as u64
            };
        }
        macro_rules! ok {
            ($x:expr) => {
                Ok(Some(Val::C($x as u128)))
            };
        }
        macro_rules! fail {
            ($e:expr) => {{
                self.set_errno(st, $e)?;
                return Ok(Some(Val::C(NEG1)));
            }};
        }
        macro_rules! fail32 {
            ($e:expr) => {{
                self.set_errno(st, $e)?;
                return Ok(Some(Val::C(0xffff_ffff)));
            }};
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, r, v, args, rt);
        }
        if let Some(r) = name.strip_prefix("sym_") {
            return self.sym(st, r, v);
        }
        if name.contains("7___rustc") {
            if name.contains("19___rust_alloc_zeroed") || name.contains("12___rust_alloc") {
                let n = c!(0);
                if n > (1 << 31) {
                    return ok!(0);
                }
                return ok!(self.alloc(st, n));
            }
            if name.contains("14___rust_dealloc") {
                let a = c!(0);
                self.free(st, a)?;
                return c0;
            }
            if name.contains("14___rust_realloc") {
                let (a, old, _al, n) = (c!(0), c!(1), c!(2), c!(3));
                if n > (1 << 31) {
                    return ok!(0);
                }
                let b = self.alloc(st, n);
                self.copy(st, b, a, old.min(n))?;
                self.free(st, a)?;
                return ok!(b);
            }
            if name.contains("rust_no_alloc_shim") {
                return c0;
            }
        }
        if st.preempt_budget > 0 && st.preempt_kinds & 1 != 0 && matches!(name, "pread64" | "pwrite64" | "read" | "write" | "lseek64" | "lseek" | "ftruncate64" | "ftruncate") && self.maybe_preempt(st)? {
            return Ok(None);
        }
        match name {
            "malloc" => {
                let n = c!(0);
                ok!(self.alloc(st, n))
            }
            "calloc" => {
                let n = c!(0) * c!(1);
                ok!(self.alloc(st, n))
            }
            "free" => {
                let a = c!(0);
                if a != 0 {
                    self.free(st, a)?;
                }
                c0
            }
            "posix_memalign" => {
                let (p, n) = (c!(0), c!(2));
                let a = self.alloc(st, n);
                self.store_int(st, p, &Val::C(a as u128), 8)?;
                c0
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s, n)?;
                ok!(d)
            }
            "memset" => {
                let (d, n) = (c!(0), c!(2));
                let b = match &v[1] {
                    Val::C(x) => Val::C(x & 0xff),
                    Val::S(e) => Val::S(self.p.extract(*e, 0, 8)),
                    _ => panic!(),
                };
                self.fill(st, d, &b, n)?;
                ok!(d)
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                let x = self.bytes(st, a, n)?;
                let y = self.bytes(st, b, n)?;
                if x.iter().chain(y.iter()).all(|t| t.1 == 0) {
                    let r = x.iter().map(|t| t.0).collect::<Vec<_>>().cmp(&y.iter().map(|t| t.0).collect::<Vec<_>>());
                    return ok!(match r {
                        std::cmp::Ordering::Less => 0xffff_ffffu128,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    });
                }
                if name == "bcmp" {
                    let eq = self.cmp_bytes(&x, &y);
                    let (z, o) = (self.p.konst(0, 32), self.p.konst(1, 32));
                    let e = self.p.ite(eq, z, o);
                    return Ok(Some(self.wrap(e)));
                }
                let (neg, pos) = (self.p.konst(0xffff_ffff, 32), self.p.konst(1, 32));
                let mut r = self.p.konst(0, 32);
                for i in (0..n as usize).rev() {
                    let g = |s: &mut Engine, t: (u8, u32)| if t.1 != 0 { t.1 } else { s.p.konst(t.0 as u128, 8) };
                    let (p, q) = (g(self, x[i]), g(self, y[i]));
                    let eq = self.p.bin(Op::Eq, p, q);
                    let lt = self.p.bin(Op::Ult, p, q);
                    let d = self.p.ite(lt, neg, pos);
                    r = self.p.ite(eq, r, d);
                }
                Ok(Some(self.wrap(r)))
            }
            "strlen" => {
                let mut a = c!(0);
                let s = a;
                loop {
                    if self.cbytes(st, a, 1)?[0] == 0 {
                        break;
                    }
                    a += 1;
                }
                ok!(a - s)
            }
            "__errno_location" => ok!(st.errno),
            "open64" | "open" => {
                let p = c!(0);
                let fl = c!(1) & 0xffff_ffff;
                let path = self.cstr(st, p)?;
                let r = self.open(st, &path, fl)?;
                if r == u128::MAX {
                    return self.crash(st);
                }
                ok!(r & 0xffff_ffff)
            }
            "close" => {
                let fd = c!(0) & 0xffff_ffff;
                if self.fd(st, fd).is_none() {
                    fail32!(EBADF)
                }
                Rc::make_mut(&mut st.fs).fds[fd as usize] = None;
                c0
            }
            "read" => {
                let (fd, b, n) = (c!(0) & 0xffff_ffff, c!(1), c!(2));
                match self.rd(st, fd, b, n, None)? {
                    Some(r) => ok!(r),
                    None => self.crash(st),
                }
            }
            "pread64" | "pread" => {
                let (fd, b, n, o) = (c!(0) & 0xffff_ffff, c!(1), c!(2), c!(3));
                match self.rd(st, fd, b, n, Some(o))? {
                    Some(r) => ok!(r),
                    None => self.crash(st),
                }
            }
            "write" => {
                let (fd, b, n) = (c!(0) & 0xffff_ffff, c!(1), c!(2));
                match self.wr(st, fd, b, n, None)? {
                    Some(r) => ok!(r),
                    None => self.crash(st),
                }
            }
            "pwrite64" | "pwrite" => {
                let (fd, b, n, o) = (c!(0) & 0xffff_ffff, c!(1), c!(2), c!(3));
                match self.wr(st, fd, b, n, Some(o))? {
                    Some(r) => ok!(r),
                    None => self.crash(st),
                }
            }
            "writev" | "readv" => {
                let (fd, iov, cnt) = (c!(0) & 0xffff_ffff, c!(1), c!(2) & 0xffff_ffff);
                for i in 0..cnt {
                    let bv = self.load_int(st, iov + 16 * i, 8)?;
                    let nv = self.load_int(st, iov + 16 * i + 8, 8)?;
                    let (b, n) = (self.conc(st, &bv)? as u64, self.conc(st, &nv)? as u64);
                    if n > 0 {
                        let r = if name == "writev" { self.wr(st, fd, b, n, None)? } else { self.rd(st, fd, b, n, None)? };
                        return match r {
                            Some(r) => ok!(r),
                            None => self.crash(st),
                        };
                    }
                }
                c0
            }
            "lseek64" | "lseek" => {
                let (fd, off, wh) = (c!(0) & 0xffff_ffff, c!(1) as i64, c!(2) & 0xffff_ffff);
                let (ino, pos) = match self.fd(st, fd) {
                    Some(f) => (f.inode, f.pos),
                    None => fail!(EBADF),
                };
                let base = match wh {
                    0 => 0,
                    1 => pos as i64,
                    _ => st.fs.inodes[ino as usize].len as i64,
                };
                let np = base.wrapping_add(off);
                if np < 0 {
                    fail!(EINVAL)
                }
                Rc::make_mut(&mut st.fs).fds[fd as usize].as_mut().unwrap().pos = np as u64;
                ok!(np as u64)
            }
            "ftruncate64" | "ftruncate" => {
                let (fd, n) = (c!(0) & 0xffff_ffff, c!(1));
                let (ino, w) = match self.fd(st, fd) {
                    Some(f) => (f.inode, f.write),
                    None => fail32!(EBADF),
                };
                if n > i64::MAX as u64 || !w {
                    fail32!(EINVAL)
                }
                match self.io_fault(st, "ftruncate", F_TRUNC | F_CRASH)? {
                    IoFault::Fail(e) => fail32!(e),
                    _ => {}
                }
                self.resize_inode(st, ino, n)?;
                c0
            }
            "fsync" | "fdatasync" | "msync" => {
                match self.io_fault(st, "fsync", F_TRUNC | F_CRASH)? {
                    IoFault::Fail(e) => fail32!(e),
                    _ => {}
                }
                c0
            }
            "flock" | "posix_fadvise64" | "posix_fadvise" | "fchmod" | "madvise" | "posix_madvise" => c0,
            "fallocate64" | "fallocate" | "posix_fallocate" | "posix_fallocate64" => fail32!(ENOSYS),
            "fstat64" | "fstat" => {
                let (fd, b) = (c!(0) & 0xffff_ffff, c!(1));
                let ino = match self.fd(st, fd) {
                    Some(f) => f.inode,
                    None => fail32!(EBADF),
                };
                let len = st.fs.inodes[ino as usize].len;
                self.put_stat(st, b, ino as u64, 0o100644, len)?;
                if let Some(e) = st.fs.inodes[ino as usize].slen {
                    self.store_int(st, b + 48, &Val::S(e), 8)?;
                }
                c0
            }
            "stat64" | "lstat64" | "stat" | "lstat" => {
                let (p, b) = (c!(0), c!(1));
                let path = Self::norm(&self.cstr(st, p)?);
                if st.fs.dirs.contains(&path) {
                    self.put_stat(st, b, 1000, 0o040755, 4096)?;
                    return c0;
                }
                match st.fs.names.get(&path).copied() {
                    Some(ino) => {
                        let len = st.fs.inodes[ino as usize].len;
                        self.put_stat(st, b, ino as u64, 0o100644, len)?;
                        if let Some(e) = st.fs.inodes[ino as usize].slen {
                            self.store_int(st, b + 48, &Val::S(e), 8)?;
                        }
                        c0
                    }
                    None => fail32!(ENOENT),
                }
            }
            "access" | "faccessat" => {
                let p = c!(0);
                let path = Self::norm(&self.cstr(st, p)?);
                if st.fs.dirs.contains(&path) || st.fs.names.contains_key(&path) {
                    c0
                } else {
                    fail32!(ENOENT)
                }
            }
            "unlink" => {
                let p = c!(0);
                let path = Self::norm(&self.cstr(st, p)?);
                match self.io_fault(st, "unlink", F_OPEN | F_CRASH)? {
                    IoFault::Fail(e) => fail32!(e),
                    _ => {}
                }
                let fs = Rc::make_mut(&mut st.fs);
                if fs.names.remove(&path).is_some() {
                    c0
                } else {
                    fail32!(ENOENT)
                }
            }
            "rename" => {
                let (p, q) = (c!(0), c!(1));
                let a = Self::norm(&self.cstr(st, p)?);
                let b = Self::norm(&self.cstr(st, q)?);
                match self.io_fault(st, "rename", F_OPEN | F_CRASH)? {
                    IoFault::Fail(e) => fail32!(e),
                    _ => {}
                }
                let fs = Rc::make_mut(&mut st.fs);
                match fs.names.remove(&a) {
                    Some(i) => {
                        fs.names.insert(b, i);
                        c0
                    }
                    None => fail32!(ENOENT),
                }
            }
            "mkdir" => {
                let p = c!(0);
                let path = Self::norm(&self.cstr(st, p)?);
                let fs = Rc::make_mut(&mut st.fs);
                if fs.dirs.contains(&path) {
                    fail32!(EEXIST)
                }
                if !fs.dirs.contains(&Self::parent(&path)) {
                    fail32!(ENOENT)
                }
                fs.dirs.insert(path);
                c0
            }
            "rmdir" => {
                let p = c!(0);
                let path = Self::norm(&self.cstr(st, p)?);
                Rc::make_mut(&mut st.fs).dirs.remove(&path);
                c0
            }
            "mmap" | "mmap64" => {
                let (len, flags, fd, off) = (c!(1), c!(3) & 0xffff_ffff, c!(4) & 0xffff_ffff, c!(5));
                if flags & 0x20 != 0 {
                    return ok!(self.alloc(st, len));
                }
                if len == 0 || off % 4096 != 0 {
                    fail!(EINVAL)
                }
                if let IoFault::Fail(e) = self.io_fault(st, "mmap", F_OPEN | F_CRASH)? {
                    fail!(e)
                }
                let ino = match self.fd(st, fd) {
                    Some(f) => f.inode,
                    None => fail!(EBADF),
                };
                let at = self.file_addr(st, ino, off)?;
                if flags & 1 == 0 {
                    // MAP_PRIVATE: a snapshot copy
                    let flen = st.fs.inodes[ino as usize].len;
                    let a = self.alloc(st, (len + 4095) / 4096 * 4096);
                    let n = len.min(flen.saturating_sub(off));
                    self.copy(st, a, at, n)?;
                    return ok!(a);
                }
                ok!(at)
            }
            "munmap" => c0,
            "mprotect" => c0,
            "sysconf" => {
                let k = c!(0) & 0xffff_ffff;
                ok!(match k {
                    30 => 4096u64,
                    _ => 1024,
                })
            }
            "getpagesize" => ok!(4096),
            "fcntl" | "fcntl64" => {
                let (fd, cmd) = (c!(0) & 0xffff_ffff, c!(1) & 0xffff_ffff);
                if cmd == 0 || cmd == 1030 {
                    let f = match self.fd(st, fd) {
                        Some(f) => f.clone(),
                        None => fail32!(EBADF),
                    };
                    // the duplicate shares the offset in POSIX; here it gets its own copy
                    let fs = Rc::make_mut(&mut st.fs);
                    fs.fds.push(Some(f));
                    return ok!(fs.fds.len() - 1);
                }
                if self.fd(st, fd).is_none() && fd > 2 {
                    fail32!(EBADF)
                }
                c0
            }
            "dup" => {
                let fd = c!(0) & 0xffff_ffff;
                let f = match self.fd(st, fd) {
                    Some(f) => f.clone(),
                    None => fail32!(EBADF),
                };
                let fs = Rc::make_mut(&mut st.fs);
                fs.fds.push(Some(f));
                ok!(fs.fds.len() - 1)
            }
            "syscall" => {
                let nr = c!(0);
                match nr {
                    202 => {
                        let (addr, op, val) = (c!(1), c!(2) & 0x7f, c!(3) & 0xffff_ffff);
                        match op {
                            0 | 9 => {
                                let cv = self.load_int(st, addr, 4)?;
                                let cur = self.conc(st, &cv)? as u64;
                                if cur != val {
                                    fail!(EAGAIN)
                                }
                                self.block(st, TStat::Futex(addr))?;
                                Ok(None)
                            }
                            1 | 10 => {
                                let mut n = 0u64;
                                for t in st.others.iter_mut().flatten() {
                                    if n < val && t.stat == TStat::Futex(addr) {
                                        t.stat = TStat::Run;
                                        n += 1;
                                    }
                                }
                                ok!(n)
                            }
                            _ => fail!(ENOSYS),
                        }
                    }
                    186 => ok!(st.cur + 1),
                    _ => fail!(ENOSYS),
                }
            }
            "copy_file_range" | "sendfile" | "sendfile64" | "splice" | "getrandom" => fail!(ENOSYS),
            "statx" => fail32!(ENOSYS),
            "clock_gettime" => {
                let b = c!(1);
                self.fill(st, b, &Val::C(0), 16)?;
                c0
            }
            "getenv" => c0,
            "getcwd" => {
                let (b, _n) = (c!(0), c!(1));
                self.put_bytes(st, b, &b"/sym\0".iter().map(|&x| (x, 0)).collect::<Vec<_>>())?;
                ok!(b)
            }
            "realpath" => fail!(ENOENT),
            "sched_yield" | "pthread_self" | "signal" | "sigaction" | "sigaltstack" => c0,
            "pthread_key_create" => {
                let p = c!(0);
                let k = st.tls_next;
                st.tls_next += 1;
                self.store_int(st, p, &Val::C(k as u128), 4)?;
                c0
            }
            "pthread_key_delete" => c0,
            "pthread_setspecific" => {
                let (k, x) = (c!(0) & 0xffff_ffff, c!(1));
                st.tls.insert(k | (st.cur as u64) << 32, x);
                c0
            }
            "pthread_getspecific" => {
                let k = c!(0) & 0xffff_ffff;
                ok!(*st.tls.get(&(k | (st.cur as u64) << 32)).unwrap_or(&0))
            }
            "__cxa_thread_atexit_impl" => c0,
            "getpid" | "gettid" => ok!(4242),
            "abort" | "_exit" | "exit" => {
                if self.unwind_try(st, 1) {
                    return Ok(None);
                }
                self.violation(st, "abort", &format!("process {}", name), &[]);
                Err(Stop::Outcome("abort".into()))
            }
            "__xpg_strerror_r" | "strerror_r" => {
                let (b, n) = (c!(1), c!(2));
                if n > 0 {
                    self.put_bytes(st, b, &[(b'E', 0), (0, 0)])?;
                }
                c0
            }
            "log" => {
                let x = f64::from_bits(c!(0));
                ok!(x.ln().to_bits())
            }
            "log2" => {
                let x = f64::from_bits(c!(0));
                ok!(x.log2().to_bits())
            }
            "pow" => {
                let (x, y) = (f64::from_bits(c!(0)), f64::from_bits(c!(1)));
                ok!(x.powf(y).to_bits())
            }
            "ceil" => ok!(f64::from_bits(c!(0)).ceil().to_bits()),
            "floor" => ok!(f64::from_bits(c!(0)).floor().to_bits()),
            "round" => ok!(f64::from_bits(c!(0)).round().to_bits()),
            "trunc" => ok!(f64::from_bits(c!(0)).trunc().to_bits()),
            _ => Err(Stop::Err(format!("unmodelled external function {}", name))),
        }
    }

    fn sym(&mut self, st: &mut State, name: &str, v: &[Val]) -> R<Option<Val>> {
        let c0 = Ok(Some(Val::C(0)));
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &v[$i])? as u64
            };
        }
        macro_rules! ok {
            ($x:expr) => {
                Ok(Some(Val::C($x as u128)))
            };
        }
        match name {
            "u64" => {
                let n = self.str_arg(st, &v[0], &v[1])?;
                let e = self.fresh(st, &n, 8);
                Ok(Some(self.wrap(e)))
            }
            "bytes" => {
                let (p, n) = (c!(0), c!(1));
                let nm = self.str_arg(st, &v[2], &v[3])?;
                let mut o = 0;
                while o < n {
                    let k = (n - o).min(8);
                    let e = self.fresh(st, &nm, k as u32);
                    let val = self.wrap(e);
                    self.store_int(st, p + o, &val, k as usize)?;
                    o += k;
                }
                c0
            }
            "assume" => match &v[0] {
                Val::C(x) => {
                    if x & 1 == 0 {
                        Err(Stop::Infeasible)
                    } else {
                        c0
                    }
                }
                Val::S(e) => {
                    let e = self.p.extract(*e, 0, 1);
                    if let Some(x) = self.lookup(st, e) {
                        return if x != 0 { c0 } else { Err(Stop::Infeasible) };
                    }
                    match self.s.check(&mut self.p, &st.pc, &[e]) {
                        Res::Unsat => Err(Stop::Infeasible),
                        Res::Sat => {
                            self.add_pc(st, e);
                            c0
                        }
                        Res::Unknown => Err(Stop::Err("solver gave no answer on an assumption".into())),
                    }
                }
                _ => panic!(),
            },
            "assert" => {
                let m = self.str_arg(st, &v[1], &v[2])?;
                let e = match &v[0] {
                    Val::C(x) => self.p.konst(*x & 1, 1),
                    Val::S(e) => self.p.extract(*e, 0, 1),
                    _ => panic!(),
                };
                self.check_assert(st, e, &m)?;
                c0
            }
            "assert_eq" => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                let m = self.str_arg(st, &v[3], &v[4])?;
                let x = self.bytes(st, a, n)?;
                let y = self.bytes(st, b, n)?;
                let e = self.cmp_bytes(&x, &y);
                // identical terms: still put the (trivially valid) obligation to the solver
                if self.p.cval(e) == Some(1) && x.iter().any(|t| t.1 != 0) {
                    self.asserts += 1;
                    self.asserts_sym += 1;
                    let es: Vec<Eid> = x.iter().map(|&(c, e)| if e != 0 { e } else { self.p.konst(c as u128, 8) }).collect();
                    let t = self.p.concat(&es);
                    let q = self.p.raw_ne(t, t);
                    return match self.s.check(&mut self.p, &[], &[q]) {
                        Res::Unsat => c0,
                        _ => Err(Stop::Err("the solver does not confirm an identity".into())),
                    };
                }
                self.check_assert(st, e, &m)?;
                c0
            }
            "reach" => {
                let m = self.str_arg(st, &v[0], &v[1])?;
                st.reached.insert(m);
                c0
            }
            "trace" => {
                let m = self.str_arg(st, &v[0], &v[1])?;
                let x = match &v[2] {
                    Val::C(c) => format!("{}", c),
                    Val::S(e) => self.show(*e, 3),
                    _ => "?".into(),
                };
                st.trace.push(format!("{}={}", m, x));
                c0
            }
            "print" => {
                let m = self.str_arg(st, &v[0], &v[1])?;
                if self.cfg.verbose {
                    eprintln!("[sym] {}", m);
                }
                if self.prints.len() < 5000 {
                    self.prints.push(m);
                }
                c0
            }
            "hash" => {
                let (p, n, o, k) = (c!(0), c!(1), c!(2), c!(3));
                let b = self.bytes(st, p, n)?;
                let conc = b.iter().all(|t| t.1 == 0);
                if conc && self.cfg.concrete.is_some() {
                    let data: Vec<u8> = b.iter().map(|t| t.0).collect();
                    let h = fallback_hash(&data, k as usize);
                    self.put_bytes(st, o, &h.iter().map(|&x| (x, 0)).collect::<Vec<_>>())?;
                    return c0;
                }
                if n == 0 || k > 16 {
                    return Err(Stop::Err("sym_hash: bad sizes".into()));
                }
                let es: Vec<Eid> = b.iter().map(|&(c, e)| if e != 0 { e } else { self.p.konst(c as u128, 8) }).collect();
                let arg = self.p.concat(&es);
                let h = self.p.hash(arg, 8 * k as u32);
                self.store_int(st, o, &Val::S(h), k as usize)?;
                c0
            }
            "concretize" => {
                let x = c!(0);
                ok!(x)
            }
            "is_const" => ok!(matches!(v[0], Val::C(_))),
            "symbolic" => ok!(1),
            "param" => {
                let m = self.str_arg(st, &v[0], &v[1])?;
                match self.cfg.params.get(&m) {
                    Some(x) => ok!(*x),
                    None => Ok(Some(v[2].clone())),
                }
            }
            "allow_panic" => {
                st.allow_panic = c!(0) & 1 != 0;
                c0
            }
            // int sym_try(fn, data): 0 returned, 1 panicked, 2 crashed at an injected crash point
            "try" => {
                let (f, d) = (c!(0), c!(1));
                let dst = {
                    let fr = st.th.frames.last().unwrap();
                    fr.body.blocks[fr.block as usize].insts[fr.ip as usize].dst
                };
                st.th.frames.last_mut().unwrap().ip += 1;
                st.tries.push((st.th.frames.len() as u32, dst, st.th.sp));
                let fi = ((f - FN_BASE) >> 4) as u32;
                self.push_frame(st, fi, vec![Val::C(d as u128)], NODST)?;
                Ok(None)
            }
            "sched_choice" => {
                match st.sched_mode {
                    0 => c0,
                    1 => ok!(1), // always the stolen half first
                    2 => {
                        // every join order, up to the budget
                        if st.sched_budget == 0 {
                            return c0;
                        }
                        let x = self.choice(st, "sched", 3)?;
                        st.sched_budget -= 1;
                        ok!(x)
                    }
                    3 => {
                        // one deviating join, at a symbolic position
                        if st.sched_budget == 0 {
                            return c0;
                        }
                        let x = self.choice(st, "sched", 2)?;
                        if x != 0 {
                            st.sched_budget -= 1;
                        }
                        ok!(x)
                    }
                    4 => ok!(2),
                    // 5: real threads
                    _ => ok!(9),
                }
            }
            "num_threads" => ok!(st.nthreads),
            "sched_config" => {
                st.sched_mode = c!(0) as u32;
                st.sched_budget = c!(1);
                st.nthreads = c!(2);
                c0
            }
            "preempt_config" => {
                st.preempt_budget = c!(0);
                st.preempt_kinds = c!(1);
                c0
            }
            "fault_config" => {
                let (m, n) = (c!(0), c!(1));
                let fs = Rc::make_mut(&mut st.fs);
                fs.fault_mask = m;
                fs.faults_left = n;
                fs.dead = false;
                c0
            }
            "faults_hit" => ok!(st.fs.fault_hit),
            "spawn" => {
                let (f, d) = (c!(0), c!(1));
                let fi = ((f - FN_BASE) >> 4) as u32;
                let so = self.alloc(st, 8 << 20);
                let mut th = Thread { frames: vec![], stack: (so >> 32) as u32, sp: 64, stat: TStat::Run, ret: 0 };
                std::mem::swap(&mut st.th, &mut th);
                let r = self.push_frame(st, fi, vec![Val::C(d as u128)], NODST);
                std::mem::swap(&mut st.th, &mut th);
                r?;
                st.others.push(Some(th));
                ok!(st.others.len() - 1)
            }
            "join" => {
                let t = c!(0) as usize;
                match &st.others[t] {
                    Some(x) if x.stat == TStat::Done => c0,
                    Some(_) => {
                        self.block(st, TStat::Join(t as u32))?;
                        Ok(None)
                    }
                    None => Err(Stop::Err("join of the current thread".into())),
                }
            }
            "set_file_len" => {
                let path = Self::norm(&self.str_arg(st, &v[0], &v[1])?);
                let ino = match st.fs.names.get(&path).copied() {
                    Some(i) => i,
                    None => return Err(Stop::Err("sym_set_file_len: no such file".into())),
                };
                match &v[2] {
                    Val::C(n) => {
                        let n = *n as u64;
                        self.resize_inode(st, ino, n)?
                    }
                    Val::S(e) => Rc::make_mut(&mut st.fs).inodes[ino as usize].slen = Some(*e),
                    _ => return Err(Stop::Err("sym_set_file_len: bad length".into())),
                }
                c0
            }
            "set_readonly" => {
                let path = Self::norm(&self.str_arg(st, &v[0], &v[1])?);
                Rc::make_mut(&mut st.fs).readonly.insert(path);
                c0
            }
            "heap_live" => ok!(st.heap_live),
            "open_fds" => ok!(st.fs.fds.iter().filter(|f| f.is_some()).count()),
            "file_count" => ok!(st.fs.names.len()),
            _ => Err(Stop::Err(format!("unknown primitive sym_{}", name))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, r: &str, v: &[Val], args: &[(Opnd, TyId)], rt: TyId) -> R<Option<Val>> {
        let base: Vec<&str> = r.split('.').collect();
        let c0 = Ok(Some(Val::C(0)));
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &v[$i])? as u64
            };
        }
        macro_rules! ok {
            ($x:expr) => {
                Ok(Some(Val::C($x as u128)))
            };
        }
        let w0 = |s: &Engine| -> u32 {
            let ts = s.m.types.borrow();
            match ts.ty(args[0].1) {
                Ty::Int(w) => *w,
                Ty::Ptr => 64,
                Ty::Float(w) => *w,
                Ty::Vec(_, e) => ts.bits(*e),
                _ => 0,
            }
        };
        match base[0] {
            "lifetime" | "assume" | "dbg" | "invariant" | "var" | "prefetch" | "donothing" | "sideeffect" => c0,
            "experimental" if base.get(1) == Some(&"noalias") => c0,
            "x86" => c0,
            "expect" | "launder" | "strip" | "ptrmask" => Ok(Some(v[0].clone())),
            "threadlocal" => Ok(Some(v[0].clone())),
            "memcpy" | "memmove" => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s, n)?;
                c0
            }
            "memset" => {
                let (d, n) = (c!(0), c!(2));
                self.fill(st, d, &v[1], n)?;
                c0
            }
            "trap" | "ubsantrap" | "debugtrap" => {
                self.violation(st, "trap", "trap instruction reached", &[]);
                Err(Stop::Outcome("trap".into()))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let w = w0(self);
                let p = match base[0] {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if let (Val::A(xs), Val::A(ys)) = (&v[0], &v[1]) {
                    let mut out = vec![];
                    for (a, b) in xs.iter().zip(ys.iter()) {
                        out.push(match self.icmp(p, w, a, b) {
                            Val::C(x) => {
                                if x != 0 {
                                    a.clone()
                                } else {
                                    b.clone()
                                }
                            }
                            Val::S(c) => {
                                let (x, y) = (self.ex(a, w), self.ex(b, w));
                                let e = self.p.ite(c, x, y);
                                self.wrap(e)
                            }
                            _ => panic!(),
                        });
                    }
                    return Ok(Some(Val::A(out.into())));
                }
                Ok(Some(match self.icmp(p, w, &v[0], &v[1]) {
                    Val::C(x) => {
                        if x != 0 {
                            v[0].clone()
                        } else {
                            v[1].clone()
                        }
                    }
                    Val::S(c) => {
                        let (x, y) = (self.ex(&v[0], w), self.ex(&v[1], w));
                        let e = self.p.ite(c, x, y);
                        self.wrap(e)
                    }
                    _ => panic!(),
                }))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let w = w0(self);
                let sat = base.get(1) == Some(&"sat");
                let signed = base[0].starts_with('s');
                let op = match &base[0][1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                if let (Val::C(a), Val::C(b)) = (&v[0], &v[1]) {
                    let (a, b) = (*a, *b);
                    let (res, ovf) = if signed {
                        let (x, y) = (sext(a, w), sext(b, w));
                        let (r, o) = match op {
                            Op::Add => x.overflowing_add(y),
                            Op::Sub => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        let t = r as u128 & mask(w);
                        (t, o || sext(t, w) != r)
                    } else {
                        let (r, o) = match op {
                            Op::Add => a.overflowing_add(b),
                            Op::Sub => a.overflowing_sub(b),
                            _ => a.overflowing_mul(b),
                        };
                        (r & mask(w), o || r & mask(w) != r)
                    };
                    if sat {
                        if !ovf {
                            return ok!(res);
                        }
                        return ok!(if signed {
                            let neg = match op {
                                Op::Add => sext(a, w) < 0,
                                _ => sext(a, w) < 0,
                            };
                            if neg {
                                1u128 << (w - 1)
                            } else {
                                mask(w - 1)
                            }
                        } else if op == Op::Sub {
                            0
                        } else {
                            mask(w)
                        });
                    }
                    return Ok(Some(Val::A(vec![Val::C(res), Val::C(ovf as u128)].into())));
                }
                let (x, y) = (self.ex(&v[0], w), self.ex(&v[1], w));
                let r = self.p.bin(op, x, y);
                let ovf = match (signed, op) {
                    (false, Op::Add) => self.p.bin(Op::Ult, r, x),
                    (false, Op::Sub) => self.p.bin(Op::Ult, x, y),
                    (false, _) => {
                        if w > 64 {
                            return Err(Stop::Err("symbolic umul.with.overflow wider than 64".into()));
                        }
                        let (x2, y2) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                        let p = self.p.bin(Op::Mul, x2, y2);
                        let hi = self.p.extract(p, w, w);
                        let z = self.p.konst(0, w);
                        let eq = self.p.bin(Op::Eq, hi, z);
                        self.p.not1(eq)
                    }
                    (true, _) => {
                        let n = if op == Op::Mul { 2 * w } else { w + 1 };
                        if n > 128 {
                            return Err(Stop::Err("symbolic signed overflow intrinsic too wide".into()));
                        }
                        let (x2, y2) = (self.p.sext(x, n), self.p.sext(y, n));
                        let p = self.p.bin(op, x2, y2);
                        let back = self.p.sext(r, n);
                        let eq = self.p.bin(Op::Eq, p, back);
                        self.p.not1(eq)
                    }
                };
                if sat {
                    let s = if signed {
                        let neg = self.p.extract(x, w - 1, 1);
                        let (lo, hi) = (self.p.konst(1u128 << (w - 1), w), self.p.konst(mask(w - 1), w));
                        self.p.ite(neg, lo, hi)
                    } else if op == Op::Sub {
                        self.p.konst(0, w)
                    } else {
                        self.p.konst(mask(w), w)
                    };
                    let e = self.p.ite(ovf, s, r);
                    return Ok(Some(self.wrap(e)));
                }
                let (a, b) = (self.wrap(r), self.wrap(ovf));
                Ok(Some(Val::A(vec![a, b].into())))
            }
            "ctlz" | "cttz" | "ctpop" => {
                let w = w0(self);
                match &v[0] {
                    Val::C(x) => {
                        let x = *x;
                        ok!(match base[0] {
                            "ctlz" => w - (128 - x.leading_zeros()),
                            "cttz" =>
                                if x == 0 {
                                    w
                                } else {
                                    x.trailing_zeros()
                                },
                            _ => x.count_ones(),
                        })
                    }
                    Val::S(e) => {
                        let e = *e;
                        let mut r;
                        match base[0] {
                            "ctpop" => {
                                r = self.p.konst(0, w);
                                for i in 0..w {
                                    let b = self.p.extract(e, i, 1);
                                    let z = self.p.zext(b, w);
                                    r = self.p.bin(Op::Add, r, z);
                                }
                            }
                            "ctlz" => {
                                r = self.p.konst(w as u128, w);
                                for i in 0..w {
                                    let b = self.p.extract(e, i, 1);
                                    let k = self.p.konst((w - 1 - i) as u128, w);
                                    r = self.p.ite(b, k, r);
                                }
                            }
                            _ => {
                                r = self.p.konst(w as u128, w);
                                for i in (0..w).rev() {
                                    let b = self.p.extract(e, i, 1);
                                    let k = self.p.konst(i as u128, w);
                                    r = self.p.ite(b, k, r);
                                }
                            }
                        }
                        Ok(Some(self.wrap(r)))
                    }
                    _ => Err(Stop::Err("vector bit count".into())),
                }
            }
            "bswap" => {
                let w = w0(self);
                match &v[0] {
                    Val::C(x) => {
                        let n = w as usize / 8;
                        let b = x.to_le_bytes();
                        let mut o = [0u8; 16];
                        for i in 0..n {
                            o[i] = b[n - 1 - i];
                        }
                        ok!(u128::from_le_bytes(o))
                    }
                    Val::S(e) => {
                        let e = *e;
                        let parts: Vec<Eid> = (0..w / 8).rev().map(|i| self.p.extract(e, 8 * i, 8)).collect();
                        let x = self.p.concat(&parts);
                        Ok(Some(self.wrap(x)))
                    }
                    _ => Err(Stop::Err("bswap".into())),
                }
            }
            "bitreverse" => {
                let w = w0(self);
                let x = c!(0) as u128;
                ok!(x.reverse_bits() >> (128 - w))
            }
            "fshl" | "fshr" => {
                let w = w0(self);
                let s = (c!(2) % w as u64) as u32;
                let l = base[0] == "fshl";
                match (&v[0], &v[1]) {
                    (Val::C(a), Val::C(b)) => {
                        let (a, b) = (*a, *b);
                        ok!(if s == 0 {
                            if l {
                                a
                            } else {
                                b
                            }
                        } else if l {
                            ((a << s) | (b >> (w - s))) & mask(w)
                        } else {
                            ((a << (w - s)) | (b >> s)) & mask(w)
                        })
                    }
                    _ => {
                        let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                        let cat = self.p.concat(&[b, a]);
                        let e = if l { self.p.extract(cat, w - s, w) } else { self.p.extract(cat, s, w) };
                        Ok(Some(self.wrap(e)))
                    }
                }
            }
            "abs" => {
                let w = w0(self);
                match &v[0] {
                    Val::C(x) => ok!(sext(*x, w).unsigned_abs() & mask(w)),
                    Val::S(e) => {
                        let z = self.p.konst(0, w);
                        let n = self.p.bin(Op::Sub, z, *e);
                        let s = self.p.extract(*e, w - 1, 1);
                        let r = self.p.ite(s, n, *e);
                        Ok(Some(self.wrap(r)))
                    }
                    _ => panic!(),
                }
            }
            "ucmp" | "scmp" => {
                let w = w0(self);
                let p = if base[0] == "ucmp" { Pred::Ult } else { Pred::Slt };
                let rw = self.m.types.borrow().bits(rt);
                let lt = self.icmp(p, w, &v[0], &v[1]);
                let gt = self.icmp(p, w, &v[1], &v[0]);
                let (l, g) = (self.ex(&lt, 1), self.ex(&gt, 1));
                let (m1, z, o) = (self.p.konst(mask(rw), rw), self.p.konst(0, rw), self.p.konst(1, rw));
                let t = self.p.ite(g, o, z);
                let e = self.p.ite(l, m1, t);
                Ok(Some(self.wrap(e)))
            }
            "vector" if base.get(1) == Some(&"reduce") => {
                let w = w0(self);
                if let Val::A(xs) = &v[0] {
                    let op = match base[2] {
                        "or" => Op::Or,
                        "and" => Op::And,
                        "xor" => Op::Xor,
                        "add" => Op::Add,
                        _ => return Err(Stop::Err(format!("intrinsic {}", r))),
                    };
                    let mut acc = xs[0].clone();
                    for x in &xs[1..] {
                        acc = self.binop(op, w, &acc, x);
                    }
                    return Ok(Some(acc));
                }
                Err(Stop::Err("reduce".into()))
            }
            "load" => {
                // load.relative
                let (p, o) = (c!(0), c!(1));
                let x = self.load_int(st, p.wrapping_add(o), 4)?;
                let d = sext(self.conc(st, &x)?, 32) as i64;
                ok!(p.wrapping_add(d as u64))
            }
            "fptoui" | "fptosi" => {
                let w = self.m.types.borrow().bits(rt);
                let x = if w0(self) == 32 { f32::from_bits(c!(0) as u32) as f64 } else { f64::from_bits(c!(0)) };
                if base[0] == "fptoui" {
                    let m = mask(w);
                    let k = x as u128;
                    ok!(k.min(m))
                } else {
                    let hi = mask(w - 1) as i128;
                    let k = (x as i128).clamp(-hi - 1, hi);
                    ok!(k as u128 & mask(w))
                }
            }
            "log" | "log2" | "pow" | "ceil" | "floor" | "trunc" | "round" | "sqrt" | "fabs" | "rint" | "roundeven" | "powi" => {
                let x = f64::from_bits(c!(0));
                let y = match base[0] {
                    "log" => x.ln(),
                    "log2" => x.log2(),
                    "pow" => x.powf(f64::from_bits(c!(1))),
                    "powi" => x.powi(c!(1) as i32),
                    "ceil" => x.ceil(),
                    "floor" => x.floor(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    "sqrt" => x.sqrt(),
                    "fabs" => x.abs(),
                    _ => x.round_ties_even(),
                };
                ok!(y.to_bits())
            }
            "is" => c0, // is.constant
            "objectsize" => ok!(NEG1),
            "stacksave" | "stackrestore" => c0,
            _ => Err(Stop::Err(format!("unmodelled intrinsic llvm.{}", r))),
        }
    }
}

/// Deterministic stand-in for hash inputs a model does not mention (same function in the native runtime).
pub fn fallback_hash(data: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut seed = 0u64;
    while out.len() < n {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (data.len() as u64).wrapping_mul(0xff51afd7ed558ccd);
        for &b in data {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 33;
        out.extend_from_slice(&h.to_le_bytes());
        seed += 1;
    }
    out.truncate(n);
    out
}
