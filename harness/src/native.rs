//! Native side of the harness runtime: primitives fed from a replay file (a solver model).
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
pub struct Rt {
    pub inputs: HashMap<String, Vec<u8>>,
    pub params: HashMap<String, u64>,
    pub hashes: HashMap<Vec<u8>, Vec<u8>>,
    pub counters: HashMap<String, u32>,
    pub fault_mask: u64,
    pub faults_left: u64,
    pub fault_hit: u64,
    pub dead: bool,
    pub sched_mode: u64,
    pub sched_budget: u64,
    pub threads: u64,
    pub scratch: String,
    pub prints: bool,
    pub fault_thread: u64,
}
pub static RT: Mutex<Option<Rt>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    let mut g = RT.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Default::default))
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn load(path: &str) -> String {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut entry = String::new();
    with(|r| {
        for l in t.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match p[0] {
                "entry" => entry = p[1].into(),
                "param" => {
                    r.params.insert(p[1].into(), p[2].parse().unwrap());
                }
                "input" => {
                    r.inputs.insert(p[1].into(), unhex(p.get(2).copied().unwrap_or("")));
                }
                "hash" => {
                    r.hashes.insert(unhex(p[1]), unhex(p[2]));
                }
                "print" => r.prints = true,
                _ => {}
            }
        }
        let base = std::env::var("SYM_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
        r.scratch = format!("{}/symreplay-{}", base, std::process::id());
        r.threads = 1;
    });
    std::fs::create_dir_all(scratch()).unwrap();
    entry
}
pub fn scratch() -> &'static str {
    let s = with(|r| r.scratch.clone());
    Box::leak(s.into_boxed_str())
}
pub fn cleanup() {
    let s = scratch();
    if s.contains("symreplay-") {
        let _ = std::fs::remove_dir_all(s);
    }
}
fn s(p: *const u8, l: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, l)).into_owned() }
}
pub fn finish(code: i32) -> ! {
    unsafe { sym_fault_config(0, 0) };
    cleanup();
    std::process::exit(code)
}
pub fn violated(kind: &str, m: &str) -> ! {
    println!("REPRODUCED kind={} {}", kind, m);
    finish(10)
}
fn next(name: &str, n: usize) -> Vec<u8> {
    with(|r| {
        let c = r.counters.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, c);
        *c += 1;
        let mut v = r.inputs.get(&full).cloned().unwrap_or_default();
        v.resize(n, 0);
        v
    })
}
pub unsafe fn sym_u64(n: *const u8, l: usize) -> u64 {
    u64::from_le_bytes(next(&s(n, l), 8).try_into().unwrap())
}
pub unsafe fn sym_bytes(p: *mut u8, n: usize, nm: *const u8, l: usize) {
    let name = s(nm, l);
    let mut o = 0;
    while o < n {
        let k = (n - o).min(8);
        let v = next(&name, k);
        std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(o), k);
        o += k;
    }
}
pub unsafe fn sym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION-FAILED");
        finish(20)
    }
}
pub unsafe fn sym_assert(c: bool, m: *const u8, l: usize) {
    if !c {
        violated("assert", &s(m, l))
    }
}
pub unsafe fn sym_assert_eq(a: *const u8, b: *const u8, n: usize, m: *const u8, l: usize) {
    if std::slice::from_raw_parts(a, n) != std::slice::from_raw_parts(b, n) {
        violated("assert", &s(m, l))
    }
}
pub unsafe fn sym_reach(_m: *const u8, _l: usize) {}
pub unsafe fn sym_trace(m: *const u8, l: usize, v: u64) {
    if with(|r| r.prints) {
        println!("TRACE {}={}", s(m, l), v);
    }
}
pub unsafe fn sym_print(m: *const u8, l: usize) {
    if with(|r| r.prints) {
        println!("PRINT {}", s(m, l));
    }
}
/// Must match the engine's `fallback_hash`.
pub fn fallback_hash(data: &[u8], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut seed = 0u64;
    while out.len() < n {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (data.len() as u64).wrapping_mul(0xff51afd7ed558ccd);
        for &b in data {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^= h >> 33;
        out.extend_from_slice(&h.to_le_bytes());
        seed += 1;
    }
    out.truncate(n);
    out
}
pub unsafe fn sym_hash(p: *const u8, n: usize, o: *mut u8, k: usize) {
    let d = std::slice::from_raw_parts(p, n).to_vec();
    let v = with(|r| r.hashes.get(&d).filter(|v| v.len() == k).cloned()).unwrap_or_else(|| fallback_hash(&d, k));
    std::ptr::copy_nonoverlapping(v.as_ptr(), o, k);
}
pub unsafe fn sym_concretize(v: u64) -> u64 {
    v
}
pub unsafe fn sym_param(n: *const u8, l: usize, d: u64) -> u64 {
    with(|r| r.params.get(&s(n, l)).copied().unwrap_or(d))
}
pub unsafe fn sym_try(f: fn(*mut u8), d: *mut u8) -> u32 {
    let p = d as usize;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p as *mut u8))) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
pub unsafe fn sym_sched_config(mode: u64, budget: u64, threads: u64) {
    with(|r| {
        r.sched_mode = mode;
        r.sched_budget = budget;
        r.threads = threads;
    })
}

// ---- threads: one runs at a time; the others get their turn at the engine's scheduling points
#[derive(Clone, Copy, PartialEq, Debug)]
enum TStat {
    Run,
    Join(usize),
    Blocked,
    Done,
}
struct Sched {
    cur: usize,
    stat: Vec<TStat>,
    budget: u64,
    kinds: u64,
    switches: u64,
    /// Directory of each thread's kernel task.
    task: Vec<String>,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { cur: 0, stat: vec![], budget: 0, kinds: 0, switches: 0, task: vec![] });
static TURN: std::sync::Condvar = std::sync::Condvar::new();
static THREADS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
type Guard = std::sync::MutexGuard<'static, Sched>;
fn lock() -> Guard {
    let mut g = SCHED.lock().unwrap_or_else(|e| e.into_inner());
    if g.stat.is_empty() {
        g.stat.push(TStat::Run);
        g.task.push(task());
    }
    g
}
fn task() -> String {
    std::fs::read_link("/proc/thread-self").map(|p| format!("/proc/{}/stat", p.display())).unwrap_or_default()
}
/// The thread sleeps in the kernel (as opposed to waiting for a processor).
fn asleep(task: &str) -> bool {
    let st = std::fs::read_to_string(task).unwrap_or_default();
    st.rsplit(')').next().map_or(false, |x| x.trim_start().starts_with('S'))
}
fn runnable(g: &Guard) -> Vec<usize> {
    (0..g.stat.len()).filter(|i| *i != g.cur && g.stat[*i] == TStat::Run).collect()
}
/// Wait for this thread's turn.  A thread that has the turn and sits in a lock loses it.
fn wait_turn(mut g: Guard) -> Guard {
    let me = ME.with(|m| m.get());
    if g.stat[me] == TStat::Blocked {
        g.stat[me] = TStat::Run;
    }
    loop {
        if g.cur == me && g.stat[me] == TStat::Run {
            return g;
        }
        let seen = g.switches;
        let (h, t) = TURN.wait_timeout(g, std::time::Duration::from_millis(300)).unwrap_or_else(|e| e.into_inner());
        g = h;
        if !t.timed_out() || g.switches != seen || runnable(&g).first() != Some(&me) {
            continue;
        }
        let c = g.cur;
        if g.stat[c] != TStat::Run {
            // nobody has the turn: the last holder found only threads blocked in locks
            give(&mut g, me);
        } else if asleep(&g.task[c]) {
            // neither waking up for its turn nor in this scheduler: it sits in a lock
            drop(g);
            std::thread::sleep(std::time::Duration::from_millis(30));
            g = lock();
            if g.switches == seen && g.cur == c && g.stat[c] == TStat::Run && runnable(&g).first() == Some(&me) && asleep(&g.task[c]) {
                g.stat[c] = TStat::Blocked;
                give(&mut g, me);
            }
        }
    }
}
fn give(g: &mut Guard, to: usize) {
    g.cur = to;
    g.switches += 1;
    TURN.notify_all();
}
/// The current thread cannot go on: the next one is the engine's choice.
fn give_any(g: &mut Guard) {
    let r = runnable(g);
    if r.is_empty() {
        if g.stat.iter().all(|s| *s != TStat::Blocked) {
            violated("deadlock", "no thread can make progress");
        }
        return;
    }
    let k = if r.len() > 1 && with(|x| x.sched_budget) > 0 { next("next", 1)[0] as usize } else { 0 };
    give(g, r[k.min(r.len() - 1)]);
}
pub unsafe fn sym_preempt_config(b: u64, kinds: u64) {
    let mut g = lock();
    g.budget = b;
    g.kinds = kinds;
}
#[no_mangle]
pub unsafe extern "C" fn sym_spawn(f: fn(*mut u8), d: *mut u8) -> u64 {
    let d = d as usize;
    let mut g = lock();
    let id = g.stat.len();
    g.stat.push(TStat::Run);
    g.task.push(String::new());
    THREADS.store(true, std::sync::atomic::Ordering::SeqCst);
    drop(g);
    let go = move || {
        ME.with(|m| m.set(id));
        let mut g = lock();
        g.task[id] = task();
        drop(wait_turn(g));
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d as *mut u8))).is_err() {
            violated("panic", "a thread panicked");
        }
        let mut g = wait_turn(lock());
        g.stat[id] = TStat::Done;
        for s in g.stat.iter_mut() {
            if *s == TStat::Join(id) {
                *s = TStat::Run;
            }
        }
        give_any(&mut g);
    };
    std::thread::Builder::new().stack_size(16 << 20).spawn(go).expect("thread");
    id as u64
}
#[no_mangle]
pub unsafe extern "C" fn sym_join(t: u64) {
    let me = ME.with(|m| m.get());
    let mut g = wait_turn(lock());
    if g.stat[t as usize] == TStat::Done {
        return;
    }
    g.stat[me] = TStat::Join(t as usize);
    give_any(&mut g);
    drop(wait_turn(g));
}
/// A scheduling point at an I/O call.
fn io_point() {
    if !THREADS.load(std::sync::atomic::Ordering::SeqCst) {
        return;
    }
    let mut g = wait_turn(lock());
    loop {
        if g.budget == 0 || g.kinds & 1 == 0 || g.stat.len() < 2 {
            return;
        }
        let r = runnable(&g);
        if r.is_empty() {
            return;
        }
        let c = next("preempt", 1)[0] as usize;
        if c == 0 || c > r.len() {
            return;
        }
        g.budget -= 1;
        give(&mut g, r[c - 1]);
        g = wait_turn(g);
    }
}
pub unsafe fn sym_fault_config(mask: u64, count: u64) {
    with(|r| {
        r.fault_mask = mask;
        r.faults_left = count;
        r.dead = false;
    });
    ACTIVE.store(mask != 0 && count != 0, std::sync::atomic::Ordering::SeqCst);
}
pub unsafe fn sym_faults_hit() -> u64 {
    with(|r| r.fault_hit)
}
pub unsafe fn sym_open_fds() -> u64 {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count() as u64).unwrap_or(0)
}

pub unsafe fn sym_set_file_len(p: *const u8, l: usize, n: u64) {
    std::fs::OpenOptions::new().write(true).open(s(p, l)).and_then(|f| f.set_len(n)).expect("harness file");
}
/// Files that may not be opened for writing.
static READONLY: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
pub unsafe fn sym_set_readonly(p: *const u8, l: usize) {
    READONLY.lock().unwrap().push(std::slice::from_raw_parts(p, l).to_vec());
}
pub unsafe fn sym_heap_live() -> u64 {
    0
}
pub unsafe fn sym_file_count() -> u64 {
    std::fs::read_dir(scratch()).map(|d| d.count() as u64).unwrap_or(0)
}

// ---- used by the rayon-core stub in the "shim" native build
#[no_mangle]
pub extern "C" fn sym_sched_choice() -> u32 {
    let (m, b) = with(|r| (r.sched_mode, r.sched_budget));
    match m {
        0 => 0,
        1 => 1,
        2 if b > 0 => {
            with(|r| r.sched_budget -= 1);
            next("sched", 1)[0] as u32
        }
        3 if b > 0 => {
            let x = next("sched", 1)[0] as u32;
            if x != 0 {
                with(|r| r.sched_budget -= 1);
            }
            x
        }
        4 => 2,
        5 => 9,
        _ => 0,
    }
}
#[no_mangle]
pub extern "C" fn sym_num_threads() -> usize {
    with(|r| r.threads.max(1) as usize)
}

// ---- I/O fault injection by interposing libc entry points (replay only)
static ACTIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
/// 0 = no fault, 1 = fail EIO, 2 = short, 3 = EINTR, 4 = half (of a write, then the process is dead)
fn fault(kinds: u64) -> u32 {
    if !ACTIVE.load(std::sync::atomic::Ordering::SeqCst) {
        return 0;
    }
    if with(|r| r.dead) {
        return 1;
    }
    let (m, left) = with(|r| (r.fault_mask & kinds, r.faults_left));
    if m == 0 || left == 0 {
        return 0;
    }
    let opts: Vec<u64> = [1u64, 2, 4, 8, 16, 32, 64, 128, 256].iter().copied().filter(|k| m & k != 0).collect();
    let c = next("io", 1)[0] as usize;
    if c == 0 || c > opts.len() {
        return 0;
    }
    with(|r| {
        r.faults_left -= 1;
        r.fault_hit += 1;
        r.dead = opts[c - 1] == 64 || opts[c - 1] == 256;
    });
    match opts[c - 1] {
        16 | 32 => 2,
        128 => 3,
        256 => 4,
        _ => 1,
    }
}
unsafe fn fail(code: u32) -> i64 {
    *__errno_location() = if code == 3 { 4 } else { 5 };
    -1
}
unsafe fn avail(fd: i32, pos: Option<i64>, n: usize) -> usize {
    let p = match pos {
        Some(p) => p,
        None => syscall(8, fd as i64, 0i64, 1i64),
    };
    let end = {
        let mut st = [0u8; 144];
        if syscall(5, fd as i64, st.as_mut_ptr()) != 0 {
            return n;
        }
        i64::from_le_bytes(st[48..56].try_into().unwrap())
    };
    n.min((end - p).max(0) as usize)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    io_point();
    let mut n = n;
    if ACTIVE.load(std::sync::atomic::Ordering::SeqCst) {
        let k = avail(fd, None, n);
        match fault(1 | 64 | 128 | if k >= 2 { 16 } else { 0 }) {
            0 => {}
            2 => n = k - 1,
            c => return fail(c) as isize,
        }
    }
    syscall(0, fd as i64, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
    io_point();
    let mut n = n;
    if ACTIVE.load(std::sync::atomic::Ordering::SeqCst) {
        let k = avail(fd, Some(o), n);
        match fault(1 | 64 | 128 | if k >= 2 { 16 } else { 0 }) {
            0 => {}
            2 => n = k - 1,
            c => return fail(c) as isize,
        }
    }
    syscall(17, fd as i64, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    let mut n = n;
    if fd > 2 {
        io_point();
        match fault(2 | 64 | 128 | if n >= 2 { 32 | 256 } else { 0 }) {
            0 => {}
            2 => n -= 1,
            4 => n /= 2,
            c => return fail(c) as isize,
        }
    }
    syscall(1, fd as i64, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
    io_point();
    let mut n = n;
    match fault(2 | 64 | 128 | if n >= 2 { 32 | 256 } else { 0 }) {
        0 => {}
        2 => n -= 1,
        4 => n /= 2,
        c => return fail(c) as isize,
    }
    syscall(18, fd as i64, b, n, o) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    io_point();
    match fault(8 | 64) {
        0 => syscall(77, fd as i64, n) as i32,
        c => fail(c) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    match fault(8 | 64) {
        0 => syscall(74, fd as i64) as i32,
        c => fail(c) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, fl: i32, mode: u32) -> i32 {
    if fl & 3 != 0 && READONLY.lock().unwrap().iter().any(|r| r == std::ffi::CStr::from_ptr(p as *const _).to_bytes()) {
        *__errno_location() = 13;
        return -1;
    }
    match fault(4 | 64) {
        0 => syscall(257, -100i64, p, fl as i64, mode as i64) as i32,
        c => fail(c) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    match fault(4 | 64) {
        0 => syscall(87, p) as i32,
        c => fail(c) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
    if flags & 0x20 == 0 && n > 0 && off % 4096 == 0 {
        match fault(4 | 64) {
            0 => {}
            c => return fail(c) as *mut u8,
        }
    }
    syscall(9, a, n, prot as i64, flags as i64, fd as i64, off) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
    mmap64(a, n, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    match fault(4 | 64) {
        0 => syscall(82, a, b) as i32,
        c => fail(c) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
    io_point();
    syscall(8, fd as i64, o, w as i64)
}
// Copies inside the kernel are not there (as in the model): std falls back to read and write.
unsafe fn nosys() -> isize {
    *__errno_location() = 38;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize {
    nosys()
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: i32, _: i32, _: *mut i64, _: usize) -> isize {
    nosys()
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_: i32, _: i32, _: *mut i64, _: usize) -> isize {
    nosys()
}
#[no_mangle]
pub unsafe extern "C" fn splice(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize {
    nosys()
}
