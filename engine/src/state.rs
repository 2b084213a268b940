//! Symbolic program state: memory objects, frames, path condition, file system.
use crate::expr::Eid;
use crate::ir::{Body, Val};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// parallel to `data`; 0 = concrete byte, otherwise an 8-bit expression
    pub sym: Option<Vec<u32>>,
    /// bytes from FAR on (files larger than that are sparse)
    pub far: Option<BTreeMap<u64, (u8, u32)>>,
    pub readonly: bool,
}
pub const FAR: usize = 1 << 26;
/// Addresses of objects beyond 4 GiB: bit 61, 17 bits of object id, 44 bits of offset.
pub const BIG: u64 = 1 << 61;
pub const BIG_BITS: u32 = 44;
pub const BIG_IDS: u64 = 1 << 17;
impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, data: vec![], sym: None, far: None, readonly: false }
    }
    pub fn grow(&mut self, n: usize) {
        assert!(n <= FAR);
        if self.data.len() < n {
            let want = (n.max(64)).next_power_of_two().min(self.size.max(n as u64) as usize);
            self.data.resize(want, 0);
            if let Some(s) = self.sym.as_mut() {
                s.resize(want, 0);
            }
        }
    }
    pub fn sym_mut(&mut self) -> &mut Vec<u32> {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])
    }
    #[inline]
    pub fn byte(&self, i: usize) -> (u8, u32) {
        if i >= self.data.len() {
            if i >= FAR {
                if let Some(f) = &self.far {
                    return f.get(&(i as u64)).copied().unwrap_or((0, 0));
                }
            }
            return (0, 0);
        }
        (self.data[i], self.sym.as_ref().map_or(0, |s| s[i]))
    }
    pub fn set(&mut self, i: usize, b: u8, e: u32) {
        if i >= FAR {
            let f = self.far.get_or_insert_with(BTreeMap::new);
            if (b, e) == (0, 0) {
                f.remove(&(i as u64));
            } else {
                f.insert(i as u64, (b, e));
            }
            return;
        }
        self.grow(i + 1);
        self.data[i] = b;
        if e != 0 {
            self.sym_mut()[i] = e;
        } else if let Some(s) = self.sym.as_mut() {
            s[i] = 0;
        }
    }
}

#[derive(Clone)]
pub enum Slot {
    /// global, not yet touched in this state
    Global,
    Free,
    Live(Rc<Obj>),
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub body: Rc<Body>,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<Val>,
    pub ret: u32,
    pub sp: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TStat {
    Run,
    /// waiting for thread t to finish
    Join(u32),
    /// futex wait on an address
    Futex(u64),
    Done,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stack: u32,
    pub sp: u64,
    pub stat: TStat,
    pub ret: u64,
}

#[derive(Clone, Default)]
pub struct Inode {
    pub obj: u32,
    pub len: u64,
    /// length reported by stat, when symbolic (sym_set_file_len)
    pub slen: Option<u32>,
}
#[derive(Clone)]
pub struct Fd {
    pub inode: u32,
    pub pos: u64,
    pub append: bool,
    pub read: bool,
    pub write: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, u32>,
    pub dirs: BTreeSet<String>,
    pub fds: Vec<Option<Fd>>,
    pub faults_left: u64,
    pub fault_mask: u64,
    pub fault_hit: u64,
    pub dead: bool,
    /// files that may not be opened for writing
    pub readonly: BTreeSet<String>,
    pub log: Vec<String>,
    pub logging: bool,
    pub ops: u64,
}

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub expr: Eid,
    pub nbytes: u32,
}

#[derive(Clone)]
pub struct State {
    pub objs: Vec<Slot>,
    pub quarantine: VecDeque<u32>,
    pub th: Thread,
    pub cur: u32,
    pub others: Vec<Option<Thread>>,
    pub pc: Vec<Eid>,
    pub known: Rc<HashMap<Eid, u128>>,
    pub inputs: Vec<Input>,
    pub counters: HashMap<String, u32>,
    pub fs: Rc<Fs>,
    pub errno: u64,
    pub steps: u64,
    pub allow_panic: bool,
    pub sched_mode: u32,
    pub sched_budget: u64,
    pub sched_n: u64,
    pub preempt_budget: u64,
    /// 1: at I/O calls, 2: at atomic operations
    pub preempt_kinds: u64,
    pub nthreads: u64,
    pub tls: HashMap<u64, u64>,
    pub tls_next: u64,
    pub forks: u32,
    pub trace: Vec<String>,
    pub reached: BTreeSet<String>,
    pub oob_total: u64,
    /// thread-local copies: (thread, global object id) -> object id
    pub tlobj: HashMap<(u32, u32), u32>,
    pub heap_live: u64,
    /// active sym_try calls of the current thread: (frame depth, destination register, stack pointer)
    pub tries: Vec<(u32, u32, u64)>,
    pub no_preempt: bool,
}
