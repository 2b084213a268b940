//! C21: a process killed during any operation but a build leaves every persisted tree whole.
use crate::common::*;
use crate::rt;

const WHOLE: &str = "a killed operation leaves the full or the compacted tree's file";
const SAME: &str = "a killed operation that changes no tree leaves its file as it was";
/// Run an operation in a process that may be killed at any system call; Some if it was not.
fn killable<X>(f: impl FnOnce() -> X) -> Option<X> {
    rt::faults(rt::F_KILL, 1);
    let h = rt::faults_hit();
    let r = rt::attempt(f);
    let killed = rt::faults_hit() > h;
    rt::faults(0, 0);
    match r {
        Some(x) if !killed => Some(x),
        None if !killed => {
            rt::check(false, "no operation panics");
            None
        }
        _ => {
            rt::reach("killed");
            None
        }
    }
}
fn file(id: &str) -> Option<Vec<u8>> {
    std::fs::read(StoreConfig::data_path(std::path::Path::new(rt::dir()), id)).ok()
}
fn open_compacted<U: Unsigned>(len: usize, n: usize, c: &StoreConfig, version: u32, its: &[El]) -> T<Lc, U> {
    let m = "a compacted store reopens";
    let s = if version == 1 {
        rt::get(<Lc as Store<El>>::new_from_disk(len, U::to_usize(), c), m)
    } else {
        let p = write_file("c21.base", &to_bytes(its));
        rt::get(Lc::new_from_disk_with_reader(len, U::to_usize(), c, rt::get(ExternalReader::new_from_path(&p), m)), m)
    };
    rt::get(T::from_data_store(s, n), m)
}
/// A compaction is killed; the next process finds one of the two trees, and can complete the compaction.
fn compact<U: Unsigned>(k: usize, version: u32) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let f = flat(&rows);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let c = cfg("c21", d);
    let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(&its), c.clone()), "building a tree over arity^k leaves succeeds");
    // a tree of another name lies beside it
    let o = items("other", a);
    mk::<DiskStore<El>, U>(&o, "c21o");
    let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
    let mut small = if version == 1 { to_bytes(&its) } else { vec![] };
    small.extend(to_bytes(&f[n + gone..]));
    let done = killable(|| t.compact(c.clone(), version));
    // the killed process is gone
    drop(t);
    let have = match file("c21") {
        Some(h) => h,
        None => {
            rt::check(false, WHOLE);
            return;
        }
    };
    match done {
        Some(ref r) => rt::check(matches!(r, Ok(true)), "a full tree can be compacted"),
        None => rt::reach("compaction killed"),
    }
    if have.len() == small.len() {
        rt::check_eq(&have, &small, WHOLE);
    } else {
        rt::check(done.is_none(), "a successful compaction leaves the compacted tree");
        rt::check(have.len() == f.len() * EL, WHOLE);
        rt::check_eq(&have, &to_bytes(&f), WHOLE);
        // the next process opens the full tree and compacts it
        let s = rt::get(DiskStore::<El>::new_from_disk(f.len(), a, &cfg("c21", 0)), "the full tree reopens");
        let mut t = rt::get(T::<DiskStore<El>, U>::from_data_store(s, n), "the full tree reopens");
        check_layout(&t, &rows, false);
        rt::check(matches!(t.compact(c.clone(), version), Ok(true)), "a compaction can be repeated after one that was killed");
        drop(t);
        rt::reach("compaction repeated");
    }
    let t = open_compacted::<U>(f.len(), n, &c, version, &its);
    for i in 0..f.len() {
        if i < n || i >= n + gone {
            same1(&rt::get(t.read_at(i), "a kept node is readable"), &f[i], "a kept node reads back as it was");
        }
    }
    same1(&t.root(), &root_of(&rows), "the root of a compacted tree is the root of the tree");
    let other = to_bytes(&flat(&r_rows(&o, a)));
    rt::check(file("c21o").map_or(false, |h| h == other), "the file of another tree stays as it was");
    rt::reach("compact");
}
/// Opening, rebuilding under the name, reading, proving, syncing: the file stays as it is.
fn keep<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let f = flat(&rows);
    let len = f.len();
    let mmap = rt::param("store", DISK) == MMAP;
    let c = || cfg("c21k", 0);
    mk::<DiskStore<El>, U>(&its, "c21k");
    let want = to_bytes(&f);
    let new = items("new", n);
    let op = rt::pick("op", 0, 6);
    fn go<S: Store<El>, U: Unsigned>(op: u64, n: usize, len: usize, new: &[El], whole: &[u8], c: impl Fn() -> StoreConfig) {
        let a = U::to_usize();
        let tree = || T::<S, U>::from_data_store(S::new_from_disk(len, a, &c())?, n);
        match op {
            0 => {
                let _ = killable(|| tree().map(|t| t.root()));
            }
            1 => {
                let _ = killable(|| S::new_with_config(len, a, c()).map(|_| ()));
            }
            2 => {
                let _ = killable(|| T::<S, U>::new_with_config(new.iter().copied(), c()).map(|_| ()));
            }
            3 => {
                let _ = killable(|| T::<S, U>::from_tree_slice_with_config(whole, n, c()).map(|_| ()));
            }
            4 => {
                let _ = killable(|| T::<S, U>::from_byte_slice_with_config(&to_bytes(new), c()).map(|_| ()));
            }
            5 => {
                let t = rt::get(tree(), "the tree opens");
                let _ = killable(|| t.gen_proof(n - 1).map(|_| ()));
            }
            _ => {
                let t = rt::get(S::new_from_disk(len, a, &c()), "the tree opens");
                let _ = killable(|| t.sync());
            }
        }
    }
    if mmap {
        go::<MmapStore<El>, U>(op, n, len, &new, &want, c);
    } else {
        go::<DiskStore<El>, U>(op, n, len, &new, &want, c);
    }
    match file("c21k") {
        Some(h) => {
            rt::check(h.len() == want.len(), SAME);
            rt::check_eq(&h, &want, SAME);
        }
        None => rt::check(false, SAME),
    }
    let t = rt::get(DiskStore::<El>::new_from_disk(len, a, &c()).and_then(|s| T::<DiskStore<El>, U>::from_data_store(s, n)), "the tree reopens");
    check_layout(&t, &rows, false);
    rt::reach("keep");
}
/// Deleting: the file is whole or gone, others stay.
fn delete<S: Store<El>, U: Unsigned>() {
    let a = U::to_usize();
    let its = items("leaf", 2 * a);
    let t = mk::<S, U>(&its[..a], "c21d");
    mk::<S, U>(&its[a..], "c21e");
    let (x, y) = (to_bytes(&flat(&r_rows(&its[..a], a))), to_bytes(&flat(&r_rows(&its[a..], a))));
    let whole = rt::pick("whole", 0, 1) == 1;
    let done = if whole { killable(|| t.delete(cfg("c21d", 0))) } else { killable(|| S::delete(cfg("c21d", 0))) };
    match (done, file("c21d")) {
        (Some(r), h) => rt::check(r.is_ok() && h.is_none(), "a store can be deleted"),
        (None, Some(h)) => {
            rt::check(h.len() == x.len(), WHOLE);
            rt::check_eq(&h, &x, WHOLE);
            rt::reach("deletion killed");
        }
        (None, None) => {}
    }
    match file("c21e") {
        Some(h) => {
            rt::check(h.len() == y.len(), SAME);
            rt::check_eq(&h, &y, SAME);
        }
        None => rt::check(false, SAME),
    }
    rt::reach("delete");
}
fn go_compact() {
    by_arity1!(rt::param("arity", 2), compact, [], (rt::param("k", 2) as usize, rt::param("version", 1) as u32))
}
fn go_keep() {
    by_arity1!(rt::param("arity", 2), keep, [], (rt::param("k", 2) as usize))
}
fn go_delete() {
    by_store3!(rt::param("store", DISK), delete, [U2], ())
}
entries! { h_compact => go_compact, h_keep => go_keep, h_delete => go_delete }
