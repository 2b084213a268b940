//! C16: failing, short and interrupted I/O at every point of an operation.
use crate::common::*;
use crate::rt;
use merkletree::proof::Proof;
use rayon::prelude::*;

const MASK: u64 = rt::F_READ | rt::F_WRITE | rt::F_OPEN | rt::F_TRUNC | rt::F_SHORT_R | rt::F_SHORT_W | rt::F_INTR;
const PANIC: &str = "an I/O failure never panics";
const SPURIOUS: &str = "without an I/O failure there is no error";
/// Run one operation with I/O failures; None if it returned an error (then there was a failure).
fn faulty<X, E>(f: impl FnOnce() -> Result<X, E>) -> Option<X> {
    rt::faults(rt::param("mask", MASK), rt::param("faults", 1));
    let h = rt::faults_hit();
    let r = rt::no_panic(PANIC, f);
    rt::faults(0, 0);
    match r {
        Ok(x) => Some(x),
        Err(_) => {
            rt::check(rt::faults_hit() > h, SPURIOUS);
            None
        }
    }
}
type R<S, U> = anyhow::Result<T<S, U>>;
fn make<S: Store<El>, U: Unsigned>(how: u64, its: &[El], whole: &[u8], c: StoreConfig) -> R<S, U> {
    match how {
        0 => T::<S, U>::from_byte_slice(&to_bytes(its)),
        1 => T::<S, U>::from_byte_slice_with_config(&to_bytes(its), c),
        2 => T::<S, U>::try_from_iter(its.iter().map(|x| Ok(*x))),
        3 => T::<S, U>::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), c),
        4 => {
            use merkletree::merkle::FromIndexedParallelIterator;
            T::<S, U>::from_par_iter(its.to_vec().into_par_iter())
        }
        5 => {
            use merkletree::merkle::FromIndexedParallelIterator;
            T::<S, U>::from_par_iter_with_config(its.to_vec().into_par_iter(), c)
        }
        6 => T::<S, U>::from_tree_slice_with_config(whole, its.len(), c),
        7 => T::<S, U>::from_tree_slice(whole, its.len()),
        8 => T::<S, U>::from_data_with_config(its.to_vec(), c),
        _ => T::<S, U>::new_with_config(its.to_vec(), c),
    }
}
fn leaves_of(how: u64, its: &[El]) -> Vec<El> {
    match how {
        0 | 1 | 6 | 7 => its.to_vec(),
        8 => its.iter().map(|x| r_leaf(&r_hash(&x.0))).collect(),
        _ => its.iter().map(r_leaf).collect(),
    }
}
fn right<S: Store<El>, U: Unsigned>(t: &T<S, U>, rows: &[Vec<El>], lc: bool) {
    if lc {
        // base rows need an external reader; the root depends on every leaf
        let f = flat(rows);
        rt::check(t.len() == f.len() && t.leafs() == rows[0].len() && t.row_count() == rows.len(), "the tree has the shape of its leaves");
        same1(&t.root(), &root_of(rows), "root() is the root of the reference tree");
    } else {
        check_layout(t, rows, false);
    }
}
/// Builds: the right tree or an error; afterwards nothing wrong can be loaded under the name.
fn build<S: Store<El>, U: Unsigned>(how: u64, k: usize, lc: bool) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n);
    let rows = r_rows(&leaves_of(how, &its), U::to_usize());
    let whole = to_bytes(&flat(&rows));
    match faulty(|| make::<S, U>(how, &its, &whole, cfg("c16", 0))) {
        Some(t) => {
            right(&t, &rows, lc);
            rt::reach("built");
        }
        None => {
            if rt::param("faults", 1) == 1 {
                // the same build again
                let t = rt::get(make::<S, U>(how, &its, &whole, cfg("c16", 0)), "a build succeeds after one that failed");
                right(&t, &rows, lc);
            }
            rt::reach("build_failed");
        }
    }
}
/// One read or proof under faults, then everything again without.
fn read_ops<S: Store<El>, U: Unsigned>(t: &T<S, U>, rows: &[Vec<El>], kept: &dyn Fn(usize) -> bool, into: bool, rows_arg: Option<usize>) {
    let f = flat(rows);
    let n = rows[0].len();
    let some = |name: &str| {
        let mut v: Vec<usize> = [0, 1, n / 2, n - 1, n, f.len() - 2, f.len() - 1].iter().copied().filter(|i| kept(*i)).collect();
        v.sort();
        v.dedup();
        v[rt::pick(name, 0, v.len() as u64 - 1) as usize]
    };
    let w = "what is read in spite of an I/O failure is what is stored";
    let s = t.data().expect("a base tree has a store");
    match rt::pick("op", 0, 6) {
        0 => {
            let i = some("index");
            if let Some(e) = faulty(|| t.read_at(i)) {
                same1(&e, &f[i], w);
            }
        }
        1 => {
            let i = some("index");
            let mut b = [0; EL];
            if let Some(_) = faulty(|| t.read_into(i, &mut b)) {
                rt::check_eq(&b, &f[i].0, w);
            }
        }
        2 => {
            let y = rt::pick("end", 1, n as u64) as usize;
            if let Some(v) = faulty(|| t.read_range(0, y)) {
                same(&v, &f[..y], w);
            }
        }
        3 if into => {
            let mut b = vec![0; n * EL];
            if let Some(_) = faulty(|| s.read_range_into(0, n, &mut b)) {
                rt::check_eq(&b, &to_bytes(&f[..n]), w);
            }
        }
        4 => {
            if let Some(e) = faulty(|| s.last()) {
                same1(&e, &f[f.len() - 1], w);
            }
        }
        5 if rows_arg.is_none() => {
            let i = pick_index("leaf-index", n, U::to_usize());
            if let Some(p) = faulty(|| t.gen_proof(i)) {
                proof_is(&p, rows, i);
            }
        }
        _ => {
            let i = pick_index("leaf-index", n, U::to_usize());
            if let Some(p) = faulty(|| t.gen_cached_proof(i, rows_arg)) {
                proof_is(&p, rows, i);
            }
        }
    }
    let m = "after a failed read the store still answers correctly";
    for i in 0..f.len() {
        if kept(i) {
            same1(&rt::get(t.read_at(i), m), &f[i], m);
        }
    }
    same(&rt::get(s.read_range(0..n), m), &f[..n], m);
    same1(&t.root(), &root_of(rows), m);
    check_valid(&rt::get(t.gen_cached_proof(n - 1, rows_arg), m));
}
fn proof_is<U: Unsigned>(p: &Proof<El, U>, rows: &[Vec<El>], i: usize) {
    check_base_proof(p, rows, i);
    check_valid(p);
}
fn read<S: Store<El>, U: Unsigned>(k: usize, into: bool) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n);
    let t = mk::<S, U>(&its, "c16r");
    read_ops(&t, &r_rows(&its, U::to_usize()), &|_| true, into, None);
    rt::reach("read");
}
fn read_lc<U: Unsigned>(k: usize, version: u32) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let t = compacted::<U>(&its, "c16l", d, version);
    let rows = r_rows(&its, U::to_usize());
    let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
    read_ops(&t, &rows, &|i| i < n || i >= n + gone, true, Some(d));
    rt::reach("read_lc");
}
/// Opening a persisted tree, and making a tree over it.
fn open<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let len = flat(&rows).len();
    let how = rt::pick("open", 0, 5);
    let c = || cfg("c16o", 0);
    mk::<DiskStore<El>, U>(&its, "c16o");
    fn go<S: Store<El>, U: Unsigned>(rows: &[Vec<El>], f: impl Fn() -> R<S, U>) {
        if let Some(t) = faulty(|| f()) {
            check_layout(&t, rows, false);
        }
        let t = rt::get(f(), "opening succeeds after a failure");
        check_layout(&t, rows, false);
    }
    match how {
        0 => go::<DiskStore<El>, U>(&rows, || T::from_data_store(DiskStore::new_from_disk(len, a, &c())?, n)),
        1 => go::<DiskStore<El>, U>(&rows, || T::from_data_store(DiskStore::new_with_config(len, a, c())?, n)),
        2 => go::<DiskStore<El>, U>(&rows, || T::try_from_iter_with_config(its.iter().map(|x| Ok(*x)), c())),
        3 => go::<MmapStore<El>, U>(&rows, || T::from_data_store(MmapStore::new_from_disk(len, a, &c())?, n)),
        4 => go::<DiskStore<El>, U>(&rows, || T::new_with_config(its.clone(), c())),
        _ => go::<DiskStore<El>, U>(&rows, || T::from_tree_slice_with_config(&to_bytes(&flat(&rows)), n, c())),
    }
    rt::reach("open");
}
/// Opening compacted trees, alone and in a compound.
fn open_lc<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let leaves = items("leaf", 2 * n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let mut cs = vec![];
    let mut rows = vec![];
    let version = if flag("external") { 2 } else { 1 };
    for j in 0..2 {
        let c = cfg(&name_of(j), d);
        let l = &leaves[j * n..j * n + n];
        let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(l), c.clone()), "building a tree over arity^k leaves succeeds");
        rt::get(t.compact(c.clone(), version), "a full tree can be compacted");
        rows.push(r_rows(l, a));
        cs.push(c);
    }
    let p = write_file("replica", &to_bytes(&leaves));
    let rc = ReplicaConfig::new(&p, vec![0, n * EL]);
    let roots: Vec<El> = rows.iter().map(|r| root_of(r)).collect();
    let open = || {
        if version == 2 {
            Ts::<Lc, U, U2>::from_store_configs_and_replica(n, &cs, &rc)
        } else {
            Ts::<Lc, U, U2>::from_store_configs(n, &cs)
        }
    };
    let i = rt::pick("index", 0, 2 * n as u64 - 1) as usize;
    let all = |t: &Ts<Lc, U, U2>| {
        same1(&t.root(), &r_over(&roots), "the root is the hash of the component roots in order");
        let p = rt::get(t.gen_cached_proof(i, Some(d)), "a proof is generated");
        check_sub_proof(&p, &rows, i);
        check_valid(&p);
    };
    if flag("open") {
        if let Some(t) = faulty(open) {
            all(&t);
        }
        all(&rt::get(open(), "opening succeeds after a failure"));
    } else {
        let t = rt::get(open(), "compacted stores open as a compound tree");
        if let Some(p) = faulty(|| t.gen_cached_proof(i, Some(d))) {
            check_sub_proof(&p, &rows, i);
            check_valid(&p);
        }
        all(&t);
    }
    rt::reach("open_lc");
}
/// Compaction: done, or an error and the tree is as it was.
fn compact<U: Unsigned>(k: usize, version: u32) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let c = cfg("c16c", d);
    let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(&its), c.clone()), "building a tree over arity^k leaves succeeds");
    let len = t.len();
    let files = rt::file_count();
    let done = faulty(|| t.compact(c.clone(), version));
    same1(&t.root(), &root_of(&rows), "root() is the root of the reference tree");
    rt::check(rt::param("faults", 1) > 1 || rt::file_count() == files, "a compaction leaves no other file behind");
    let p = write_file("replica", &to_bytes(&its));
    let m = "an interrupted compaction never shows other nodes than the tree's";
    let open = || -> R<Lc, U> {
        let s = if version == 1 { <Lc as Store<El>>::new_from_disk(len, a, &c)? } else { Lc::new_from_disk_with_reader(len, a, &c, ExternalReader::new_from_path(&p)?)? };
        T::from_data_store(s, n)
    };
    let f = flat(&rows);
    match done {
        Some(ok) => {
            rt::check(ok, "compaction reports success");
            let t = rt::get(open(), "a compacted store reopens");
            let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
            for i in 0..f.len() {
                if i < n || i >= n + gone {
                    same1(&rt::get(t.read_at(i), "a kept node is readable"), &f[i], m);
                }
            }
            rt::reach("compacted");
        }
        None => {
            // through the tree at hand
            for i in 0..f.len() {
                if let Ok(e) = rt::no_panic(PANIC, || t.read_at(i)) {
                    same1(&e, &f[i], m);
                }
            }
            for i in 0..n {
                if let Ok(p) = rt::no_panic(PANIC, || t.gen_proof(i)) {
                    proof_is(&p, &rows, i);
                }
            }
            // and by opening it again, as a full or as a compacted tree
            let full = rt::no_panic(PANIC, || DiskStore::<El>::new_from_disk(len, a, &cfg("c16c", 0)));
            if let Ok(s) = full {
                if let Ok(t) = T::<DiskStore<El>, U>::from_data_store(s, n) {
                    check_layout(&t, &rows, false);
                }
            } else if let Ok(t) = rt::no_panic(PANIC, open) {
                for i in 0..f.len() {
                    if let Ok(e) = rt::no_panic(PANIC, || t.read_at(i)) {
                        same1(&e, &f[i], m);
                    }
                }
                same1(&t.root(), &root_of(&rows), m);
            }
            rt::reach("compaction_failed");
        }
    }
}
/// Stores: a failed write leaves all other elements; the next write goes where it should.
fn store<S: Store<El>>(named: bool, lc: bool) {
    let cap = 7;
    let its = items("value", 2);
    let mut s: S = if named {
        rt::get(S::new_from_slice_with_config(cap, 2, &to_bytes(&its), cfg("c16s", 0)), "a store over a slice is made")
    } else {
        rt::get(S::new_from_slice(cap, &to_bytes(&its)), "a store over a slice is made")
    };
    let new = items("new", 2);
    let op = rt::pick("op", 0, 4);
    let (at, r) = match op {
        0 => (2, faulty(|| s.push(new[0])).map(|_| 1)),
        1 => (1, faulty(|| s.write_at(new[0], 1)).map(|_| 1)),
        2 => (2, faulty(|| s.copy_from_slice(&to_bytes(&new), 2)).map(|_| 2)),
        3 => (1, faulty(|| s.copy_from_slice(&to_bytes(&new), 1)).map(|_| 2)),
        _ => {
            let h = rt::faults_hit();
            let r = faulty(|| s.sync());
            rt::check(r.is_none() || rt::faults_hit() == h, "a failed sync is an error");
            (2, r.map(|_| 0))
        }
    };
    let m = "a write that reports success has been made";
    match r {
        Some(w) => {
            let mut v = its.clone();
            for j in 0..w {
                if at + j < v.len() {
                    v[at + j] = new[j];
                } else {
                    v.push(new[j]);
                }
            }
            rt::check(s.len() == v.len(), "len() is one past the highest written position");
            for (i, e) in v.iter().enumerate() {
                same1(&rt::get(s.read_at(i), "a written position is readable"), e, m);
            }
        }
        None => {
            let m = "a failed write changes no other element";
            rt::check(s.len() == 2, "a failed write does not add to the length");
            same1(&rt::get(s.read_at(0), "a written position is readable"), &its[0], m);
            if op == 0 || op == 2 {
                same1(&rt::get(s.read_at(1), "a written position is readable"), &its[1], m);
            }
            // again, without a failure
            rt::get(s.copy_from_slice(&to_bytes(&new), 1), "a write succeeds after one that failed");
            rt::check(s.len() == 3, "len() is one past the highest written position");
            for (i, e) in [its[0], new[0], new[1]].iter().enumerate() {
                same1(&rt::get(s.read_at(i), "a written position is readable"), e, "a write after a failed one is made");
            }
        }
    }
    let _ = lc;
    rt::reach("store");
}
/// Making stores, deleting them.
fn misc<S: Store<El>>(lc: bool) {
    let its = items("value", 3);
    let b = to_bytes(&its);
    match rt::pick("op", 0, 4) {
        0 => {
            if let Some(s) = faulty(|| S::new(3)) {
                rt::check(s.is_empty(), "a new store is empty");
            }
        }
        1 => {
            if let Some(s) = faulty(|| S::new_with_config(3, 2, cfg("c16m", 0))) {
                rt::check(s.is_empty(), "a new store is empty");
            }
        }
        2 => {
            if let Some(s) = faulty(|| S::new_from_slice(3, &b)) {
                same(&rt::get(s.read_range(0..3), "a written range is readable"), &its, "a store over a slice has its elements");
            }
        }
        3 => {
            if let Some(s) = faulty(|| S::new_from_slice_with_config(3, 2, &b, cfg("c16m", 0))) {
                same(&rt::get(s.read_range(0..3), "a written range is readable"), &its, "a store over a slice has its elements");
            }
        }
        _ => {
            let files = rt::file_count();
            drop(rt::get(S::new_from_slice_with_config(3, 2, &b, cfg("c16m", 0)), "a store over a slice is made"));
            let r = faulty(|| S::delete(cfg("c16m", 0)));
            rt::check(rt::file_count() == files + if r.is_some() { 0 } else { rt::file_count() - files }, "delete reports success when the file is gone");
        }
    }
    let _ = lc;
    rt::reach("misc");
}
fn go_build() {
    let (s, how, k) = (rt::param("store", 0), rt::param("how", 0), rt::param("k", 1) as usize);
    rt::sched(0, 0, rt::param("threads", 4));
    by_arity!(rt::param("arity", 2), by_store, s, build, (how, k, s == 3))
}
fn go_read() {
    let (s, k) = (rt::param("store", 1), rt::param("k", 1) as usize);
    match (s, rt::param("arity", 2)) {
        (1, 2) => read::<DiskStore<El>, U2>(k, true),
        (1, 4) => read::<DiskStore<El>, U4>(k, true),
        (1, 8) => read::<DiskStore<El>, U8>(k, true),
        (2, 2) => read::<MmapStore<El>, U2>(k, false),
        _ => panic!("harness: bad shape"),
    }
}
fn go_read_lc() {
    by_arity1!(rt::param("arity", 2), read_lc, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
fn go_open() {
    by_arity1!(rt::param("arity", 2), open, [], (rt::param("k", 1) as usize))
}
fn go_open_lc() {
    by_arity1!(rt::param("arity", 2), open_lc, [], (rt::param("k", 1) as usize))
}
fn go_compact() {
    by_arity1!(rt::param("arity", 2), compact, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
fn go_store() {
    let (s, n) = (rt::param("store", 1), rt::param("named", 0) == 1);
    by_store!(s, store, [], (n, s == 3))
}
fn go_misc() {
    let s = rt::param("store", 1);
    by_store!(s, misc, [], (s == 3))
}
entries! { h_build16 => go_build, h_read16 => go_read, h_read_lc => go_read_lc, h_open16 => go_open, h_open_lc => go_open_lc, h_compact16 => go_compact, h_store16 => go_store, h_misc16 => go_misc }
