//! C09: a persisted tree reopens as the same tree; a file of any other size is refused.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use std::path::Path;

fn path(id: &str) -> std::path::PathBuf {
    StoreConfig::data_path(Path::new(rt::dir()), id)
}
fn disk<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let f = flat(&rows);
    let len = f.len();
    {
        let t = mk::<DiskStore<El>, U>(&its, "c09");
        same1(&t.root(), &root_of(&rows), "root() is the root of the reference tree");
    }
    let have = rt::get(std::fs::read(path("c09")), "the store file is there");
    rt::check(have.len() == len * EL, "the file is the nodes of the tree");
    rt::check_eq(&have, &to_bytes(&f), "the file is the nodes of the tree");
    rt::check(rt::get(DiskStore::<El>::is_consistent(len, a, &cfg("c09", 0)), "a persisted store can be examined"), "a persisted store is consistent");
    let m = "a persisted store reopens";
    let s = match rt::pick("open", 0, 2) {
        0 => rt::get(DiskStore::<El>::new_from_disk(len, a, &cfg("c09", 0)), m),
        1 => rt::get(DiskStore::<El>::new_from_disk_with_path(len, path("c09")), m),
        _ => rt::get(DiskStore::<El>::new_with_config(len, a, cfg("c09", 0)), m),
    };
    rt::check(s.loaded_from_disk(), "a reopened store says so");
    let t = rt::get(T::<DiskStore<El>, U>::from_data_store(s, n), "a tree over a reopened store is made");
    check_layout(&t, &rows, true);
    let i = pick_index("index", n, a);
    check_valid(&rt::get(t.gen_proof(i), "a proof is generated for every leaf"));
    rt::reach("disk");
}
/// Building again under the same name finds the persisted tree, whatever leaves are offered.
fn rebuild<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    mk::<DiskStore<El>, U>(&its, "c09b");
    let other = items("other", n);
    let c = cfg("c09b", 0);
    let m = "building under the name of a persisted tree finds it";
    let t = match rt::pick("how", 0, 3) {
        0 => match T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(&other), c) {
            Ok(t) => t,
            // refusing to build over a persisted tree is fine as long as that tree survives
            Err(_) => rt::get(T::<DiskStore<El>, U>::from_data_store(rt::get(DiskStore::<El>::new_from_disk(flat(&rows).len(), a, &cfg("c09b", 0)), m), n), m),
        },
        1 => rt::get(T::<DiskStore<El>, U>::try_from_iter_with_config(other.iter().map(|x| Ok(*x)), c), m),
        2 => rt::get(T::<DiskStore<El>, U>::from_tree_slice_with_config(&to_bytes(&flat(&r_rows(&other, a))), n, c), m),
        _ => rt::get(T::<DiskStore<El>, U>::new_with_config(other.clone(), c), m),
    };
    check_layout(&t, &rows, false);
    rt::reach("rebuild");
}
/// A full store of any other byte size is refused by every way of opening it.
fn wrong<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let f = flat(&r_rows(&its, a));
    let len = f.len();
    mk::<DiskStore<El>, U>(&its, "c09w");
    let size = rt::range("bytes", 0, 1 << 40);
    rt::assume(size != (len * EL) as u64);
    rt::set_file_len(&path("c09w"), size);
    let m = "a file of another size is refused";
    rt::check(!rt::get(DiskStore::<El>::is_consistent(len, a, &cfg("c09w", 0)), "a persisted store can be examined"), "a store of another size is not consistent");
    rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_from_disk(len, a, &cfg("c09w", 0))).is_err(), m);
    rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_from_disk_with_path(len, path("c09w"))).is_err(), m);
    rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_with_config(len, a, cfg("c09w", 0))).is_err(), m);
    rt::check(rt::no_panic("opening never panics", || T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(&its), cfg("c09w", 0))).is_err(), m);
    rt::reach("wrong");
}
fn missing() {
    let c = cfg("c09none", 0);
    let n = 7;
    rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_from_disk(n, 2, &c)).is_err(), "a missing file is an error");
    rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_from_disk_with_path(n, path("c09none"))).is_err(), "a missing file is an error");
    rt::check(rt::no_panic("opening never panics", || <Lc as Store<El>>::new_from_disk(n, 2, &c)).is_err(), "a missing file is an error");
    rt::check(rt::no_panic("opening never panics", || MmapStore::<El>::new_from_disk(n, 2, &c)).is_err(), "a missing file is an error");
    let p = write_file("c09.replica", &[0; 64]);
    let r = rt::get(ExternalReader::new_from_path(&p), "an external reader opens");
    rt::check(rt::no_panic("opening never panics", || Lc::new_from_disk_with_reader(n, 2, &c, r)).is_err(), "a missing file is an error");
    rt::check(rt::no_panic("opening never panics", || ExternalReader::new_from_path(&path("c09none"))).is_err(), "a missing file is an error");
    rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::is_consistent(n, 2, &c)).is_err(), "a missing file is an error");
    rt::check(!path("c09none").exists(), "opening a missing store does not create it");
    rt::reach("missing");
}
/// Memory-mapped tree: its file reopens.
fn mmap<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let f = flat(&rows);
    {
        mk::<MmapStore<El>, U>(&its, "c09m");
    }
    let have = rt::get(std::fs::read(path("c09m")), "the store file is there");
    rt::check(have.len() == f.len() * EL, "the file is the nodes of the tree");
    rt::check_eq(&have, &to_bytes(&f), "the file is the nodes of the tree");
    let s = rt::get(MmapStore::<El>::new_from_disk(f.len(), a, &cfg("c09m", 0)), "a persisted store reopens");
    let t = rt::get(T::<MmapStore<El>, U>::from_data_store(s, n), "a tree over a reopened store is made");
    check_layout(&t, &rows, true);
    let d = rt::get(DiskStore::<El>::new_from_disk(f.len(), a, &cfg("c09m", 0)), "a persisted store reopens as a disk store");
    let t = rt::get(T::<DiskStore<El>, U>::from_data_store(d, n), "a tree over a reopened store is made");
    check_layout(&t, &rows, true);
    rt::reach("mmap");
}
fn mmap_wrong<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let f = flat(&r_rows(&its, a));
    mk::<MmapStore<El>, U>(&its, "c09v");
    let size = rt::range("bytes", 0, 1 << 40);
    rt::assume(size != (f.len() * EL) as u64);
    rt::set_file_len(&path("c09v"), size);
    rt::check(rt::no_panic("opening never panics", || MmapStore::<El>::new_from_disk(f.len(), a, &cfg("c09v", 0))).is_err(), "a file of another size is refused");
    rt::reach("mmap_wrong");
}
/// Level-cache files: consistency tests and size checks, all byte sizes, all discard counts.
fn cache<U: Unsigned>(k: usize, version: u32) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let len = flat(&rows).len();
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    compacted::<U>(&its, "c09c", d, version);
    let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
    let right = ((if version == 1 { n } else { 0 }) + len - n - gone) * EL;
    let size = rt::range("bytes", 0, 1 << 40) as usize;
    rt::set_file_len(&path("c09c"), size as u64);
    let c = cfg("c09c", d);
    let consistent = if version == 1 { Lc::is_consistent_v1(len, a, &c) } else { Lc::is_consistent(len, a, &c) };
    rt::check(rt::get(consistent, "a persisted store can be examined") == (size == right), "a store is consistent iff it has the size of its kept nodes");
    if version == 2 {
        let p = write_file("c09.replica", &to_bytes(&its));
        let r = rt::get(ExternalReader::new_from_path(&p), "an external reader opens");
        let o = rt::no_panic("opening never panics", || Lc::new_from_disk_with_reader(len, a, &c, r));
        rt::check(o.is_ok() == (size == right), "a compacted file opens iff it has the size of its kept nodes");
    } else {
        let o = rt::no_panic("opening never panics", || <Lc as Store<El>>::new_from_disk(len, a, &c));
        // the sizes of the three layouts a store can have
        let kept = (len - n - gone) * EL;
        let fits = (size == right) | (size == kept) | (size == len * EL);
        rt::check(o.is_ok() == fits, "a compacted file opens iff it has the size of its kept nodes");
    }
    rt::reach("cache");
}
/// Level-cache files opened for another number of discarded rows or as another tree, all values.
fn other<U: Unsigned>(k: usize, version: u32) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let f = flat(&r_rows(&its, a));
    let len = f.len();
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let t = compacted::<U>(&its, "c09o", d, version);
    let have = std::fs::read(path("c09o")).expect("harness read");
    let (mut d2, mut len2) = (d, len);
    if rt::pick("differs", 0, 1) == 0 {
        d2 = rt::any("otherrows") as usize;
        rt::assume(d2 != d);
    } else {
        len2 = rt::range("otherlen", 0, 1 << 48) as usize;
        rt::assume(len2 != len);
    }
    let c = cfg("c09o", d2);
    let m = "a file that is not that of the expected store is refused";
    if version == 1 {
        let r = rt::no_panic("opening never panics", || <Lc as Store<El>>::new_from_disk(len2, a, &c));
        // with no row discarded the file is that of the whole tree, which opens for any number of rows
        let whole = (d == 0) & (len2 == len) & (d2 < k);
        // or the kept rows of a larger tree
        let mut larger = false;
        for k2 in k + 1..k + 8 {
            let n2 = pow(a, k2);
            let above: usize = (0..k2 - d).map(|e| pow(a, e)).sum();
            larger |= d2 == d && have.len() == above * EL && len2 == (0..k2 + 1).map(|e| pow(a, e)).sum::<usize>() && n2 > n;
        }
        rt::check(r.is_err() || whole || larger, m);
        if let (Ok(s), false) = (r, larger) {
            for i in 0..len {
                if let Ok(e) = rt::no_panic("reading never panics", || s.read_at(i)) {
                    same1(&e, &f[i], "a reopened node is the node that was there");
                }
            }
        }
    }
    if version == 2 {
        let p = write_file("c09.replica", &to_bytes(&its));
        let r = rt::get(ExternalReader::new_from_path(&p), "an external reader opens");
        let o = rt::no_panic("opening never panics", || Lc::new_from_disk_with_reader(len2, a, &c, r));
        rt::check(o.is_err(), m);
    }
    let r = rt::no_panic("examining never panics", || if version == 2 { Lc::is_consistent(len2, a, &c) } else { Lc::is_consistent_v1(len2, a, &c) });
    rt::check(r.map_or(true, |x| !x), "a store is consistent iff it has the size of its kept nodes");
    rt::check_eq(&std::fs::read(path("c09o")).expect("harness read"), &have, "opening does not alter the file");
    drop(t);
    rt::reach("other");
}
/// A file that may only be read opens as the same tree (a memory-mapped store refuses it) and stays as it was.
fn readonly<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let len = flat(&rows).len();
    let id = "c09r";
    let c = cfg(id, 0);
    let m = "a persisted store that may only be read reopens";
    let how = rt::pick("open", 0, 4);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    if how < 4 {
        mk::<DiskStore<El>, U>(&its, id);
    } else {
        compacted::<U>(&its, id, d, 1);
    }
    let have = rt::get(std::fs::read(path(id)), "the store file is there");
    rt::set_readonly(&path(id));
    if how == 4 {
        let s = rt::get(<Lc as Store<El>>::new_from_disk(len, a, &cfg(id, d)), m);
        let t = rt::get(T::<Lc, U>::from_data_store(s, n), m);
        same1(&t.root(), &root_of(&rows), "root() is the root of the reference tree");
        let i = pick_index("index", n, a);
        same1(&rt::get(t.read_at(i), "a kept node is read"), &its[i], "a kept node is as it was");
        rt::check(rt::get(Lc::is_consistent_v1(len, a, &cfg(id, d)), "a persisted store can be examined"), "a persisted store is consistent");
    } else if how == 3 {
        rt::check(rt::no_panic("opening never panics", || MmapStore::<El>::new_from_disk(len, a, &c)).is_err(), "a memory-mapped store needs a file it may write");
    } else {
        let mut s = match how {
            0 => rt::get(DiskStore::<El>::new_from_disk(len, a, &c), m),
            1 => rt::get(DiskStore::<El>::new_from_disk_with_path(len, path(id)), m),
            _ => rt::get(DiskStore::<El>::new_with_config(len, a, c.clone()), m),
        };
        let e = items("extra", 1)[0];
        let at = rt::pick("at", 0, 1) as usize * (len - 1);
        rt::check(rt::no_panic("writing never panics", || s.write_at(e, at)).is_err(), "a file that may only be read is not written");
        let t = rt::get(T::<DiskStore<El>, U>::from_data_store(s, n), m);
        check_layout(&t, &rows, true);
        check_valid(&rt::get(t.gen_proof(pick_index("index", n, a)), "a proof is generated for every leaf"));
    }
    rt::check_eq(&rt::get(std::fs::read(path(id)), "the store file is there"), &have, "opening does not alter the file");
    rt::reach("readonly");
}
/// The same for a compacted file whose base data lies in another file, neither of which may be written.
fn readonly_ext<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let rows = r_rows(&its, a);
    let len = flat(&rows).len();
    let id = "c09e";
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    compacted::<U>(&its, id, d, 2);
    let p = write_file("c09.replica", &to_bytes(&its));
    rt::set_readonly(&path(id));
    rt::set_readonly(&p);
    let m = "a persisted store that may only be read reopens";
    let r = rt::get(ExternalReader::new_from_path(&p), "an external file that may only be read opens");
    let t = rt::get(T::<Lc, U>::from_data_store(rt::get(Lc::new_from_disk_with_reader(len, a, &cfg(id, d), r), m), n), m);
    let i = pick_index("index", n, a);
    same1(&rt::get(t.read_at(i), "a kept node is read"), &its[i], "a kept node is as it was");
    check_valid(&rt::get(t.gen_cached_proof(i, Some(d)), "a proof is generated for every leaf"));
    rt::reach("readonly_ext");
}
fn go_readonly() {
    by_arity1!(rt::param("arity", 2), readonly, [], (rt::param("k", 1) as usize))
}
fn go_readonly_ext() {
    by_arity1!(rt::param("arity", 2), readonly_ext, [], (rt::param("k", 1) as usize))
}
fn go_other() {
    by_arity1!(rt::param("arity", 2), other, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
fn go_disk() {
    by_arity1!(rt::param("arity", 2), disk, [], (rt::param("k", 1) as usize))
}
fn go_rebuild() {
    by_arity1!(rt::param("arity", 2), rebuild, [], (rt::param("k", 1) as usize))
}
fn go_wrong() {
    by_arity1!(rt::param("arity", 2), wrong, [], (rt::param("k", 1) as usize))
}
fn go_mmap() {
    by_arity1!(rt::param("arity", 2), mmap, [], (rt::param("k", 1) as usize))
}
fn go_mmap_wrong() {
    by_arity1!(rt::param("arity", 2), mmap_wrong, [], (rt::param("k", 1) as usize))
}
fn go_cache() {
    by_arity1!(rt::param("arity", 2), cache, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
/// Trees too large to build, in sparse files: every way of opening one yields it, and other sizes are refused.
fn large<U: Unsigned>(k: usize, e: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let i = pick_index("index", n, a);
    let h = Huge::new(a, k, i, e, "node");
    let c = cfg("c09g", 0);
    h.full(&c);
    let m = "a persisted store reopens";
    let off = rt::pick("size", 0, 6);
    let right = (h.len * EL) as u64;
    let size = [right, right - 1, right + 1, right % (1 << 32), right + (1 << 32), right - (1 << 32), right / 2][off as usize];
    if off == 0 {
        rt::check(rt::get(DiskStore::<El>::is_consistent(h.len, a, &c), "a persisted store can be examined"), "a store of the right size is consistent");
        match rt::pick("how", 0, 4) {
            0 => h.readers(&open::<DiskStore<El>, U>(&h, &c), 0, false),
            1 => h.readers(&open::<MmapStore<El>, U>(&h, &c), 0, false),
            2 => h.readers(&rt::get(T::<DiskStore<El>, U>::from_data_store(rt::get(DiskStore::new_from_disk_with_path(h.len, path("c09g")), m), n), m), 0, false),
            3 => h.readers(&rt::get(T::<DiskStore<El>, U>::from_data_store(rt::get(DiskStore::new_with_config(h.len, a, c.clone()), m), n), m), 0, false),
            _ => h.readers(&rt::get(T::<Lc, U>::from_data_store(rt::get(<Lc as Store<El>>::new_from_disk(h.len, a, &c), m), n), m), 0, false),
        }
    } else {
        rt::set_file_len(&path("c09g"), size);
        let m = "a file of another size is refused";
        rt::check(!rt::get(DiskStore::<El>::is_consistent(h.len, a, &c), "a persisted store can be examined"), "a store of another size is not consistent");
        rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_from_disk(h.len, a, &c)).is_err(), m);
        rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_from_disk_with_path(h.len, path("c09g"))).is_err(), m);
        rt::check(rt::no_panic("opening never panics", || DiskStore::<El>::new_with_config(h.len, a, c.clone())).is_err(), m);
        rt::check(rt::no_panic("opening never panics", || MmapStore::<El>::new_from_disk(h.len, a, &c)).is_err(), m);
    }
    rt::reach("large");
}
fn go_large() {
    by_arity1!(rt::param("arity", 2), large, [], (rt::param("k", 33) as usize, rt::param("height", 3) as usize))
}
entries! { h_large9 => go_large, h_disk => go_disk, h_rebuild => go_rebuild, h_wrong => go_wrong, h_missing => missing, h_mmap => go_mmap, h_mmap_wrong => go_mmap_wrong, h_cache9 => go_cache, h_other9 => go_other, h_readonly => go_readonly, h_readonly_ext => go_readonly_ext }
