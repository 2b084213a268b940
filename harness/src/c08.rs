//! C08: compaction keeps exactly the promised nodes and the kept nodes stay readable, nothing else does.
use crate::common::*;
use crate::huge::*;
use crate::rt;

/// The file after compaction, and what the reopened store answers to every kind of read.
fn compact<U: Unsigned>(k: usize, version: u32) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let t = compacted::<U>(&its, "c08", d, version);
    let rows = r_rows(&its, a);
    let f = flat(&rows);
    let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
    // file: (version 1: base rows,) then the rows above the discarded ones
    let mut want = if version == 1 { to_bytes(&its) } else { vec![] };
    want.extend(to_bytes(&f[n + gone..]));
    let have = rt::get(std::fs::read(StoreConfig::data_path(std::path::Path::new(rt::dir()), "c08")), "the store file is there");
    rt::check(have.len() == want.len(), "the compacted file holds exactly the kept nodes");
    rt::check_eq(&have, &want, "the compacted file holds exactly the kept nodes");
    rt::check(t.len() == f.len() && t.leafs() == n && t.row_count() == rows.len(), "a compacted tree has the shape of the tree");
    same1(&t.root(), &f[f.len() - 1], "the root of a compacted tree is the root of the tree");
    // opened in other ways: 1 without the base data, 2 with the base data elsewhere as well
    let way = rt::param("way", 0);
    let t = if way == 0 {
        t
    } else {
        let s = rt::get(<Lc as Store<El>>::new_from_disk(f.len(), a, &cfg("c08", d)), "a compacted store reopens");
        let mut t = rt::get(T::<Lc, U>::from_data_store(s, n), "a tree over a compacted store");
        same1(&t.root(), &f[f.len() - 1], "the root of a compacted tree is the root of the tree");
        if way == 2 {
            let p = write_file("c08.base", &to_bytes(&its));
            rt::get(t.set_external_reader_path(&p), "an external reader can be attached");
        }
        t
    };
    let base = version == 1 || way != 1;
    let kept = |i: usize| (base && i < n) || i >= n + gone;
    let i = pick_index("node", f.len(), a);
    let m = "a kept node reads back as it was";
    let e = "a discarded node is an error, not some other value";
    match rt::param("reader", 0) {
        0 => match rt::no_panic("reading never panics", || t.read_at(i)) {
            Ok(x) => {
                rt::check(kept(i), e);
                same1(&x, &f[i], m)
            }
            Err(_) => rt::check(!kept(i), m),
        },
        1 => {
            let mut b = [0u8; EL];
            match rt::no_panic("reading never panics", || t.read_into(i, &mut b)) {
                Ok(()) => {
                    rt::check(kept(i), e);
                    rt::check_eq(&b, &f[i].0, m)
                }
                Err(_) => rt::check(!kept(i), m),
            }
        }
        r => {
            let j = rt::pick("end", i as u64 + 1, f.len() as u64) as usize;
            // a range is served when it lies in the kept base or in the kept cache
            let good = (base && j <= n) || i >= n + gone;
            let whole = (i..j).all(kept);
            if r == 2 {
                match rt::no_panic("reading never panics", || t.read_range(i, j)) {
                    Ok(x) => {
                        rt::check(whole, e);
                        same(&x, &f[i..j], m)
                    }
                    Err(_) => rt::check(!good, m),
                }
            } else {
                let mut b = vec![0u8; (j - i) * EL];
                match rt::no_panic("reading never panics", || t.read_range_into(i, j, &mut b)) {
                    Ok(()) => {
                        rt::check(whole, e);
                        rt::check_eq(&b, &to_bytes(&f[i..j]), m)
                    }
                    Err(_) => rt::check(!good, m),
                }
            }
        }
    }
    rt::reach("compact");
}
/// Compaction that would keep nothing above the base, or keep everything, is refused and changes nothing.
fn refused<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let c = cfg("c08r", 0);
    let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(&its), c), "building a tree over arity^k leaves succeeds");
    let rows = r_rows(&its, a);
    let d = rt::range("discarded", k as u64, u64::MAX) as usize;
    let v = rt::pick("version", 1, 2) as u32;
    let r = rt::no_panic("compaction never panics", || t.compact(cfg("c08r", d), v));
    rt::check(r.is_err(), "discarding every row above the base is refused");
    check_layout(&t, &rows, false);
    let have = rt::get(std::fs::read(StoreConfig::data_path(std::path::Path::new(rt::dir()), "c08r")), "the store file is there");
    rt::check_eq(&have, &to_bytes(&flat(&rows)), "a refused compaction leaves the file as it was");
    rt::reach("refused");
}
/// Compacting in-memory and memory-mapped trees keeps nothing on disk behind and does not lose the root.
fn others<S: Store<El>, U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let mut t = mk::<S, U>(&its, "c08o");
    let rows = r_rows(&its, a);
    let v = rt::pick("version", 1, 2) as u32;
    rt::get(t.compact(cfg("c08o", 0), v), "compaction of an in-memory or memory-mapped tree succeeds");
    same1(&t.root(), &root_of(&rows), "the root survives compaction");
    rt::check(t.leafs() == n && t.row_count() == rows.len(), "the shape survives compaction");
    rt::get(t.reinit(), "a compacted tree can be reinstated");
    rt::reach("others");
    t.leafs();
}
/// The compacted tree itself (not reopened) still knows its root and shape and a second compaction is safe.
fn again<U: Unsigned>(k: usize) {
    let a = U::to_usize();
    let n = pow(a, k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", 0, k as u64 - 1) as usize;
    let v = rt::pick("version", 1, 2) as u32;
    let c = cfg("c08a", d);
    let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(&its), c.clone()), "building a tree over arity^k leaves succeeds");
    let rows = r_rows(&its, a);
    let f = flat(&rows);
    let gone: usize = rows.iter().skip(1).take(d).map(|r| r.len()).sum();
    rt::get(t.compact(c.clone(), v), "a full tree can be compacted with a legal number of rows to discard");
    same1(&t.root(), &root_of(&rows), "the root survives compaction");
    rt::check(t.leafs() == n && t.row_count() == rows.len(), "the shape survives compaction");
    let mut want = if v == 1 { its.clone() } else { vec![] };
    want.extend_from_slice(&f[n + gone..]);
    rt::check(t.len() == want.len(), "the compacted store counts the kept nodes");
    let got = rt::get(t.read_range(0, want.len()), "the kept nodes are readable");
    same(&got, &want, "the compacted store holds the kept nodes in order");
    rt::reach("again");
}
fn go_compact() {
    by_arity1!(rt::param("arity", 2), compact, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
fn go_refused() {
    by_arity1!(rt::param("arity", 2), refused, [], (rt::param("k", 1) as usize))
}
fn go_again() {
    by_arity1!(rt::param("arity", 2), again, [], (rt::param("k", 1) as usize))
}
fn go_others() {
    let k = rt::param("k", 1) as usize;
    if rt::param("store", 0) == 0 {
        others::<VecStore<El>, U2>(k)
    } else {
        others::<MmapStore<El>, U2>(k)
    }
}
/// A tree too large to build, in a sparse file, compacted to its top rows.
fn large<U: Unsigned>(k: usize, e: usize) {
    let a = U::to_usize();
    let i = pick_index("index", pow(a, k), a);
    let h = Huge::new(a, k, i, e, "node");
    let d = k - 1 - rt::pick("rows-kept", 0, 2) as usize;
    let c = cfg("c08g", d);
    h.full(&c);
    {
        let mut t = open::<DiskStore<El>, U>(&h, &c);
        rt::check(rt::get(t.compact(c.clone(), 2), "a full tree can be compacted with a legal number of rows to discard"), "compaction reports success");
        same1(&t.root(), &h.root, "the root of a compacted tree is the root of the tree");
        rt::check(t.leafs() == h.leafs && t.row_count() == k + 1, "the shape survives compaction");
    }
    let first = row_at(a, k, d + 1);
    let mut want = vec![0; (h.len - first) * EL];
    for (pos, row, g) in h.runs.iter().filter(|r| r.1 > d) {
        rt::check(*row > d && *pos >= first, "harness");
        want[(pos - first) * EL..(pos - first + g.len()) * EL].copy_from_slice(&to_bytes(g));
    }
    let have = rt::get(std::fs::read(StoreConfig::data_path(&c.path, &c.id)), "the store file is there");
    rt::check(have.len() == want.len(), "the compacted file holds exactly the kept nodes");
    rt::check_eq(&have, &want, "the compacted file holds exactly the kept nodes");
    let t = open_lc::<U>(&h, &c, 2, 24);
    h.readers(&t, d, false);
    gone(&h, &t, d);
    rt::reach("large");
}
/// No discarded node is served, nor a range touching one.
fn gone<U: Unsigned>(h: &Huge, t: &T<Lc, U>, d: usize) {
    let e = "a discarded node is an error, not some other value";
    let (n, first) = (h.leafs, row_at(h.arity, h.k, d + 1));
    if d == 0 {
        return;
    }
    let mut b = [0; EL];
    let mut two = [0; 2 * EL];
    for p in [n, n + 1, (n + first) / 2, first - 2, first - 1] {
        if p < n || p >= first {
            continue;
        }
        rt::check(rt::no_panic("reading never panics", || t.read_at(p)).is_err(), e);
        rt::check(rt::no_panic("reading never panics", || t.read_into(p, &mut b)).is_err(), e);
        for q in [p - 1, p] {
            rt::check(rt::no_panic("reading never panics", || t.read_range(q, q + 2)).is_err(), e);
            rt::check(rt::no_panic("reading never panics", || t.read_range_into(q, q + 2, &mut two)).is_err(), e);
        }
    }
}
/// A store compacted from such a tree, opened.
fn large_kept<U: Unsigned>(k: usize, e: usize, version: u32) {
    let a = U::to_usize();
    let i = pick_index("index", pow(a, k), a);
    let h = Huge::new(a, k, i, e, "node");
    let d = [1, 2, k / 2][rt::pick("discarded", 0, 2) as usize];
    let t = open_lc::<U>(&h, &cfg("c08k", d), version, (1 << 32) - 8);
    h.readers(&t, d, true);
    gone(&h, &t, d);
    rt::reach("large");
}
fn go_large() {
    let (k, e, v) = (rt::param("k", 33) as usize, rt::param("height", 3) as usize, rt::param("version", 0) as u32);
    if v == 0 {
        by_arity1!(rt::param("arity", 2), large, [], (k, e))
    } else {
        by_arity1!(rt::param("arity", 2), large_kept, [], (k, e, v))
    }
}
entries! { h_large8 => go_large, h_compact => go_compact, h_refused => go_refused, h_again => go_again, h_others => go_others }
