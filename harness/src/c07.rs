//! C07: a proof made from the base rows and the cached top rows is the proof made from the full tree.
use crate::common::*;
use crate::huge::*;
use crate::rt;

/// rows argument of a cached proof: 0 = default, r+1 = Some(r), r = k+2: any greater number.
fn rows_arg(r: u64, k: usize) -> Option<usize> {
    if r == 0 {
        None
    } else if r as usize == k + 2 {
        Some(rt::range("many", k as u64 + 1, u64::MAX) as usize)
    } else {
        Some(r as usize - 1)
    }
}
fn full<U: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n);
    let t = mk::<DiskStore<El>, U>(&its, "c07");
    let rows = r_rows(&its, U::to_usize());
    let i = pick_index("index", n, U::to_usize());
    let r = rows_arg(rt::pick("rows", 0, k as u64 + 2), k);
    let p = rt::get(t.gen_cached_proof(i, r), "a cached proof is generated from a full store, whatever rows it may discard");
    check_base_proof(&p, &rows, i);
    same1(&p.item(), &its[i], "item() is the leaf");
    check_valid(&p);
    rt::reach("full");
}
fn cache<U: Unsigned>(k: usize, version: u32) {
    let n = pow(U::to_usize(), k);
    let its = items("leaf", n);
    let d = rt::pick("discarded", rt::param("least", 0), k as u64 - 1) as usize;
    let t = compacted::<U>(&its, "c07c", d, version);
    let rows = r_rows(&its, U::to_usize());
    same1(&t.root(), &root_of(&rows), "the root of a compacted tree is the root of the tree");
    let i = pick_index("index", n, U::to_usize());
    let r = rows_arg(rt::pick("rows", 0, k as u64 + 2), k);
    let eff = match r {
        Some(r) if r < k => r,
        _ => StoreConfig::default_rows_to_discard(n, U::to_usize()),
    };
    match rt::no_panic("a cached proof never panics", || t.gen_cached_proof(i, r)) {
        Ok(p) => {
            check_base_proof(&p, &rows, i);
            check_valid(&p);
            rt::reach("cached");
        }
        Err(_) => rt::check(eff < d, "a cached proof is generated when it may discard at least the rows the store discarded"),
    }
}
fn sub<U: Unsigned, V: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let v = V::to_usize();
    let (ts, _, rows) = bases::<DiskStore<El>, U>(v, n);
    let t = rt::get(Ts::<DiskStore<El>, U, V>::from_trees(ts), "a compound tree of equal trees is built");
    let i = rt::pick("index", 0, (n * v) as u64 - 1) as usize;
    let r = rows_arg(rt::pick("rows", 0, k as u64 + 2), k);
    let p = rt::get(t.gen_cached_proof(i, r), "a cached proof is generated from full stores, whatever rows it may discard");
    check_sub_proof(&p, &rows, i);
    check_valid(&p);
    rt::reach("sub");
}
fn top<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize) {
    let n = pow(U::to_usize(), k);
    let (v, w) = (V::to_usize(), W::to_usize());
    let (ts, _, rows) = bases::<DiskStore<El>, U>(v * w, n);
    let t = rt::get(Tt::<DiskStore<El>, U, V, W>::from_sub_trees_as_trees(ts), "a compound tree of equal trees is built");
    let i = rt::pick("index", 0, (n * v * w) as u64 - 1) as usize;
    let r = rows_arg(rt::pick("rows", 0, k as u64 + 2), k);
    let p = rt::get(t.gen_cached_proof(i, r), "a cached proof is generated from full stores, whatever rows it may discard");
    check_top_proof(&p, &rows, v, i);
    check_valid(&p);
    rt::reach("top");
}
/// A compound tree of compacted trees, format 1 (base data kept) or 2 (base data in one external file).
fn csub<U: Unsigned, V: Unsigned>(k: usize, version: u32) {
    let (a, v) = (U::to_usize(), V::to_usize());
    let n = pow(a, k);
    let leaves = items("leaf", n * v);
    let d = rt::pick("discarded", rt::param("least", 0), k as u64 - 1) as usize;
    let (mut cs, mut rows) = (vec![], vec![]);
    for j in 0..v {
        let c = cfg(&name_of(j), d);
        let l = &leaves[j * n..j * n + n];
        let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(l), c.clone()), "building a tree over arity^k leaves succeeds");
        rt::get(t.compact(c.clone(), version), "a full tree can be compacted with a legal number of rows to discard");
        rows.push(r_rows(l, a));
        cs.push(c);
    }
    let t = if version == 1 {
        let len = flat(&rows[0]).len();
        let ss = cs.iter().map(|c| rt::get(<Lc as Store<El>>::new_from_disk(len, a, c), "a compacted store reopens")).collect();
        rt::get(Ts::<Lc, U, V>::from_stores(n, ss), "compacted stores make a compound tree")
    } else {
        let p = write_file("replica", &to_bytes(&leaves));
        rt::get(Ts::<Lc, U, V>::from_store_configs_and_replica(n, &cs, &ReplicaConfig::new(&p, (0..v).map(|j| j * n * EL).collect())), "compacted stores open as a compound tree")
    };
    let i = pick_index("index", n * v, a);
    let r = rows_arg(rt::pick("rows", rt::param("least", 0), k as u64 + 2), k);
    let eff = match r {
        Some(r) if r < k => r,
        _ => StoreConfig::default_rows_to_discard(n, a),
    };
    match rt::no_panic("a cached proof never panics", || t.gen_cached_proof(i, r)) {
        Ok(p) => {
            check_sub_proof(&p, &rows, i);
            check_valid(&p);
            rt::reach("csub");
        }
        Err(_) => rt::check(eff < d, "a cached proof is generated when it may discard at least the rows the store discarded"),
    }
}
/// The same with two layers.
fn ctop<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize, version: u32) {
    let (a, v, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let n = pow(a, k);
    let leaves = items("leaf", n * v * w);
    let d = rt::pick("discarded", rt::param("least", 0), k as u64 - 1) as usize;
    let (mut cs, mut rows) = (vec![], vec![]);
    for j in 0..v * w {
        let c = cfg(&name_of(j), d);
        let l = &leaves[j * n..j * n + n];
        let mut t = rt::get(T::<DiskStore<El>, U>::from_byte_slice_with_config(&to_bytes(l), c.clone()), "building a tree over arity^k leaves succeeds");
        rt::get(t.compact(c.clone(), version), "a full tree can be compacted with a legal number of rows to discard");
        rows.push(r_rows(l, a));
        cs.push(c);
    }
    let t = if version == 1 {
        let len = flat(&rows[0]).len();
        let ts = cs
            .iter()
            .map(|c| rt::get(T::<Lc, U>::from_data_store(rt::get(<Lc as Store<El>>::new_from_disk(len, a, c), "a compacted store reopens"), n), "a tree over a reopened store is made"))
            .collect();
        rt::get(Tt::<Lc, U, V, W>::from_sub_trees_as_trees(ts), "compacted trees make a compound tree")
    } else {
        let p = write_file("replica", &to_bytes(&leaves));
        rt::get(Tt::<Lc, U, V, W>::from_sub_tree_store_configs_and_replica(n, &cs, &ReplicaConfig::new(&p, (0..v * w).map(|j| j * n * EL).collect())), "compacted stores open as a compound tree")
    };
    let i = pick_index("index", n * v * w, a);
    let r = rows_arg(rt::pick("rows", rt::param("least", 0), k as u64 + 2), k);
    let eff = match r {
        Some(r) if r < k => r,
        _ => StoreConfig::default_rows_to_discard(n, a),
    };
    match rt::no_panic("a cached proof never panics", || t.gen_cached_proof(i, r)) {
        Ok(p) => {
            check_top_proof(&p, &rows, v, i);
            check_valid(&p);
            rt::reach("ctop");
        }
        Err(_) => rt::check(eff < d, "a cached proof is generated when it may discard at least the rows the store discarded"),
    }
}
fn go_csub() {
    let (k, f) = (rt::param("k", 1) as usize, rt::param("version", 1) as u32);
    match (rt::param("arity", 2), rt::param("sub", 2)) {
        (2, 2) => csub::<U2, U2>(k, f),
        (2, 3) => csub::<U2, U3>(k, f),
        (4, 2) => csub::<U4, U2>(k, f),
        (8, 2) => csub::<U8, U2>(k, f),
        _ => panic!("harness: bad shape"),
    }
}
fn go_ctop() {
    let (k, f) = (rt::param("k", 1) as usize, rt::param("version", 1) as u32);
    match (rt::param("arity", 2), rt::param("sub", 2), rt::param("top", 2)) {
        (2, 2, 2) => ctop::<U2, U2, U2>(k, f),
        (2, 3, 2) => ctop::<U2, U3, U2>(k, f),
        (4, 2, 3) => ctop::<U4, U2, U3>(k, f),
        _ => panic!("harness: bad shape"),
    }
}
fn go_full() {
    by_arity1!(rt::param("arity", 2), full, [], (rt::param("k", 1) as usize))
}
fn go_cache() {
    by_arity1!(rt::param("arity", 2), cache, [], (rt::param("k", 1) as usize, rt::param("version", 1) as u32))
}
fn go_sub() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2)) {
        (2, 2) => sub::<U2, U2>(k),
        (2, 3) => sub::<U2, U3>(k),
        (4, 2) => sub::<U4, U2>(k),
        (8, 2) => sub::<U8, U2>(k),
        _ => panic!("harness: bad shape"),
    }
}
fn go_top() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2), rt::param("top", 2)) {
        (2, 2, 2) => top::<U2, U2, U2>(k),
        (2, 3, 2) => top::<U2, U3, U2>(k),
        (4, 2, 3) => top::<U4, U2, U3>(k),
        _ => panic!("harness: bad shape"),
    }
}
/// Trees too large to build, in sparse files: full, or compacted with the base data in the same or another file.
fn large<U: Unsigned>(k: usize, e: usize, version: u32) {
    let i = pick_index("index", pow(U::to_usize(), k), U::to_usize());
    let h = Huge::new(U::to_usize(), k, i, e, "node");
    let cached = "a cached proof is generated when it may discard at least the rows the store discarded";
    let r = rt::pick("rows", 0, e as u64 - 1) as usize;
    if version == 0 {
        let c = cfg("c07g", 0);
        h.full(&c);
        h.is_proof(&rt::get(open::<DiskStore<El>, U>(&h, &c).gen_cached_proof(i, Some(r)), cached));
    } else {
        let d = rt::pick("discarded", 0, r as u64) as usize;
        let t = open_lc::<U>(&h, &cfg("c07g", d), version, (1 << 33) + 1);
        h.is_proof(&rt::get(t.gen_cached_proof(i, Some(r)), cached));
    }
    rt::reach("large");
}
fn go_large() {
    by_arity1!(rt::param("arity", 2), large, [], (rt::param("k", 33) as usize, rt::param("height", 3) as usize, rt::param("version", 0) as u32))
}
entries! { h_large7 => go_large, h_full => go_full, h_cache => go_cache, h_sub7 => go_sub, h_top7 => go_top, h_csub => go_csub, h_ctop => go_ctop }
