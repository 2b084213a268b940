//! C10: compound trees compose their components in order; other shapes and numbers are refused.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use merkletree::merkle::get_merkle_tree_len_generic;

const M: &str = "a compound tree of equal trees is built";
fn check_compound<S: Store<El>, U: Unsigned, V: Unsigned, W: Unsigned>(t: &Tt<S, U, V, W>, leaves: &[El], root: &El, len: usize, rows: usize) {
    same1(&t.root(), root, "the compound root is the hash of the component roots in order");
    rt::check(t.leafs() == leaves.len(), "leafs() counts the leaves of all components");
    rt::check(t.len() == len, "len() counts all nodes");
    rt::check(t.row_count() == rows, "row_count() is the components' rows and the layers above");
    rt::check(!t.is_empty(), "a compound tree is not empty");
    rt::check(t.data().is_none(), "a compound tree has no store of its own");
    let mut got = vec![];
    for i in 0..leaves.len() {
        got.push(rt::get(t.read_at(i), "every leaf is readable"));
    }
    same(&got, leaves, "the leaves are the components' leaves in order");
    let i = rt::range("outside", leaves.len() as u64, u64::MAX) as usize;
    rt::check(rt::no_panic("reading never panics", || t.read_at(i)).is_err(), "reading beyond the last leaf is an error");
}
fn configs(c: usize) -> Vec<StoreConfig> {
    (0..c).map(|i| cfg(&name_of(i), 0)).collect()
}
fn nodes(rows: &[Vec<Vec<El>>]) -> Vec<Vec<u8>> {
    rows.iter().map(|r| to_bytes(&flat(r))).collect()
}
fn sub<S: Store<El>, U: Unsigned, V: Unsigned>(n: usize, how: u64) {
    let v = V::to_usize();
    let (ts, leaves, rows) = if how == 2 {
        let leaves = items("leaf", v * n);
        let rows = leaves.chunks(n).map(|l| r_rows(l, U::to_usize())).collect();
        (vec![], leaves, rows)
    } else {
        bases::<S, U>(v, n)
    };
    let bytes = nodes(&rows);
    let slices: Vec<&[u8]> = bytes.iter().map(|b| &b[..]).collect();
    let t: Ts<S, U, V> = match how {
        0 => rt::get(Ts::<S, U, V>::from_trees(ts), M),
        1 => rt::get(Ts::<S, U, V>::from_slices(&slices, n), M),
        2 => rt::get(Ts::<S, U, V>::from_slices_with_configs(&slices, n, &configs(v)), M),
        3 => {
            let st = slices.iter().map(|b| rt::get(S::new_from_slice(b.len() / EL, b), "a store over a full tree opens")).collect();
            rt::get(Ts::<S, U, V>::from_stores(n, st), M)
        }
        _ => {
            drop(ts);
            rt::get(Ts::<S, U, V>::from_store_configs(n, &configs(v)), M)
        }
    };
    let roots: Vec<El> = rows.iter().map(|r: &Vec<Vec<El>>| root_of(r)).collect();
    let len = flat(&rows[0]).len();
    check_compound(&t, &leaves, &r_over(&roots), len * v + 1, rows[0].len() + 1);
    rt::check(rt::get(get_merkle_tree_len_generic::<U, V, U0>(n), "the length of a compound tree is defined") == t.len(), "the length function agrees with the tree");
    rt::reach("sub");
}
fn top<S: Store<El>, U: Unsigned, V: Unsigned, W: Unsigned>(n: usize, how: u64) {
    let (v, w) = (V::to_usize(), W::to_usize());
    let (mut ts, leaves, rows) = bases::<S, U>(v * w, n);
    let t: Tt<S, U, V, W> = match how {
        0 => {
            let mut subs = vec![];
            for _ in 0..w {
                let rest = ts.split_off(v);
                subs.push(rt::get(Ts::<S, U, V>::from_trees(ts), M));
                ts = rest;
            }
            rt::get(Tt::<S, U, V, W>::from_sub_trees(subs), M)
        }
        1 => rt::get(Tt::<S, U, V, W>::from_sub_trees_as_trees(ts), M),
        _ => {
            drop(ts);
            rt::get(Tt::<S, U, V, W>::from_sub_tree_store_configs(n, &configs(v * w)), M)
        }
    };
    let mids = mids_of(&rows, v);
    let len = flat(&rows[0]).len();
    check_compound(&t, &leaves, &r_over(&mids), (len * v + 1) * w + 1, rows[0].len() + 2);
    rt::check(rt::get(get_merkle_tree_len_generic::<U, V, W>(n), "the length of a compound tree is defined") == t.len(), "the length function agrees with the tree");
    rt::reach("top");
}
/// A wrong number of components, or one component of another shape, is refused.
fn wrong<S: Store<El>, U: Unsigned, V: Unsigned>(k: usize) {
    let (a, v) = (U::to_usize(), V::to_usize());
    let n = pow(a, k);
    let m = n * a;
    let how = rt::pick("how", 0, 4);
    let odd = rt::pick("odd", 0, v as u64) as usize;
    let c = rt::pick("count", 0, v as u64 + 2) as usize;
    rt::assume((odd < c) | (c != v)); // a component of another shape, or a wrong number
    let size = |i: usize| if i == odd { m } else { n };
    if how != 0 {
        // the leaf count is an argument: a different one is a different shape even when all components agree
        rt::assume((c != v) | (odd < v));
    }
    let rows: Vec<_> = (0..c).map(|i| r_rows(&items("leaf", size(i)), a)).collect();
    let bytes = nodes(&rows);
    let slices: Vec<&[u8]> = bytes.iter().map(|b| &b[..]).collect();
    let e = "components of different shapes or in the wrong number are refused";
    let bad = match how {
        0 => {
            let ts = rows.iter().map(|r| mk::<VecStore<El>, U>(&r[0], "-")).collect();
            rt::no_panic("composing never panics", || Ts::<VecStore<El>, U, V>::from_trees(ts)).is_err()
        }
        1 => rt::no_panic("composing never panics", || Ts::<S, U, V>::from_slices(&slices, n)).is_err(),
        2 => rt::no_panic("composing never panics", || Ts::<S, U, V>::from_slices_with_configs(&slices, n, &configs(c))).is_err(),
        3 => {
            let st = slices.iter().map(|b| rt::get(S::new_from_slice(b.len() / EL, b), "a store over a full tree opens")).collect();
            rt::no_panic("composing never panics", || Ts::<S, U, V>::from_stores(n, st)).is_err()
        }
        _ => {
            for (i, r) in rows.iter().enumerate() {
                mk::<DiskStore<El>, U>(&r[0], &name_of(i));
            }
            rt::no_panic("composing never panics", || Ts::<DiskStore<El>, U, V>::from_store_configs(n, &configs(c))).is_err()
        }
    };
    rt::check(bad, e);
    rt::reach("wrong");
}
fn wrong_top<U: Unsigned, V: Unsigned, W: Unsigned>(k: usize) {
    let (a, v, w) = (U::to_usize(), V::to_usize(), W::to_usize());
    let n = pow(a, k);
    let how = rt::pick("how", 0, 2);
    let full = v * w;
    let e = "components of different shapes or in the wrong number are refused";
    let bad = match how {
        0 => {
            // whole sub-trees: wrong number, or one of another shape
            let c = rt::pick("count", 0, w as u64 + 2) as usize;
            let odd = rt::pick("odd", 0, w as u64) as usize;
            rt::assume((odd < c) | (c != w));
            let mut subs = vec![];
            for i in 0..c {
                let size = if i == odd { n * a } else { n };
                let ts = (0..v).map(|_| mk::<VecStore<El>, U>(&items("leaf", size), "-")).collect();
                subs.push(rt::get(Ts::<VecStore<El>, U, V>::from_trees(ts), M));
            }
            // a single odd sub-tree among one is not odd
            rt::assume(!((c == w) & (w == 1)));
            rt::no_panic("composing never panics", || Tt::<VecStore<El>, U, V, W>::from_sub_trees(subs)).is_err()
        }
        h => {
            let c = rt::pick("count", 0, full as u64 + 3) as usize;
            let odd = rt::pick("odd", 0, full as u64) as usize;
            rt::assume((odd < c) | (c != full));
            let size = |i: usize| if i == odd { n * a } else { n };
            if h == 1 {
                let ts = (0..c).map(|i| mk::<VecStore<El>, U>(&items("leaf", size(i)), "-")).collect();
                rt::no_panic("composing never panics", || Tt::<VecStore<El>, U, V, W>::from_sub_trees_as_trees(ts)).is_err()
            } else {
                for i in 0..c {
                    mk::<DiskStore<El>, U>(&items("leaf", size(i)), &name_of(i));
                }
                rt::no_panic("composing never panics", || Tt::<DiskStore<El>, U, V, W>::from_sub_tree_store_configs(n, &configs(c))).is_err()
            }
        }
    };
    rt::check(bad, e);
    rt::reach("wrong_top");
}
fn go_sub() {
    let (s, a, k, v, h) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("sub", 2), rt::param("how", 0));
    let n = pow(a as usize, k as usize);
    match (s, a, v) {
        (0, 2, 2) => sub::<VecStore<El>, U2, U2>(n, h),
        (0, 2, 3) => sub::<VecStore<El>, U2, U3>(n, h),
        (0, 2, 8) => sub::<VecStore<El>, U2, U8>(n, h),
        (0, 4, 2) => sub::<VecStore<El>, U4, U2>(n, h),
        (0, 4, 5) => sub::<VecStore<El>, U4, U5>(n, h),
        (0, 8, 4) => sub::<VecStore<El>, U8, U4>(n, h),
        (1, 2, 2) => sub::<DiskStore<El>, U2, U2>(n, h),
        (1, 2, 3) => sub::<DiskStore<El>, U2, U3>(n, h),
        (1, 4, 2) => sub::<DiskStore<El>, U4, U2>(n, h),
        (1, 8, 4) => sub::<DiskStore<El>, U8, U4>(n, h),
        (2, 2, 3) => sub::<MmapStore<El>, U2, U3>(n, h),
        (2, 4, 2) => sub::<MmapStore<El>, U4, U2>(n, h),
        _ => panic!("harness: bad shape"),
    }
}
fn go_top() {
    let (s, a, k, v, w, h) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("sub", 2), rt::param("top", 2), rt::param("how", 0));
    let n = pow(a as usize, k as usize);
    match (s, a, v, w) {
        (0, 2, 2, 2) => top::<VecStore<El>, U2, U2, U2>(n, h),
        (0, 2, 3, 2) => top::<VecStore<El>, U2, U3, U2>(n, h),
        (0, 2, 2, 3) => top::<VecStore<El>, U2, U2, U3>(n, h),
        (0, 4, 2, 4) => top::<VecStore<El>, U4, U2, U4>(n, h),
        (0, 8, 4, 2) => top::<VecStore<El>, U8, U4, U2>(n, h),
        (1, 2, 2, 3) => top::<DiskStore<El>, U2, U2, U3>(n, h),
        (1, 2, 3, 2) => top::<DiskStore<El>, U2, U3, U2>(n, h),
        (1, 4, 2, 2) => top::<DiskStore<El>, U4, U2, U2>(n, h),
        (2, 2, 2, 2) => top::<MmapStore<El>, U2, U2, U2>(n, h),
        _ => panic!("harness: bad shape"),
    }
}
fn go_wrong() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2)) {
        (2, 2) => wrong::<VecStore<El>, U2, U2>(k),
        (2, 3) => wrong::<DiskStore<El>, U2, U3>(k),
        (4, 3) => wrong::<MmapStore<El>, U4, U3>(k),
        (8, 2) => wrong::<DiskStore<El>, U8, U2>(k),
        _ => panic!("harness: bad shape"),
    }
}
fn go_wrong_top() {
    let k = rt::param("k", 1) as usize;
    match (rt::param("arity", 2), rt::param("sub", 2), rt::param("top", 2)) {
        (2, 2, 2) => wrong_top::<U2, U2, U2>(k),
        (2, 3, 2) => wrong_top::<U2, U3, U2>(k),
        (2, 2, 3) => wrong_top::<U2, U2, U3>(k),
        (4, 2, 2) => wrong_top::<U4, U2, U2>(k),
        _ => panic!("harness: bad shape"),
    }
}
/// Compounds of trees too large to build, in sparse files.
fn large<S: Store<El>, U: Unsigned>(k: usize, e: usize) {
    let n = pow(U::to_usize(), k);
    let i = pick_index("index", n, U::to_usize());
    let leaves = "the leaves are the components' leaves in order";
    let shape = "leafs(), len() and row_count() add up";
    if flag("layers") {
        let c = rt::pick("component", 0, 3) as usize;
        let (ts, hs) = bases_of::<S, U>(4, c, i, k, e);
        let t = if flag("stores") {
            drop(ts);
            let cs: Vec<StoreConfig> = (0..4).map(|c| cfg(&name_of(c), 0)).collect();
            rt::get(Tt::<S, U, U2, U2>::from_sub_tree_store_configs(n, &cs), M)
        } else {
            rt::get(Tt::<S, U, U2, U2>::from_sub_trees_as_trees(ts), M)
        };
        let r = roots_of(&hs);
        same1(&t.root(), &r_over(&[r_over(&r[..2]), r_over(&r[2..])]), "the compound root is the hash of the component roots in order");
        same1(&rt::get(t.read_at(c * n + i), "every leaf is readable"), &hs[c].lemma[0], leaves);
        rt::check(t.leafs() == 4 * n && t.len() == 4 * hs[0].len + 3 && t.row_count() == k + 3, shape);
        rt::check(rt::no_panic("reading never panics", || t.read_at(4 * n)).is_err(), "reading beyond the last leaf is an error");
    } else {
        let c = rt::pick("component", 0, 2) as usize;
        let (ts, hs) = bases_of::<S, U>(3, c, i, k, e);
        let t = rt::get(Ts::<S, U, U3>::from_trees(ts), M);
        same1(&t.root(), &r_over(&roots_of(&hs)), "the compound root is the hash of the component roots in order");
        same1(&rt::get(t.read_at(c * n + i), "every leaf is readable"), &hs[c].lemma[0], leaves);
        rt::check(t.leafs() == 3 * n && t.len() == 3 * hs[0].len + 1 && t.row_count() == k + 2, shape);
        rt::check(rt::no_panic("reading never panics", || t.read_at(3 * n)).is_err(), "reading beyond the last leaf is an error");
    }
    rt::reach("large");
}
fn go_large() {
    let (s, a, k, e) = (rt::param("store", 1), rt::param("arity", 2), rt::param("k", 33) as usize, rt::param("height", 3) as usize);
    by_arity!(a, by_files, s, large, (k, e))
}
entries! { h_large10 => go_large, h_sub10 => go_sub, h_top10 => go_top, h_wrong10 => go_wrong, h_wrong_top => go_wrong_top }
