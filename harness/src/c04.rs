//! C04: proofs of compound trees (one or two layers above base trees) are complete and validate.
use crate::common::*;
use crate::huge::*;
use crate::rt;
use typenum::U1;

fn sub<S: Store<El>, U: Unsigned, V: Unsigned>(n: usize) {
    let v = V::to_usize();
    let (ts, leaves, rows) = bases::<S, U>(v, n);
    let t = rt::get(Ts::<S, U, V>::from_trees(ts), "a compound tree of equal trees is built");
    let i = rt::pick("index", 0, (n * v) as u64 - 1) as usize;
    let p = rt::get(t.gen_proof(i), "a proof is generated for every leaf");
    check_sub_proof(&p, &rows, i);
    same1(&p.root(), &t.root(), "the proof's root is the tree's root");
    same1(&p.item(), &leaves[i], "item() is the leaf");
    check_valid(&p);
    rt::reach("sub");
}
fn top<S: Store<El>, U: Unsigned, V: Unsigned, W: Unsigned>(n: usize) {
    let (v, w) = (V::to_usize(), W::to_usize());
    let (ts, leaves, rows) = bases::<S, U>(v * w, n);
    let t = rt::get(Tt::<S, U, V, W>::from_sub_trees_as_trees(ts), "a compound tree of equal trees is built");
    let i = rt::pick("index", 0, (n * v * w) as u64 - 1) as usize;
    let p = rt::get(t.gen_proof(i), "a proof is generated for every leaf");
    check_top_proof(&p, &rows, v, i);
    same1(&p.root(), &t.root(), "the proof's root is the tree's root");
    same1(&p.item(), &leaves[i], "item() is the leaf");
    check_valid(&p);
    rt::reach("top");
}
fn go_sub() {
    let (s, a, k, v) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("sub", 2));
    let n = pow(a as usize, k as usize);
    match (s, v) {
        (0, 1) => by_arity1!(a, sub0, [U1], (n)),
        (0, 2) => by_arity1!(a, sub0, [U2], (n)),
        (0, 3) => by_arity1!(a, sub0, [U3], (n)),
        (0, 4) => by_arity1!(a, sub0, [U4], (n)),
        (0, 5) => by_arity1!(a, sub0, [U5], (n)),
        (0, 8) => by_arity1!(a, sub0, [U8], (n)),
        (1, 2) => by_arity1!(a, sub1, [U2], (n)),
        (2, 3) => sub::<MmapStore<El>, U2, U3>(n),
        _ => panic!("harness: bad shape"),
    }
}
fn sub0<U: Unsigned, V: Unsigned>(n: usize) {
    sub::<VecStore<El>, U, V>(n)
}
fn sub1<U: Unsigned, V: Unsigned>(n: usize) {
    sub::<DiskStore<El>, U, V>(n)
}
fn go_top() {
    let (s, a, k, v, w) = (rt::param("store", 0), rt::param("arity", 2), rt::param("k", 1), rt::param("sub", 2), rt::param("top", 2));
    let n = pow(a as usize, k as usize);
    match (s, a, v, w) {
        (0, 2, 1, 1) => top::<VecStore<El>, U2, U1, U1>(n),
        (0, 2, 2, 2) => top::<VecStore<El>, U2, U2, U2>(n),
        (0, 2, 3, 2) => top::<VecStore<El>, U2, U3, U2>(n),
        (0, 2, 2, 5) => top::<VecStore<El>, U2, U2, U5>(n),
        (0, 4, 2, 2) => top::<VecStore<El>, U4, U2, U2>(n),
        (0, 4, 4, 2) => top::<VecStore<El>, U4, U4, U2>(n),
        (0, 4, 1, 4) => top::<VecStore<El>, U4, U1, U4>(n),
        (0, 8, 2, 3) => top::<VecStore<El>, U8, U2, U3>(n),
        (0, 8, 8, 1) => top::<VecStore<El>, U8, U8, U1>(n),
        (1, 2, 2, 3) => top::<DiskStore<El>, U2, U2, U3>(n),
        _ => panic!("harness: bad shape"),
    }
}
/// Compounds of trees too large to build, in sparse files.
fn large<S: Store<El>, U: Unsigned>(k: usize, e: usize) {
    let n = pow(U::to_usize(), k);
    let i = pick_index("index", n, U::to_usize());
    let m = "the compound proof is the base proof, the other roots and the compound root";
    if flag("layers") {
        let c = rt::pick("component", 0, 3) as usize;
        let (ts, hs) = bases_of::<S, U>(4, c, i, k, e);
        let t = rt::get(Tt::<S, U, U2, U2>::from_sub_trees_as_trees(ts), "a compound tree of equal trees is built");
        let p = rt::get(t.gen_proof(c * n + i), "a proof is generated for every leaf");
        let r = roots_of(&hs);
        let mids = [r_over(&r[..2]), r_over(&r[2..])];
        rt::check(p.path().len() == 1 && p.path()[0] == c / 2, m);
        same(p.lemma(), &r_over_lemma(&mids, c / 2), m);
        let q = p.sub_tree_proof.as_ref().unwrap();
        rt::check(q.path().len() == 1 && q.path()[0] == c % 2, m);
        same(q.lemma(), &r_over_lemma(&r[c / 2 * 2..c / 2 * 2 + 2], c % 2), m);
        hs[c].is_proof(q.sub_tree_proof.as_ref().unwrap());
        check_valid(&p);
    } else {
        let c = rt::pick("component", 0, 2) as usize;
        let (ts, hs) = bases_of::<S, U>(3, c, i, k, e);
        let t = rt::get(Ts::<S, U, U3>::from_trees(ts), "a compound tree of equal trees is built");
        let p = rt::get(t.gen_proof(c * n + i), "a proof is generated for every leaf");
        rt::check(p.path().len() == 1 && p.path()[0] == c, m);
        same(p.lemma(), &r_over_lemma(&roots_of(&hs), c), m);
        hs[c].is_proof(p.sub_tree_proof.as_ref().unwrap());
        check_valid(&p);
    }
    rt::reach("large");
}
fn go_large() {
    let (s, a, k, e) = (rt::param("store", 1), rt::param("arity", 2), rt::param("k", 33) as usize, rt::param("height", 3) as usize);
    by_arity!(a, by_files, s, large, (k, e))
}
entries! { h_large4 => go_large, h_sub => go_sub, h_top => go_top }
